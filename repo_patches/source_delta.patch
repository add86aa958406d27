From b2a9a9341824223bcd5d17149dd3e605b77ddbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 01/64] fix: a sign after a digit is an operator unless it
 follows an exponent marker

---
 parser/lexer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..aa22411 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -957,6 +957,9 @@ outer:
 }
 
 func (ctx *context) consumeFloat(start int, d rune) {
+	if d != '.' {
+		ctx.skipExponentSign()
+	}
 	if ctx.skipDecimalDigits() == 0 {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
@@ -965,6 +968,7 @@ func (ctx *context) consumeFloat(start int, d rune) {
 		// Check for 'e'
 		if c == 'e' || c == 'E' {
 			ctx.Advance(n)
+			ctx.skipExponentSign()
 			if ctx.skipDecimalDigits() == 0 {
 				panic(ctx.parseIssue(lexDigitExpected))
 			}
@@ -978,13 +982,17 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// skipExponentSign skips the sign that may precede the digits of an exponent. A sign that follows any other part of
+// a number is an operator.
+func (ctx *context) skipExponentSign() {
+	if c, n := ctx.Peek(); c == '-' || c == '+' {
+		ctx.Advance(n)
+	}
+}
+
 func (ctx *context) skipDecimalDigits() (digitCount int) {
 	digitCount = 0
 	c, n := ctx.Peek()
-	if c == '-' || c == '+' {
-		ctx.Advance(n)
-		c, n = ctx.Peek()
-	}
 	for isDecimalDigit(c) {
 		ctx.Advance(n)
 		c, n = ctx.Peek()
-- 
2.43.0


From fe01371bc6133f7913c27fbc48a3e6bf454a0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 02/64] fix: numbers that cannot be represented are rejected
 instead of clamped

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 35 +++++++++++++++++++++++++++--------
 parser/parser.go |  8 +++-----
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..b915c59 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -21,6 +21,7 @@ const (
 	lexMalformedHexEscape           = `LEX_MALFORMED_HEX_ESCAPE`
 	lexMalformedInterpolation       = `LEX_MALFORMED_INTERPOLATION`
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
+	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
@@ -74,6 +75,7 @@ func init() {
 	issue.Hard(lexMalformedHexEscape, `malformed hexadecimal escape sequence`)
 	issue.Hard(lexMalformedInterpolation, `malformed interpolation expression`)
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
+	issue.Hard(lexNumberOutOfRange, `number out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index aa22411..c177b87 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -319,6 +319,7 @@ type context struct {
 	tokenStartPos         int
 	tokenValue            interface{}
 	radix                 int
+	negative              bool
 	factory               ExpressionFactory
 	nameStack             []string
 	definitions           []Definition
@@ -366,8 +367,7 @@ func (ctx *context) nextToken() {
 		if unicode.IsLetter(c) {
 			panic(ctx.parseIssue(lexDigitExpected))
 		}
-		v, _ := strconv.ParseInt(ctx.From(start), 10, 64)
-		ctx.settokenValue(tokenInteger, v)
+		ctx.settokenValue(tokenInteger, ctx.integerValue(start, ctx.From(start), 10))
 		ctx.radix = 10
 
 	case 'A' <= c && c <= 'Z':
@@ -673,7 +673,7 @@ func (ctx *context) nextToken() {
 			} else if isDecimalDigit(c) {
 				ctx.Advance(sz)
 				ctx.skipDecimalDigits()
-				ctx.tokenValue, _ = strconv.ParseInt(ctx.From(start+1), 10, 64)
+				ctx.tokenValue = ctx.integerValue(start, ctx.From(start+1), 10)
 			} else if unicode.IsLetter(c) {
 				panic(ctx.parseIssue(lexInvalidVariableName))
 			} else {
@@ -701,9 +701,8 @@ func (ctx *context) nextToken() {
 				if ctx.Pos() == hexStart || isLetter(c) {
 					panic(ctx.parseIssue(lexHexdigitExpected))
 				}
-				v, _ := strconv.ParseInt(ctx.From(hexStart), 16, 64)
 				ctx.radix = 16
-				ctx.settokenValue(tokenInteger, v)
+				ctx.settokenValue(tokenInteger, ctx.integerValue(start, ctx.From(hexStart), 16))
 
 			case '.', 'e', 'E':
 				// 0[.eE]<something>
@@ -720,9 +719,8 @@ func (ctx *context) nextToken() {
 					panic(ctx.parseIssue(lexOctaldigitExpected))
 				}
 				if ctx.Pos() > octalStart {
-					v, _ := strconv.ParseInt(ctx.From(octalStart), 8, 64)
 					ctx.radix = 8
-					ctx.settokenValue(tokenInteger, v)
+					ctx.settokenValue(tokenInteger, ctx.integerValue(start, ctx.From(octalStart), 8))
 				} else {
 					ctx.settokenValue(tokenInteger, int64(0))
 				}
@@ -978,10 +976,31 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	if unicode.IsLetter(c) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
-	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	v, err := strconv.ParseFloat(ctx.From(start), 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
+	if ctx.negative {
+		v = -v
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// integerValue returns the value of the given digits, negated when the number is preceded by a sign. The start is the
+// position of the number.
+func (ctx *context) integerValue(start int, digits string, radix int) int64 {
+	if ctx.negative {
+		digits = `-` + digits
+	}
+	v, err := strconv.ParseInt(digits, radix, 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
+	return v
+}
+
 // skipExponentSign skips the sign that may precede the digits of an exponent. A sign that follows any other part of
 // a number is an operator.
 func (ctx *context) skipExponentSign() {
diff --git a/parser/parser.go b/parser/parser.go
index d786464..020b009 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,6 +164,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
+	ctx.negative = false
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
@@ -654,12 +655,9 @@ func (ctx *context) unaryExpression() Expression {
 	switch ctx.currentToken {
 	case tokenSubtract:
 		if c, _ := ctx.Peek(); isDecimalDigit(c) {
+			ctx.negative = true
 			ctx.nextToken()
-			if ctx.currentToken == tokenInteger {
-				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(int64))
-			} else {
-				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(float64))
-			}
+			ctx.negative = false
 			expr := ctx.primaryExpression()
 			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
 			return expr
-- 
2.43.0


From 9f76828ce90dcdcaadb958e2c09a00f299768768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 03/64] fix: accept a correctly encoded U+FFFD in the source

---
 parser/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..1c9ad73 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -63,7 +63,7 @@ func (r *stringReader) Next() (c rune, start int) {
 		return
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	r.i += size
@@ -80,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
@@ -96,7 +96,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
-- 
2.43.0


From 41edc0c4ec4a41977db8ec077bda563083c1bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 04/64] fix: the line index of a source with invalid or null
 characters, also when read concurrently

---
 parser/expression.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..15a6298 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"sort"
 	"strings"
+	"sync"
 	"unicode/utf8"
 
 	"github.com/lyraproj/issue/issue"
@@ -327,6 +328,7 @@ type (
 	Locator struct {
 		string    string
 		file      string
+		indexOnce sync.Once
 		lineIndex []int
 	}
 
@@ -582,16 +584,15 @@ func (e *Locator) PosOnLine(offset int) int {
 }
 
 func (e *Locator) getLineIndex() []int {
-	if e.lineIndex == nil {
+	e.indexOnce.Do(func() {
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for i := 0; i < len(e.string); i++ {
+			if e.string[i] == '\n' {
+				li = append(li, i+1)
 			}
 		}
 		e.lineIndex = li
-	}
+	})
 	return e.lineIndex
 }
 
-- 
2.43.0


From 9f8bec9f91324d50a417d7d82867a5ad5c9a8e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 05/64] fix: a null character in the source is rejected and
 never mistaken for the end of it

---
 parser/reader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/reader.go b/parser/reader.go
index 1c9ad73..1441263 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -52,12 +52,20 @@ func (r *stringReader) invalidUnicode() *parseError {
 	return r.parseError("invalid unicode character")
 }
 
+// A null character in the text cannot be told from the end of the text
+func (r *stringReader) illegalNull() *parseError {
+	return r.parseError("illegal null character")
+}
+
 func (r *stringReader) Next() (c rune, start int) {
 	start = r.i
 	if r.i >= len(r.text) {
 		return
 	}
 	c = rune(r.text[r.i])
+	if c == 0 {
+		panic(r.illegalNull())
+	}
 	if c < utf8.RuneSelf {
 		r.i++
 		return
@@ -75,6 +83,9 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c = rune(r.text[r.i])
+	if c == 0 {
+		panic(r.illegalNull())
+	}
 	if c < utf8.RuneSelf {
 		size = 1
 		return
@@ -91,6 +102,9 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c = rune(r.text[pos])
+	if c == 0 {
+		panic(r.illegalNull())
+	}
 	if c < utf8.RuneSelf {
 		size = 1
 		return
-- 
2.43.0


From d78d3ac0eedb497af94c8858dcf0e11072df35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 06/64] fix: the parser validator reports invalid source
 characters instead of panicking

---
 validator/issues.go    | 3 +++
 validator/validator.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/validator/issues.go b/validator/issues.go
index c670c7d..8885421 100644
--- a/validator/issues.go
+++ b/validator/issues.go
@@ -30,6 +30,7 @@ const (
 	ValidateIllegalQueryExpression          = `VALIDATE_ILLEGAL_QUERY_EXPRESSION`
 	ValidateIllegalRegexpTypeMapping        = `VALIDATE_ILLEGAL_REGEXP_TYPE_MAPPING`
 	ValidateIllegalSingleTypeMapping        = `VALIDATE_ILLEGAL_SINGLE_TYPE_MAPPING`
+	ValidateInvalidSource                   = `VALIDATE_INVALID_SOURCE`
 	ValidateInvalidStepStyle                = `VALIDATE_INVALID_STEP_STYLE`
 	ValidateMultipleAttributesUnfold        = `VALIDATE_MULTIPLE_ATTRIBUTES_UNFOLD`
 	ValidateNotAbsoluteTopLevel             = `VALIDATE_NOT_ABSOLUTE_TOP_LEVEL`
@@ -116,6 +117,8 @@ func init() {
 		`Illegal type mapping. Expected a Type on the left side, got %{expression}`,
 		issue.HF{`expression`: issue.AnOrA})
 
+	issue.Hard(ValidateInvalidSource, `%{problem}`)
+
 	issue.Hard(ValidateInvalidStepStyle, `Expected one of 'for', 'function', 'guard', 'resource', or 'workflow'. Got '%{style}'`)
 
 	issue.Hard(ValidateMultipleAttributesUnfold, `Unfolding of attributes from Hash can only be used once per resource body`)
diff --git a/validator/validator.go b/validator/validator.go
index fa2d652..574b75a 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -176,7 +176,8 @@ func (pv *parserValidator) Parse(filename string, source string) (parser.Express
 		if i, ok := err.(issue.Reported); ok {
 			return nil, issue.NewResult([]issue.Reported{i})
 		}
-		panic(err.Error())
+		return nil, issue.NewResult([]issue.Reported{
+			issue.NewReported(ValidateInvalidSource, issue.SeverityError, issue.H{`problem`: err.Error()}, issue.NewLocation(filename, 0, 0))})
 	}
 	Validate(pv.validator, expr)
 	issues := pv.validator.Issues()
-- 
2.43.0


From 377ceff023c47a4a30c9f861eea910f25dfc014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 07/64] fix: white space after the first token of a block is
 significant like elsewhere, and a block starts at its first token

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 020b009..a3f5f2d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -244,8 +244,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From d6fb5c5b38d52b0a9f81ba21dc36608da184ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 08/64] fix: words that name step styles can be used as
 ordinary names when workflows are enabled

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a3f5f2d..dff7407 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -438,14 +438,18 @@ func (ctx *context) assignment() (expr Expression) {
 }
 
 func (ctx *context) step() (expr Expression) {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	expr = ctx.resource()
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
 			if style, ok := workflowStyles[s]; ok {
+				pos := ctx.Pos()
 				if name, ok := ctx.identifier(); ok {
 					expr = ctx.stepDeclaration(start, style, name, true)
+				} else {
+					// Not a step. The current token is still to be consumed
+					ctx.SetPos(pos)
 				}
 			}
 		}
-- 
2.43.0


From 209bf7931fbff5db6819cc163c6b428a725cc325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 09/64] fix: offsets and lengths of workflow steps, their
 properties and their iteration

---
 parser/parser.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index dff7407..a8b61c9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1142,12 +1142,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1300,7 +1300,7 @@ func (ctx *context) stepName(step StepStyle) string {
 // stepEntry is a hash entry with some specific constraints
 
 func (ctx *context) stepProperty() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	key, ok := ctx.identifierExpr()
 	if !ok {
 		panic(ctx.parseIssue(parseExpectedAttributeName))
@@ -1310,7 +1310,7 @@ func (ctx *context) stepProperty() Expression {
 	}
 	ctx.nextToken()
 
-	vstart := ctx.Pos()
+	vstart := ctx.tokenStartPos
 	name := key.(*QualifiedName).name
 	var value Expression
 	switch name {
@@ -1404,7 +1404,7 @@ func (ctx *context) stateAttribute() (op Expression) {
 }
 
 func (ctx *context) stepExpression() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	if ctx.currentToken == tokenFunction {
 		return ctx.functionDefinition()
 	}
@@ -1452,16 +1452,16 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterFunc := ctx.tokenString()
 			nl := len(iterFunc)
 			fs := ctx.tokenStartPos
-			ps := ctx.Pos()
 			ctx.nextToken()
+			ps := ctx.tokenStartPos
 			iterParams := ctx.parameterList()
+			pl := ctx.Pos() - ps
 			ctx.nextToken()
-			vs := ctx.Pos()
-			pl := ps - vs
+			vs := ctx.tokenStartPos
 			iterVars := ctx.lambdaParameterList()
-			ctx.nextToken()
 			vl := ctx.Pos() - vs
 			fn := ctx.Pos() - fs
+			ctx.nextToken()
 			iter := f.Hash(
 				[]Expression{
 					f.KeyedEntry(
@@ -1832,7 +1832,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From 1ef52fc162785b4748d7d2209d21ea5a80694efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 10/64] fix: the parameter list of a step property or iteration
 must be a parameter list

---
 parser/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index a8b61c9..b00e781 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1317,11 +1317,13 @@ func (ctx *context) stepProperty() Expression {
 	case `parameters`:
 		// TODO: Allow non condensed declaration using array of hashes where everything is
 		// spelled out (type and value expressed in hash)
+		ctx.assertParameterList()
 		value = ctx.factory.Array(ctx.parameterList(), ctx.locator, vstart, ctx.Pos()-vstart)
 		ctx.nextToken()
 	case `returns`:
 		// TODO: Allow non condensed declaration using array of hashes where everything is
 		// spelled out (type and value expressed in hash)
+		ctx.assertParameterList()
 		params := ctx.returnParameters()
 		value = ctx.factory.Array(params, ctx.locator, vstart, ctx.Pos()-vstart)
 		ctx.nextToken()
@@ -1454,10 +1456,12 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			fs := ctx.tokenStartPos
 			ctx.nextToken()
 			ps := ctx.tokenStartPos
+			ctx.assertParameterList()
 			iterParams := ctx.parameterList()
 			pl := ctx.Pos() - ps
 			ctx.nextToken()
 			vs := ctx.tokenStartPos
+			ctx.assertToken(tokenPipe)
 			iterVars := ctx.lambdaParameterList()
 			vl := ctx.Pos() - vs
 			fn := ctx.Pos() - fs
@@ -1745,6 +1749,13 @@ func (ctx *context) dottedName() Expression {
 	}
 }
 
+// assertParameterList asserts that the current token starts a parameter list
+func (ctx *context) assertParameterList() {
+	if ctx.currentToken != tokenWslp {
+		ctx.assertToken(tokenLp)
+	}
+}
+
 func (ctx *context) parameterList() (result []Expression) {
 	switch ctx.currentToken {
 	case tokenLp, tokenWslp:
-- 
2.43.0


From cdb853acad98f547aaeb08075a1b544bd63b620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 11/64] fix: zeroes at the end of an exponent are significant
 when a float is printed

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..20c7c76 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -248,7 +248,7 @@ func (pn *literalPN) AsParameters() []PN {
 
 // Strip zeroes between last significant digit and end or exponent. The
 // zero following the decimal point is considered significant.
-var StripTrailingZeroes = regexp.MustCompile(`\A(.*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
+var StripTrailingZeroes = regexp.MustCompile(`\A([^e]*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
 
 func (pn *literalPN) Format(b *bytes.Buffer) {
 	switch pn.val.(type) {
-- 
2.43.0


From 050239d8ba32983d8a9831245f6e96ce58eefbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 12/64] fix: a parser starts each parse without state from the
 previous one

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index b00e781..eb368c4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -165,6 +165,11 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
 	ctx.negative = false
+	ctx.beginningOfLine = 0
+	ctx.radix = 0
+	ctx.tokenStartPos = 0
+	ctx.setToken(tokenEnd)
+	ctx.nameStack = nil
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From 4a96d12df5621f84093dde1d833c2c716d86d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 13/64] fix: the simple lexer does not start over at the first
 line break

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index eb368c4..f261046 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -89,6 +89,7 @@ func NewSimpleLexer(filename string, source string) Lexer {
 	return &lexer{context{
 		stringReader:          stringReader{text: source},
 		factory:               nil,
+		nextLineStart:         -1,
 		locator:               &Locator{string: source, file: filename},
 		handleBacktickStrings: false,
 		handleHexEscapes:      false,
-- 
2.43.0


From 32e08096f78a66892f72d93d43541414d885c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 14/64] fix: a hex escape without hex digits is malformed

---
 parser/lexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index c177b87..bf58fbe 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1694,11 +1694,11 @@ func (ctx *context) appendHexadec(buf *bytes.Buffer) {
 	// Must be XX (a two-digit hex number)
 	d, start := ctx.Next()
 	if isHexDigit(d) {
-		d, _ := ctx.Next()
-		if !isHexDigit(d) {
-			ctx.SetPos(start - 2)
-			panic(ctx.parseIssue(lexMalformedHexEscape))
-		}
+		d, _ = ctx.Next()
+	}
+	if !isHexDigit(d) {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedHexEscape))
 	}
 	r, _ := strconv.ParseInt(ctx.From(start), 16, 64)
 	buf.WriteByte(byte(r))
-- 
2.43.0


From 7a8c0a41fadb1d903b306c193baf706635f466ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 15/64] fix: what is read again after a missing resource title
 is read from the same state

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f261046..3d9df86 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -980,7 +980,10 @@ func (ctx *context) caseOption() Expression {
 }
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
+	braceStart := ctx.tokenStartPos
 	bodiesStart := ctx.Pos()
+	nextLineStart := ctx.nextLineStart
+	definitionCount := len(ctx.definitions)
 	ctx.nextToken()
 	titleStart := ctx.Pos()
 	var firstTitle Expression
@@ -992,8 +995,10 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	}
 
 	if ctx.currentToken != tokenColon {
-		// Resource body without title
+		// Resource body without title. What was read will be read again
 		ctx.SetPos(titleStart)
+		ctx.nextLineStart = nextLineStart
+		ctx.definitions = ctx.definitions[:definitionCount]
 		switch ctx.resourceShape(first) {
 		case `resource`:
 			// This is just LHS followed by a hash. It only makes sense when LHS is an identifier equal
@@ -1009,7 +1014,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 					args := make([]Expression, 1)
 					ctx.SetPos(bodiesStart)
 					ctx.nextToken()
-					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
+					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, braceStart, ctx.Pos()-braceStart)
 					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
 					ctx.nextToken()
 					return
-- 
2.43.0


From 8318e0e8b3c8a39abaee2db2350e49caf1fc44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 16/64] fix: the first attribute of resource defaults and
 overrides can have a keyword as its name

---
 parser/parser.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3d9df86..28e128b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -988,9 +988,13 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	titleStart := ctx.Pos()
 	var firstTitle Expression
 
-	// First attribute might be a * => operator. No attempt should be made
-	// to read it as an expression.
-	if ctx.currentToken != tokenMultiply {
+	// First attribute might be a * => operator or have a name that is a keyword. No
+	// attempt should be made to read it as an expression.
+	switch {
+	case ctx.currentToken == tokenMultiply:
+	case ctx.isKeywordAttribute():
+		ctx.setToken(tokenFarrow)
+	default:
 		firstTitle = ctx.expression()
 	}
 
@@ -1046,6 +1050,18 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	return
 }
 
+// isKeywordAttribute returns true if the current token is a keyword that is followed by an arrow
+func (ctx *context) isKeywordAttribute() bool {
+	if _, ok := ctx.keyword(); !ok {
+		return false
+	}
+	saved := *ctx
+	ctx.nextToken()
+	isName := ctx.currentToken == tokenFarrow || ctx.currentToken == tokenParrow
+	*ctx = saved
+	return isName
+}
+
 func (ctx *context) resourceShape(expr Expression) string {
 	if _, ok := expr.(*QualifiedName); ok {
 		return "resource"
-- 
2.43.0


From 4ddaeca965b4df8186e707bd39ed275c54613cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 17/64] fix: the leading name of any chain of accesses and
 method calls in an interpolation is a variable

---
 parser/lexer.go | 51 +++++++++++++++++--------------------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index bf58fbe..a40c16e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1197,21 +1197,8 @@ func (ctx *context) interpolate(start int) Expression {
 		switch expr.(type) {
 		case *QualifiedName:
 			expr = ctx.factory.Variable(expr, ctx.locator, start, ctx.Pos()-start)
-		case *AccessExpression:
-			access := expr.(*AccessExpression)
-			if identifier, ok := access.operand.(*QualifiedName); ok {
-				expr = ctx.factory.Access(
-					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-					access.keys, ctx.locator, start, access.ByteLength()+1)
-			}
-		case *CallMethodExpression:
-			call := expr.(*CallMethodExpression)
-			if ne, ok := call.functor.(*NamedAccessExpression); ok {
-				modNe := ctx.convertNamedAccessLHS(ne, start)
-				if modNe != ne {
-					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteLength()+1)
-				}
-			}
+		case *AccessExpression, *CallMethodExpression:
+			expr = ctx.convertLeadingName(expr, start)
 		}
 		return ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)
 	}
@@ -1229,29 +1216,27 @@ func (ctx *context) interpolate(start int) Expression {
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
-func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int) Expression {
-	switch lhs := expr.lhs.(type) {
+// convertLeadingName converts a QualifiedName that is the innermost operand of accesses and method calls into a
+// variable. Any other expression is returned as is.
+func (ctx *context) convertLeadingName(expr Expression, start int) Expression {
+	f := ctx.factory
+	l := ctx.locator
+	n := expr.ByteOffset() + expr.ByteLength() - start
+	switch e := expr.(type) {
 	case *QualifiedName:
-		return ctx.factory.NamedAccess(
-			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		return f.Variable(e, l, start, n)
 	case *AccessExpression:
-		var lhe Expression = lhs
-		if identifier, ok := lhs.operand.(*QualifiedName); ok {
-			lhe = ctx.factory.Access(
-				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-				lhs.keys, ctx.locator, start, lhs.ByteLength()+1)
+		if lhs := ctx.convertLeadingName(e.operand, start); lhs != e.operand {
+			return f.Access(lhs, e.keys, l, start, n)
 		}
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
 	case *NamedAccessExpression:
-		return ctx.factory.NamedAccess(
-			ctx.convertNamedAccessLHS(lhs, start),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		if lhs := ctx.convertLeadingName(e.lhs, start); lhs != e.lhs {
+			return f.NamedAccess(lhs, e.rhs, l, start, n)
+		}
 	case *CallMethodExpression:
-		lhe := ctx.factory.CallMethod(
-			ctx.convertNamedAccessLHS(lhs.functor.(*NamedAccessExpression), start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1).(*CallMethodExpression)
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		if ne := ctx.convertLeadingName(e.functor, start); ne != e.functor {
+			return f.CallMethod(ne, e.arguments, e.lambda, l, start, n)
+		}
 	}
 	return expr
 }
-- 
2.43.0


From b6c10855f81aec84743cbc310c4ae31cc4efc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 18/64] fix: a method call without arguments is a call also
 when its result is accessed

---
 parser/parser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28e128b..212a92e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -717,8 +717,9 @@ func (ctx *context) primaryExpression() (expr Expression) {
 		case tokenLp, tokenPipe:
 			expr = ctx.callFunctionExpression(expr)
 		case tokenLcollect, tokenLlcollect:
-			expr = ctx.collectExpression(expr)
+			expr = ctx.collectExpression(ctx.namedAccessToCall(expr))
 		case tokenLb:
+			expr = ctx.namedAccessToCall(expr)
 			ctx.nextToken()
 			params := ctx.arrayExpression()
 			isCall := false
@@ -743,15 +744,19 @@ func (ctx *context) primaryExpression() (expr Expression) {
 			}
 			expr = ctx.factory.NamedAccess(expr, rhs, ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
 		default:
-			if namedAccess, ok := expr.(*NamedAccessExpression); ok {
-				// Transform into method calls
-				expr = ctx.convertLhsToCall(namedAccess, []Expression{}, nil, expr.ByteOffset(), expr.ByteLength())
-			}
-			return
+			return ctx.namedAccessToCall(expr)
 		}
 	}
 }
 
+// namedAccessToCall transforms a named access that isn't followed by arguments into a method call
+func (ctx *context) namedAccessToCall(expr Expression) Expression {
+	if namedAccess, ok := expr.(*NamedAccessExpression); ok {
+		return ctx.convertLhsToCall(namedAccess, []Expression{}, nil, expr.ByteOffset(), expr.ByteLength())
+	}
+	return expr
+}
+
 func (ctx *context) atomExpression() (expr Expression) {
 	atomStart := ctx.tokenStartPos
 	switch ctx.currentToken {
-- 
2.43.0


From 00d0bc644b6dceb702745a7db0fe6bb389465885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 19/64] fix: $name in a string denotes the variable also when
 name is a keyword or followed by a dash, and errors in strings are located

---
 parser/lexer.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index a40c16e..eef94d5 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1047,12 +1047,12 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 
 			default:
 				handler(buf, ctx, ec)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 			}
 
@@ -1067,7 +1067,7 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			fallthrough
 		default:
 			buf.WriteRune(ec)
-			ec, _ = ctx.Next()
+			ec, start = ctx.Next()
 		}
 	}
 }
@@ -1203,15 +1203,18 @@ func (ctx *context) interpolate(start int) Expression {
 		return ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)
 	}
 
-	// Not delimited by curly braces. Must be a single identifier then
-	ctx.setToken(tokenVariable)
-	if c == ':' || isLowercaseLetter(c) || isDecimalDigit(c) {
-		ctx.nextToken()
+	// Not delimited by curly braces. Must be a single variable name then
+	if c == ':' {
+		if next, _ := ctx.PeekAt(ctx.Pos() + 1); next == ':' {
+			ctx.Advance(2)
+			c, _ = ctx.Peek()
+		}
 	}
-	if ctx.currentToken != tokenIdentifier {
+	if !isLowercaseLetter(c) {
 		ctx.SetPos(start)
 		panic(ctx.parseIssue(lexMalformedInterpolation))
 	}
+	ctx.consumeQualifiedName(start, tokenVariable)
 	textExpr := ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, start+1, ctx.Pos()-(start+1))
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
-- 
2.43.0


From d40fc841d77b2292bb36568c4c8f5aef1ec3c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 20/64] fix: $n in a string denotes the match variable

---
 parser/lexer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index eef94d5..f803bc0 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1210,12 +1210,19 @@ func (ctx *context) interpolate(start int) Expression {
 			c, _ = ctx.Peek()
 		}
 	}
-	if !isLowercaseLetter(c) {
+	var textExpr Expression
+	nameStart := start + 1
+	switch {
+	case isLowercaseLetter(c):
+		ctx.consumeQualifiedName(start, tokenVariable)
+		textExpr = ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, nameStart, ctx.Pos()-nameStart)
+	case isDecimalDigit(c) && ctx.Pos() == nameStart:
+		ctx.skipDecimalDigits()
+		textExpr = ctx.factory.Integer(ctx.integerValue(start, ctx.From(nameStart), 10), 10, ctx.locator, nameStart, ctx.Pos()-nameStart)
+	default:
 		ctx.SetPos(start)
 		panic(ctx.parseIssue(lexMalformedInterpolation))
 	}
-	ctx.consumeQualifiedName(start, tokenVariable)
-	textExpr := ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, start+1, ctx.Pos()-(start+1))
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
-- 
2.43.0


From 307e72715222d54fb993c1b6a31b9583a8d6b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 21/64] fix: a string with interpolation starts at its opening
 quote

---
 parser/lexer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index f803bc0..02bd13e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1174,7 +1174,7 @@ func (ctx *context) handleInterpolation(start int, segments []Expression, buf *b
 	buf.Reset()
 
 	if precedingString != `` {
-		segments = append(segments, ctx.factory.String(precedingString, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
+		segments = append(segments, ctx.factory.String(precedingString, ctx.locator, ctx.tokenStartPos, start-ctx.tokenStartPos))
 	}
 	segments = append(segments, ctx.interpolate(start))
 	ctx.tokenStartPos = ctx.Pos()
@@ -1270,7 +1270,8 @@ func (ctx *context) consumeDoubleQuotedString() {
 	if ctx.factory != nil {
 		segments = make([]Expression, 0, 4)
 	}
-	segments = ctx.consumeDelimitedString('"', ctx.Pos()-1, segments,
+	start := ctx.Pos() - 1
+	segments = ctx.consumeDelimitedString('"', start, segments,
 		func(buf *bytes.Buffer, ctx *context, ec rune) {
 			switch ec {
 			case '\\', '\'':
@@ -1316,14 +1317,14 @@ func (ctx *context) consumeDoubleQuotedString() {
 	} else {
 		segments = append(segments, ctx.factory.String(ctx.tokenValue.(string), ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 	}
-	firstPos := segments[0].ByteOffset()
+	ctx.tokenStartPos = start
 	if len(segments) == 1 {
 		if _, ok := segments[0].(*LiteralString); ok {
 			// Avoid turning a single string literal into a concatenated string
 			return
 		}
 	}
-	ctx.settokenValue(tokenConcatenatedString, ctx.factory.ConcatenatedString(segments, ctx.locator, firstPos, ctx.Pos()-firstPos))
+	ctx.settokenValue(tokenConcatenatedString, ctx.factory.ConcatenatedString(segments, ctx.locator, start, ctx.Pos()-start))
 }
 
 func (ctx *context) consumeSingleQuotedString() {
-- 
2.43.0


From 9a000be7fab47fa5de711def60990057f6a8c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 22/64] fix: only the end marker of a heredoc decides its
 margin and trim, and it may be empty or end with the source

---
 parser/lexer.go | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 02bd13e..dc2bb72 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1487,9 +1487,8 @@ findStartOfText:
 		}
 	}
 
-	suppressLastNL := false
 	heredocContentEnd := -1
-	heredocEnd := -1
+	resumeAt := -1
 	indentStrip := 0
 	tagLen := len(tag)
 
@@ -1504,21 +1503,14 @@ findEndOfText:
 
 		case '\n':
 			lineStart := ctx.Pos()
+			margin := 0
+			suppressLastNL := false
 			c, n = ctx.skipWhiteInLiteral()
-			switch c {
-			case 0:
-				ctx.SetPos(heredocStart)
-				panic(ctx.parseIssue(lexHeredocUnterminated))
-
-			case '|':
-				indentStrip = n - lineStart
+			if c == '|' {
+				margin = n - lineStart
 				c, n = ctx.skipWhiteInLiteral()
-				if c != '-' {
-					break
-				}
-				fallthrough
-
-			case '-':
+			}
+			if c == '-' {
 				suppressLastNL = true
 				c, n = ctx.skipWhiteInLiteral()
 			}
@@ -1532,13 +1524,14 @@ findEndOfText:
 			if tagEnd <= len(expr) && tag == expr[n:tagEnd] {
 				// tag found if rest of line is whitespace
 				ctx.SetPos(tagEnd)
-				c, n = ctx.skipWhiteInLiteral()
-				heredocEnd = n
+				c, _ = ctx.skipWhiteInLiteral()
 				if c == '\n' || c == 0 {
+					resumeAt = ctx.Pos()
+					indentStrip = margin
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					if suppressLastNL && lineStart > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
@@ -1562,8 +1555,8 @@ findEndOfText:
 			if len(heredoc) > 0 {
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 			}
-			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+			ctx.SetPos(heredocTagEnd)    // Normal parsing continues here
+			ctx.nextLineStart = resumeAt // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
@@ -1573,8 +1566,8 @@ findEndOfText:
 		heredoc = ctx.From(heredocContentStart)
 	}
 
-	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-	ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+	ctx.SetPos(heredocTagEnd)    // Normal parsing continues here
+	ctx.nextLineStart = resumeAt // and next newline will jump to here
 	if ctx.factory != nil {
 		textExpr := ctx.factory.String(heredoc, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 		ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
-- 
2.43.0


From 11d2a627c73ddac4d18bdc76d039c3534d1078b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 23/64] fix: code after a heredoc tag may contain divisions,
 and what looks like a comment in its strings is not one

---
 parser/lexer.go | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index dc2bb72..d6f3842 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1460,16 +1460,22 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n)
+			c, sz = ctx.Peek()
 
 		case '/':
-			n = ctx.Pos()
-			ctx.Advance(sz)
-			c, _ = ctx.Next()
-			if c == '*' {
-				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+			if c, _ = ctx.PeekAt(ctx.Pos() + sz); c == '*' {
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n)
+			} else {
+				ctx.Advance(sz)
 			}
+			c, sz = ctx.Peek()
+
+		case '\'', '"':
+			ctx.skipStringOnLine()
+			c, sz = ctx.Peek()
 
 		case '\n':
 			if ctx.nextLineStart >= 0 {
@@ -1576,6 +1582,30 @@ findEndOfText:
 	}
 }
 
+// skipStringOnLine skips the string that starts at the current position, up to and including its ending quote or up to
+// the end of the line if the string doesn't end there
+func (ctx *context) skipStringOnLine() {
+	delimiter, sz := ctx.Peek()
+	for {
+		ctx.Advance(sz)
+		c, n := ctx.Peek()
+		switch c {
+		case 0, '\n':
+			return
+		case '\\':
+			ctx.Advance(n)
+			c, n = ctx.Peek()
+			if c == 0 || c == '\n' {
+				return
+			}
+		case delimiter:
+			ctx.Advance(n)
+			return
+		}
+		sz = n
+	}
+}
+
 func (ctx *context) extractFlags(start int) []byte {
 	s := ctx.From(start)
 	top := len(s)
-- 
2.43.0


From dc7e1bdef4362202a75e693a23df36249fa53840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 24/64] fix: an interpolation cannot extend past the end of its
 heredoc, and a heredoc with interpolation starts at its tag

---
 parser/lexer.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d6f3842..7a87890 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1556,10 +1556,13 @@ findEndOfText:
 		if quoteStart >= 0 && ctx.factory != nil {
 			segments = make([]Expression, 0, 4)
 		}
+		ctx.tokenStartPos = heredocContentStart
 		heredoc, segments = ctx.applyEscapes(heredocContentEnd, indentStrip, flags, segments)
+		textStart := ctx.tokenStartPos
+		ctx.tokenStartPos = heredocStart
 		if len(segments) > 0 {
 			if len(heredoc) > 0 {
-				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
+				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, textStart, heredocContentEnd-textStart))
 			}
 			ctx.SetPos(heredocTagEnd)    // Normal parsing continues here
 			ctx.nextLineStart = resumeAt // and next newline will jump to here
@@ -1625,6 +1628,17 @@ func (ctx *context) extractFlags(start int) []byte {
 	return flags
 }
 
+// handleHeredocInterpolation is like handleInterpolation with the addition that the interpolation must end before
+// the given end of the heredoc text
+func (ctx *context) handleHeredocInterpolation(start, end int, segments []Expression, buf *bytes.Buffer) []Expression {
+	segments = ctx.handleInterpolation(start, segments, buf)
+	if ctx.Pos() > end {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexMalformedInterpolation))
+	}
+	return segments
+}
+
 func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpolateSegments []Expression) (heredoc string, segments []Expression) {
 	bld := bytes.NewBufferString(``)
 	segments = interpolateSegments
@@ -1632,7 +1646,7 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 	for c, start := ctx.Next(); c != 0 && start < end; c, start = ctx.Next() {
 		if c != '\\' {
 			if c == '$' && segments != nil {
-				segments = ctx.handleInterpolation(start, segments, bld)
+				segments = ctx.handleHeredocInterpolation(start, end, segments, bld)
 			} else {
 				bld.WriteRune(c)
 				if c == '\n' {
@@ -1663,7 +1677,7 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 		if !escaped {
 			bld.WriteRune('\\')
 			if c == '$' && segments != nil {
-				segments = ctx.handleInterpolation(start, segments, bld)
+				segments = ctx.handleHeredocInterpolation(start, end, segments, bld)
 			} else {
 				bld.WriteRune(c)
 				if c == '\n' {
-- 
2.43.0


From 341bc92ad24eab4fc1b69ad31683c4bd7559c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 25/64] fix: missing quote in the message about an unknown
 iteration style

---
 parser/issues.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/issues.go b/parser/issues.go
index b915c59..ebf525a 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -86,7 +86,7 @@ func init() {
 	issue.Hard(parseElsifInUnless, `elsif not supported in unless expression`)
 	issue.Hard(parseExpectedStepName, `expected %{step} name`)
 	issue.Hard(parseExpectedStepOperation, `expected one of 'delete', 'read', or 'upsert'. Got '%{operation}'`)
-	issue.Hard(parseExpectedIteratorStyle, `expected one of 'each', 'range', or 'times'. Got '%{style}`)
+	issue.Hard(parseExpectedIteratorStyle, `expected one of 'each', 'range', or 'times'. Got '%{style}'`)
 	issue.Hard(parseExpectedStepStyle, `expected one of 'action', 'resource', or 'workflow'`)
 	issue.Hard(parseExpectedAttributeName, `expected attribute name`)
 	issue.Hard(parseExpectedClassName, `expected name of class`)
-- 
2.43.0


From 48891b80821129f2668da5470200822eaecf3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 26/64] fix: only the hash is the body of a type alias with a
 parent

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 212a92e..970122d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1250,7 +1250,7 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				hash := ctx.atomExpression().(*LiteralHash)
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From 5dec31e9969b7bd7df01ffa469afcc0e5a7425cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 27/64] fix: a tree can be rendered also when a parameter has a
 qualified name

---
 pn/pn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 20c7c76..039e284 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -77,7 +77,8 @@ type (
 	}
 )
 
-var keyPattern = regexp.MustCompile(`^[A-Za-z_-][0-9A-Za-z_-]*$`)
+// keyPattern matches a name with optional namespace segments
+var keyPattern = regexp.MustCompile(`^(?:::)?[A-Za-z_-][0-9A-Za-z_-]*(?:::[0-9A-Za-z_-]+)*$`)
 
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
-- 
2.43.0


From 6e9dba821086b862ff4af616d460bbdd5525eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 28/64] fix: a hash with lists or hashes as keys is not a
 literal

---
 literal/literal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..d264a6d 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Cannot be represented as the key of a map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
-- 
2.43.0


From 7ff89943c070e8b6fa3457bd1ffb9ac436b21472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 29/64] fix: a dollar sign without a name is not a parameter

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 970122d..52f95d9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1820,7 +1820,7 @@ func (ctx *context) parameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
@@ -1864,7 +1864,7 @@ func (ctx *context) returnParameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
-- 
2.43.0


From 31f9379de87af16d4fbe51d4525f05ca41d2d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 30/64] fix: the path to the contents of a plan contains the
 plan

---
 parser/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index 15a6298..820171e 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1573,6 +1573,18 @@ func (e *ParenthesizedExpression) ToUnaryExpression() UnaryExpression {
 
 func (e *ParenthesizedExpression) ToPN() pn.PN { return pn.Call(`paren`, e.Expr().ToPN()) }
 
+func (e *PlanDefinition) AllContents(path []Expression, visitor PathVisitor) {
+	DeepVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) Contents(path []Expression, visitor PathVisitor) {
+	ShallowVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) ToDefinition() Definition {
+	return e
+}
+
 func (e *PlanDefinition) ToPN() pn.PN {
 	return e.definitionPN(`plan`, ``, e.returnType)
 }
-- 
2.43.0


From 1c3f032ad059314ce3a3938076528b5cc0fda732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 31/64] fix: the name of a parameter that cannot capture the
 rest is shown

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 475120b..5e4d862 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -667,7 +667,7 @@ func (v *basicChecker) checkNoCapture(container parser.Expression, parameters []
 	for _, parameter := range parameters {
 		if param, ok := parameter.(*parser.Parameter); ok && param.CapturesRest() {
 			v.Accept(ValidateCapturesRestNotSupported, param,
-				issue.H{`name`: param.Name(), `container`: container})
+				issue.H{`param`: param.Name(), `container`: container})
 		}
 	}
 }
-- 
2.43.0


From c79ca7e976f51b44ccbaffaec9a686865af1f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 32/64] fix: labels of lambdas, plans and parenthesized
 expressions

---
 parser/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/label.go b/parser/label.go
index 5762e09..2143c2c 100644
--- a/parser/label.go
+++ b/parser/label.go
@@ -17,6 +17,7 @@ func (e *AssignmentExpression) Label() string        { return fmt.Sprintf("'%s'
 func (e *AttributeOperation) Label() string          { return fmt.Sprintf("'%s' expression", e.operator) }
 func (e *AttributesOperation) Label() string         { return "AttributesOperation" }
 func (e *BlockExpression) Label() string             { return "Block Expression" }
+func (e *CallFunctionExpression) Label() string      { return "Function Call" }
 func (e *CallMethodExpression) Label() string        { return "Method Call" }
 func (e *CallNamedFunctionExpression) Label() string { return "Function Call" }
 func (e *CapabilityMapping) Label() string           { return "Capability Mapping" }
@@ -33,6 +34,7 @@ func (e *HostClassDefinition) Label() string         { return "Host Class Defini
 func (e *IfExpression) Label() string                { return "'if' statement" }
 func (e *InExpression) Label() string                { return "'in' expression" }
 func (e *KeyedEntry) Label() string                  { return "Hash Entry" }
+func (e *LambdaExpression) Label() string            { return "Lambda" }
 func (e *LiteralBoolean) Label() string              { return "Literal Boolean" }
 func (e *LiteralDefault) Label() string              { return "'default' expression" }
 func (e *LiteralFloat) Label() string                { return "Literal Float" }
@@ -49,6 +51,8 @@ func (e *Nop) Label() string                         { return "Nop" }
 func (e *NotExpression) Label() string               { return "'!' expression" }
 func (e *OrExpression) Label() string                { return "'or' expression" }
 func (e *Parameter) Label() string                   { return "Parameter Definition" }
+func (e *ParenthesizedExpression) Label() string     { return "Parenthesized Expression" }
+func (e *PlanDefinition) Label() string              { return "Plan Definition" }
 func (e *Program) Label() string                     { return "Program" }
 func (e *QualifiedName) Label() string               { return "Name" }
 func (e *QualifiedReference) Label() string          { return "Type-Name" }
-- 
2.43.0


From 09264df8f5db0ceb6d332d72f7627c98cb106ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 33/64] fix: a regexp or list is not a duplicate of a string
 with the same text as hash key

---
 validator/checker.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/validator/checker.go b/validator/checker.go
index 5e4d862..0f29839 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -390,14 +390,17 @@ func (v *basicChecker) checkLambdaExpression(e *parser.LambdaExpression) {
 	v.checkReturnType(e, e.ReturnType())
 }
 
+// nonScalarKey is the textual form of a hash key. It is distinct from a string with the same text
+type nonScalarKey string
+
 func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {
 	unique := make(map[interface{}]bool, len(e.Entries()))
 	for _, entry := range e.Entries() {
 		key := entry.(*parser.KeyedEntry).Key()
 		if literalKey, ok := literal.ToLiteral(key); ok {
 			switch key.(type) {
-			case *parser.LiteralList, *parser.LiteralHash:
-				literalKey = key.ToPN().String()
+			case *parser.LiteralList, *parser.LiteralHash, *parser.RegexpExpression:
+				literalKey = nonScalarKey(key.ToPN().String())
 			}
 			if _, ok = unique[literalKey]; ok {
 				v.Accept(ValidateDuplicateKey, entry, issue.H{`key`: key.String()})
-- 
2.43.0


From eac517d35e2a8726832bd74c7d4aff94ad2dc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 34/64] fix: a slash followed by text that ends with a
 backslash is not an unterminated string

---
 parser/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 7a87890..8f25438 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1043,7 +1043,8 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			ec, _ = ctx.Next()
 			switch ec {
 			case 0:
-				panic(ctx.unterminatedQuote(delimiterStart, delimiter))
+				// Dealt with in next iteration
+				continue
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-- 
2.43.0


From 2fa3a66c31098e6b8377f0fe331057a11341eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 35/64] fix: numbers in a node hostname are kept as written

---
 parser/parser.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 52f95d9..b1c87ea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/lyraproj/issue/issue"
@@ -1765,10 +1764,9 @@ func (ctx *context) dottedName() Expression {
 		switch ctx.currentToken {
 		case tokenIdentifier, tokenTypeName:
 			names = append(names, ctx.tokenString())
-		case tokenInteger:
-			names = append(names, strconv.FormatInt(ctx.tokenValue.(int64), 10))
-		case tokenFloat:
-			names = append(names, strconv.FormatFloat(ctx.tokenValue.(float64), 'g', -1, 64))
+		case tokenInteger, tokenFloat:
+			// As written. Leading or trailing zeroes are significant
+			names = append(names, ctx.From(ctx.tokenStartPos))
 		default:
 			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
 		}
-- 
2.43.0


From ec556bdb3205143cc7e6daa2a7893f0bb8b82021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 36/64] fix: all statements can be used in a template without
 parameters

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b1c87ea..29da83e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -239,7 +239,10 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 				expr = asEppLambda(ctx.factory.Block(ctx.transformCalls(expressions, 0), ctx.locator, 0, ctx.Pos()))
 				return
 			}
-			expressions = append(expressions, ctx.expression())
+			expressions = append(expressions, ctx.syntacticStatement())
+			if ctx.currentToken == tokenSemicolon {
+				ctx.nextToken()
+			}
 		}
 	}
 
-- 
2.43.0


From 9abdaf73226396fb5009d02473e46862db74fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 37/64] fix: a trimming end tag removes a CRLF line break

---
 parser/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 8f25438..626d654 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -479,6 +479,12 @@ func (ctx *context) nextToken() {
 						for c, sz = ctx.Peek(); c == ' ' || c == '\t'; c, sz = ctx.Peek() {
 							ctx.Advance(sz)
 						}
+						if c == '\r' {
+							if nl, n := ctx.PeekAt(ctx.Pos() + sz); nl == '\n' {
+								c = nl
+								sz += n
+							}
+						}
 						if c == '\n' {
 							ctx.Advance(sz)
 						}
-- 
2.43.0


From 2e9377524be06b770b2ab2e222805804d0448cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 38/64] fix: a unicode escape that denotes no character is
 malformed

---
 parser/lexer.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 626d654..b825a77 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1755,8 +1755,7 @@ func (ctx *context) appendUnicode(buf *bytes.Buffer) {
 				panic(ctx.parseIssue(lexMalformedUnicodeEscape))
 			}
 		}
-		r, _ := strconv.ParseInt(ctx.From(start), 16, 32)
-		buf.WriteRune(rune(r))
+		ctx.writeUnicode(buf, start-2, ctx.From(start))
 		return
 	}
 
@@ -1778,8 +1777,19 @@ func (ctx *context) appendUnicode(buf *bytes.Buffer) {
 		panic(ctx.parseIssue(lexMalformedUnicodeEscape))
 	}
 
-	r, _ := strconv.ParseInt(ctx.From(hexStart), 16, 32)
+	hex := ctx.From(hexStart)
 	ctx.Advance(n) // Skip terminating '}'
+	ctx.writeUnicode(buf, start-2, hex)
+}
+
+// writeUnicode writes the character with the given hexadecimal number, provided that there is such a character. The start
+// is the position of the escape sequence
+func (ctx *context) writeUnicode(buf *bytes.Buffer, start int, hex string) {
+	r, _ := strconv.ParseInt(hex, 16, 32)
+	if !utf8.ValidRune(rune(r)) {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexMalformedUnicodeEscape))
+	}
 	buf.WriteRune(rune(r))
 }
 
-- 
2.43.0


From 427383c97424a6086b78876138a58a2469401080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 39/64] fix: types and capability mappings start at their first
 token

---
 parser/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 29da83e..21195b2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -857,7 +857,7 @@ func (ctx *context) atomExpression() (expr Expression) {
 		name := ctx.tokenString()
 		ctx.nextToken()
 		if ctx.currentToken == tokenTypeName {
-			expr = ctx.typeAliasOrDefinition()
+			expr = ctx.typeAliasOrDefinition(atomStart)
 		} else {
 			// Not a type definition. Just treat the 'type' keyword as a qualified name
 			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
@@ -1229,8 +1229,7 @@ func (ctx *context) collectExpression(lhs Expression) Expression {
 	return ctx.factory.Collect(lhs, collectQuery, attributeOps, ctx.locator, lhs.ByteOffset(), ctx.Pos()-lhs.ByteOffset())
 }
 
-func (ctx *context) typeAliasOrDefinition() Expression {
-	start := ctx.tokenStartPos
+func (ctx *context) typeAliasOrDefinition(start int) Expression {
 	typeExpr := ctx.parameterType()
 	fqr, ok := typeExpr.(*QualifiedReference)
 	if !ok {
@@ -1981,7 +1980,7 @@ func (ctx *context) qualifiedName(name string) string {
 }
 
 func (ctx *context) capabilityMapping(component Expression, kind string) Expression {
-	start := ctx.tokenStartPos
+	start := component.ByteOffset()
 	ctx.nextToken()
 	capName := ctx.className()
 	ctx.assertToken(tokenLc)
-- 
2.43.0


From 35ca7f33f7fa33ff2159e4cb40acb9fb0857e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 40/64] fix: a query without expression is legal

---
 validator/checker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validator/checker.go b/validator/checker.go
index 0f29839..8e6e0d8 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -452,8 +452,8 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 }
 
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
-	if e.Expr() != nil {
-		v.checkQuery(e.Expr())
+	if q := e.Expr(); q != nil && !q.IsNop() {
+		v.checkQuery(q)
 	}
 }
 
-- 
2.43.0


From 5644398d3bad14e9ded92c076464c82448afc443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 41/64] fix: resource defaults and overrides can be without
 attributes

---
 parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 21195b2..2c6b1e2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -995,10 +995,11 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	titleStart := ctx.Pos()
 	var firstTitle Expression
 
-	// First attribute might be a * => operator or have a name that is a keyword. No
-	// attempt should be made to read it as an expression.
+	// First attribute might be a * => operator or have a name that is a keyword, or there
+	// might not be any attributes. No attempt should be made to read it as an expression.
 	switch {
 	case ctx.currentToken == tokenMultiply:
+	case ctx.currentToken == tokenRc:
 	case ctx.isKeywordAttribute():
 		ctx.setToken(tokenFarrow)
 	default:
-- 
2.43.0


From 7e29d30bbba49d4cebcf0a4f4725d825d48e7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 42/64] fix: a numbered variable in the state of a resource
 step keeps its number when deferred

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2c6b1e2..ebc3557 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1416,7 +1416,7 @@ func convertToDeferred(f ExpressionFactory, e Expression) Expression {
 		}
 	case *VariableExpression:
 		ve := e.(*VariableExpression)
-		n, _ := ve.Name()
+		n := fmt.Sprint(ve.NameOrIndex())
 		e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), f.QualifiedName(`new`, l, bo, 0), l, bo, 0),
 			[]Expression{f.String(`$`+n, l, bo, bl)}, nil, l, bo, bl)
 	}
-- 
2.43.0


From 0eb860ba7c823c276ddc921c1fb89f6a96eb8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 43/64] fix: a call of the type function in a list, hash or
 argument list can be part of an expression

---
 parser/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ebc3557..37656e3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -406,9 +406,17 @@ func (ctx *context) hashEntry() (expr Expression) {
 func (ctx *context) handleKeyword(next func() Expression) (expr Expression) {
 	switch ctx.currentToken {
 	case tokenType, tokenFunction, tokenPlan, tokenApplication, tokenConsumes, tokenProduces, tokenSite:
-		expr = ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos)
+		start := ctx.tokenStartPos
+		isType := ctx.currentToken == tokenType
+		expr = ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		if ctx.currentToken == tokenLp {
+			if isType {
+				// The call may be the first part of an expression
+				ctx.SetPos(start)
+				ctx.nextToken()
+				return next()
+			}
 			expr = ctx.callFunctionExpression(expr)
 		}
 	default:
-- 
2.43.0


From 50d9651d4cfcbc71789d1d5f7442df6068e8f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 44/64] fix: looking past the end of lambda parameters does not
 lose a heredoc that ends on the same line

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index b825a77..38ad503 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -637,7 +637,9 @@ func (ctx *context) nextToken() {
 					ctx.setToken(tokenPipeEnd)
 				} else {
 					pos := ctx.Pos()
+					nextLineStart, beginningOfLine := ctx.nextLineStart, ctx.beginningOfLine
 					n, _ := ctx.skipWhite(false)
+					ctx.nextLineStart, ctx.beginningOfLine = nextLineStart, beginningOfLine
 					ctx.SetPos(pos)
 					if n == '{' || n == '>' || ctx.eppMode && (n == '%' || n == '-') {
 						// A lambda parameter list cannot start with either of these tokens so
-- 
2.43.0


From 80825026ea3a48449c7d881cde88f70786ddb698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 45/64] fix: an interpolation can begin with a regexp
 regardless of what precedes it

---
 parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 38ad503..1ed5959 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1198,6 +1198,7 @@ func (ctx *context) interpolate(start int) Expression {
 		ctx.Advance(sz)
 
 		// Call context recursively and expect the ending token to be the ending curly brace
+		ctx.setToken(tokenLc)
 		ctx.nextToken()
 		expr := ctx.parse(tokenRc, true)
 
-- 
2.43.0


From be94915b8d81893aa433533a8fd2c2cd3ef9a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 46/64] fix: spans of variables, signed numbers, host names and
 keywords used as names do not include the next token

---
 parser/parser.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 37656e3..cd5988a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -678,7 +678,7 @@ func (ctx *context) unaryExpression() Expression {
 			ctx.nextToken()
 			ctx.negative = false
 			expr := ctx.primaryExpression()
-			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
+			expr.updateOffsetAndLength(unaryStart, expr.ByteOffset()+expr.ByteLength()-unaryStart)
 			return expr
 		}
 		ctx.nextToken()
@@ -690,7 +690,7 @@ func (ctx *context) unaryExpression() Expression {
 		if c, _ := ctx.Peek(); isDecimalDigit(c) {
 			ctx.nextToken()
 			expr := ctx.primaryExpression()
-			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
+			expr.updateOffsetAndLength(unaryStart, expr.ByteOffset()+expr.ByteLength()-unaryStart)
 			return expr
 		}
 		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: `+`}))
@@ -831,15 +831,14 @@ func (ctx *context) atomExpression() (expr Expression) {
 		ctx.nextToken()
 
 	case tokenVariable:
-		vni := ctx.tokenValue
-		ctx.nextToken()
 		var name Expression
-		if s, ok := vni.(string); ok {
+		if s, ok := ctx.tokenValue.(string); ok {
 			name = ctx.factory.QualifiedName(s, ctx.locator, atomStart+1, len(s))
 		} else {
-			name = ctx.factory.Integer(vni.(int64), 10, ctx.locator, atomStart+1, ctx.Pos()-(atomStart+1))
+			name = ctx.factory.Integer(ctx.tokenValue.(int64), 10, ctx.locator, atomStart+1, ctx.Pos()-(atomStart+1))
 		}
 		expr = ctx.factory.Variable(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
+		ctx.nextToken()
 
 	case tokenCase:
 		expr = ctx.caseExpression()
@@ -855,7 +854,7 @@ func (ctx *context) atomExpression() (expr Expression) {
 		ctx.nextToken()
 		if ctx.currentToken == tokenLc {
 			// Class resource
-			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
+			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, len(name))
 		} else {
 			expr = ctx.classExpression(atomStart)
 		}
@@ -868,7 +867,7 @@ func (ctx *context) atomExpression() (expr Expression) {
 			expr = ctx.typeAliasOrDefinition(atomStart)
 		} else {
 			// Not a type definition. Just treat the 'type' keyword as a qualified name
-			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, ctx.Pos()-atomStart)
+			expr = ctx.factory.QualifiedName(name, ctx.locator, atomStart, len(name))
 		}
 
 	case tokenPlan:
@@ -1782,9 +1781,10 @@ func (ctx *context) dottedName() Expression {
 			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
 		}
 
+		end := ctx.Pos()
 		ctx.nextToken()
 		if ctx.currentToken != tokenDot {
-			return ctx.factory.String(strings.Join(names, `.`), ctx.locator, start, ctx.Pos()-start)
+			return ctx.factory.String(strings.Join(names, `.`), ctx.locator, start, end-start)
 		}
 		ctx.nextToken()
 	}
-- 
2.43.0


From dde7b2a1d82d591630ddd1efd55d52bd5d41b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 47/64] fix: heredoc tags cannot be empty before a syntax or
 flags, nor have text next to the quotes

---
 parser/lexer.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1ed5959..1b9daf6 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -1379,6 +1380,20 @@ func (ctx *context) consumeHeredocString() {
 	start := ctx.Pos()
 	heredocStart := ctx.Pos() - 2 // Backtrack '@' and '('
 
+	// endTag assigns the tag unless it was quoted. It must be called at the first character that isn't part of the tag
+	endTag := func() {
+		if tag == `` {
+			tag = ctx.From(start)
+			if tag == `` {
+				ctx.SetPos(heredocStart)
+				panic(ctx.parseIssue(lexHeredocEmptyTag))
+			}
+		} else if syntaxStart < 0 && escapeStart < 0 && strings.TrimSpace(ctx.From(start)) != `` {
+			// Text after the quoted tag
+			panic(ctx.parseIssue(lexHeredocMultipleTag))
+		}
+	}
+
 findTagEnd:
 	for {
 		c, n = ctx.Peek()
@@ -1394,9 +1409,7 @@ findTagEnd:
 			if escapeStart > 0 {
 				flags = ctx.extractFlags(escapeStart)
 			}
-			if tag == `` {
-				tag = ctx.From(start)
-			}
+			endTag()
 			ctx.Advance(n)
 			heredocTagEnd = ctx.Pos()
 			break findTagEnd
@@ -1405,9 +1418,7 @@ findTagEnd:
 			if syntaxStart > 0 {
 				panic(ctx.parseIssue(lexHeredocMultipleSyntax))
 			}
-			if tag == `` {
-				tag = ctx.From(start)
-			}
+			endTag()
 			ctx.Advance(n)
 			syntaxStart = ctx.Pos()
 
@@ -1415,9 +1426,8 @@ findTagEnd:
 			if escapeStart > 0 {
 				panic(ctx.parseIssue(lexHeredocMultipleEscape))
 			}
-			if tag == `` {
-				tag = ctx.From(start)
-			} else if syntaxStart > 0 {
+			endTag()
+			if syntaxStart > 0 {
 				syntax = ctx.From(syntaxStart)
 				syntaxStart = -1
 			}
@@ -1425,7 +1435,7 @@ findTagEnd:
 			escapeStart = ctx.Pos()
 
 		case '"':
-			if tag != `` {
+			if tag != `` || strings.TrimSpace(ctx.From(start)) != `` {
 				panic(ctx.parseIssue(lexHeredocMultipleTag))
 			}
 			ctx.Advance(n)
@@ -1449,16 +1459,12 @@ findTagEnd:
 			}
 			tag = ctx.From(quoteStart)
 			ctx.Advance(n)
+			start = ctx.Pos()
 		default:
 			ctx.Advance(n)
 		}
 	}
 
-	if tag == `` {
-		ctx.SetPos(heredocStart)
-		panic(ctx.parseIssue(lexHeredocEmptyTag))
-	}
-
 	// Find where actual text starts
 	heredocContentStart := -1
 	c, sz := ctx.Peek()
-- 
2.43.0


From 96fe48bcca96787dbdb93a0d3f4b2378b1c0bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 48/64] fix: a token that cannot follow lambda parameters is
 reported instead of the end of the parameters

---
 parser/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index cd5988a..29f3517 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -350,13 +350,20 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 
 func (ctx *context) expressions(endToken int, producerFunc func() Expression) (exprs []Expression) {
 	exprs = make([]Expression, 0, 4)
+	atEnd := func() bool {
+		if endToken == tokenPipeEnd && ctx.currentToken == tokenPipe {
+			// The lexer doesn't recognize the end when something illegal follows it. The next token will reveal that
+			ctx.setToken(tokenPipeEnd)
+		}
+		return ctx.currentToken == endToken
+	}
 	for {
-		if ctx.currentToken == endToken {
+		if atEnd() {
 			return
 		}
 		exprs = append(exprs, producerFunc())
 		if ctx.currentToken != tokenComma {
-			if ctx.currentToken != endToken {
+			if !atEnd() {
 				ctx.SetPos(ctx.tokenStartPos)
 				panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{
 					`expected`: fmt.Sprintf(`'%s' or '%s'`, tokenMap[tokenComma], tokenMap[endToken]),
-- 
2.43.0


From 24860f67d80ea8caaee1e609ae6bdb3f7ae078b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 49/64] fix: the reported offset of an illegal character is
 right when it is found by looking ahead

---
 parser/reader.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index 1441263..38ba9f4 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -44,17 +44,13 @@ func NewStringReader(s string) StringReader {
 	return &stringReader{i: 0, text: s}
 }
 
-func (r *stringReader) parseError(message string) *parseError {
-	return &parseError{message: message, offset: r.i}
-}
-
-func (r *stringReader) invalidUnicode() *parseError {
-	return r.parseError("invalid unicode character")
+func (r *stringReader) invalidUnicode(pos int) *parseError {
+	return &parseError{message: "invalid unicode character", offset: pos}
 }
 
 // A null character in the text cannot be told from the end of the text
-func (r *stringReader) illegalNull() *parseError {
-	return r.parseError("illegal null character")
+func (r *stringReader) illegalNull(pos int) *parseError {
+	return &parseError{message: "illegal null character", offset: pos}
 }
 
 func (r *stringReader) Next() (c rune, start int) {
@@ -64,7 +60,7 @@ func (r *stringReader) Next() (c rune, start int) {
 	}
 	c = rune(r.text[r.i])
 	if c == 0 {
-		panic(r.illegalNull())
+		panic(r.illegalNull(r.i))
 	}
 	if c < utf8.RuneSelf {
 		r.i++
@@ -72,7 +68,7 @@ func (r *stringReader) Next() (c rune, start int) {
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
 	if c == utf8.RuneError && size == 1 {
-		panic(r.invalidUnicode())
+		panic(r.invalidUnicode(r.i))
 	}
 	r.i += size
 	return
@@ -84,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 	}
 	c = rune(r.text[r.i])
 	if c == 0 {
-		panic(r.illegalNull())
+		panic(r.illegalNull(r.i))
 	}
 	if c < utf8.RuneSelf {
 		size = 1
@@ -92,7 +88,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
 	if c == utf8.RuneError && size == 1 {
-		panic(r.invalidUnicode())
+		panic(r.invalidUnicode(r.i))
 	}
 	return c, size
 }
@@ -103,7 +99,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 	}
 	c = rune(r.text[pos])
 	if c == 0 {
-		panic(r.illegalNull())
+		panic(r.illegalNull(pos))
 	}
 	if c < utf8.RuneSelf {
 		size = 1
@@ -111,7 +107,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
 	if c == utf8.RuneError && size == 1 {
-		panic(r.invalidUnicode())
+		panic(r.invalidUnicode(pos))
 	}
 	return c, size
 }
-- 
2.43.0


From 5f6667c0e776b02e22282406f28d8948fc18dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 50/64] fix: the time to parse nested statement calls with
 hashes is not exponential to their depth

---
 parser/parser.go | 125 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 105 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 29f3517..a2f5d0e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -364,10 +364,7 @@ func (ctx *context) expressions(endToken int, producerFunc func() Expression) (e
 		exprs = append(exprs, producerFunc())
 		if ctx.currentToken != tokenComma {
 			if !atEnd() {
-				ctx.SetPos(ctx.tokenStartPos)
-				panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{
-					`expected`: fmt.Sprintf(`'%s' or '%s'`, tokenMap[tokenComma], tokenMap[endToken]),
-					`actual`:   tokenMap[ctx.currentToken]}))
+				ctx.unexpectedInList(endToken)
 			}
 			return
 		}
@@ -375,6 +372,13 @@ func (ctx *context) expressions(endToken int, producerFunc func() Expression) (e
 	}
 }
 
+func (ctx *context) unexpectedInList(endToken int) {
+	ctx.SetPos(ctx.tokenStartPos)
+	panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{
+		`expected`: fmt.Sprintf(`'%s' or '%s'`, tokenMap[tokenComma], tokenMap[endToken]),
+		`actual`:   tokenMap[ctx.currentToken]}))
+}
+
 func (ctx *context) syntacticStatement() (expr Expression) {
 	var args []Expression
 	expr = ctx.relationship()
@@ -433,7 +437,11 @@ func (ctx *context) handleKeyword(next func() Expression) (expr Expression) {
 }
 
 func (ctx *context) relationship() (expr Expression) {
-	expr = ctx.assignment()
+	return ctx.relationshipFrom(ctx.assignment())
+}
+
+// relationshipFrom continues the parsing of a relationship when its first operand has been parsed
+func (ctx *context) relationshipFrom(expr Expression) Expression {
 	for {
 		switch ctx.currentToken {
 		case tokenInEdge, tokenInEdgeSub, tokenOutEdge, tokenOutEdgeSub:
@@ -447,7 +455,11 @@ func (ctx *context) relationship() (expr Expression) {
 }
 
 func (ctx *context) assignment() (expr Expression) {
-	expr = ctx.step()
+	return ctx.assignmentFrom(ctx.step())
+}
+
+// assignmentFrom continues the parsing of an assignment when its left hand side has been parsed
+func (ctx *context) assignmentFrom(expr Expression) Expression {
 	for {
 		switch ctx.currentToken {
 		case tokenAssign, tokenAddAssign, tokenSubtractAssign:
@@ -462,7 +474,11 @@ func (ctx *context) assignment() (expr Expression) {
 
 func (ctx *context) step() (expr Expression) {
 	start := ctx.tokenStartPos
-	expr = ctx.resource()
+	return ctx.stepFrom(start, ctx.resource())
+}
+
+// stepFrom continues the parsing of a step when the expression that can be its style has been parsed
+func (ctx *context) stepFrom(start int, expr Expression) Expression {
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
@@ -477,15 +493,19 @@ func (ctx *context) step() (expr Expression) {
 			}
 		}
 	}
-	return
+	return expr
 }
 
 func (ctx *context) resource() (expr Expression) {
-	expr = ctx.expression()
+	return ctx.resourceFrom(ctx.expression())
+}
+
+// resourceFrom continues the parsing of a resource when the expression that can be its type has been parsed
+func (ctx *context) resourceFrom(expr Expression) Expression {
 	if ctx.currentToken == tokenLc {
 		expr = ctx.resourceExpression(expr.ByteOffset(), expr, REGULAR)
 	}
-	return
+	return expr
 }
 
 func (ctx *context) expression() (expr Expression) {
@@ -663,7 +683,11 @@ func (ctx *context) arrayExpression() (elements []Expression) {
 }
 
 func (ctx *context) keyedEntry() Expression {
-	key := ctx.hashEntry()
+	return ctx.keyedEntryFrom(ctx.hashEntry())
+}
+
+// keyedEntryFrom continues the parsing of a keyed entry when its key has been parsed
+func (ctx *context) keyedEntryFrom(key Expression) Expression {
 	if ctx.currentToken != tokenFarrow {
 		panic(ctx.parseIssue(parseExpectedFarrowAfterKey))
 	}
@@ -676,6 +700,20 @@ func (ctx *context) hashExpression() (entries []Expression) {
 	return ctx.expressions(tokenRc, ctx.keyedEntry)
 }
 
+// hashExpressionFrom continues the parsing of the entries of a hash when the first key has been parsed
+func (ctx *context) hashExpressionFrom(key Expression) (entries []Expression) {
+	entries = append(entries, ctx.keyedEntryFrom(key))
+	switch ctx.currentToken {
+	case tokenComma:
+		ctx.nextToken()
+		entries = append(entries, ctx.hashExpression()...)
+	case tokenRc:
+	default:
+		ctx.unexpectedInList(tokenRc)
+	}
+	return
+}
+
 func (ctx *context) unaryExpression() Expression {
 	unaryStart := ctx.tokenStartPos
 	switch ctx.currentToken {
@@ -1007,6 +1045,8 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	definitionCount := len(ctx.definitions)
 	ctx.nextToken()
 	titleStart := ctx.Pos()
+	titleTokenStart := ctx.tokenStartPos
+	isKey := false
 	var firstTitle Expression
 
 	// First attribute might be a * => operator or have a name that is a keyword, or there
@@ -1017,10 +1057,18 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	case ctx.isKeywordAttribute():
 		ctx.setToken(tokenFarrow)
 	default:
+		isKey = !ctx.isNameKeyword()
 		firstTitle = ctx.expression()
 	}
 
 	if ctx.currentToken != tokenColon {
+		if isKey && ctx.isStatementCall(first) {
+			// The call of a function with a hash. What was read so far is the start of the first key. It cannot be read
+			// again since that would make the time exponential to the depth of nested calls
+			key := ctx.relationshipFrom(ctx.assignmentFrom(ctx.stepFrom(titleTokenStart, ctx.resourceFrom(firstTitle))))
+			return ctx.callWithHash(start, first, ctx.hashExpressionFrom(key), braceStart)
+		}
+
 		// Resource body without title. What was read will be read again
 		ctx.SetPos(titleStart)
 		ctx.nextLineStart = nextLineStart
@@ -1034,16 +1082,12 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			name := ``
 			if ok {
 				name = fqn.name
-				if _, ok := statementCalls[name]; ok {
+				if ctx.isStatementCall(first) {
 					// Handle the call here and set lexer position to where the next expression (the one starting
 					// with a curly brace) starts.
-					args := make([]Expression, 1)
 					ctx.SetPos(bodiesStart)
 					ctx.nextToken()
-					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, braceStart, ctx.Pos()-braceStart)
-					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
-					ctx.nextToken()
-					return
+					return ctx.callWithHash(start, first, ctx.hashExpression(), braceStart)
 				}
 			}
 			ctx.SetPos(start)
@@ -1072,16 +1116,57 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	return
 }
 
+func (ctx *context) isStatementCall(expr Expression) bool {
+	qn, ok := expr.(*QualifiedName)
+	if ok {
+		_, ok = statementCalls[qn.name]
+	}
+	return ok
+}
+
+// callWithHash returns a statement call with a hash argument that ends with the current token
+func (ctx *context) callWithHash(start int, functor Expression, entries []Expression, braceStart int) Expression {
+	args := []Expression{ctx.factory.Hash(entries, ctx.locator, braceStart, ctx.Pos()-braceStart)}
+	expr := ctx.factory.CallNamed(functor, true, args, nil, ctx.locator, start, ctx.Pos()-start)
+	ctx.nextToken()
+	return expr
+}
+
 // isKeywordAttribute returns true if the current token is a keyword that is followed by an arrow
 func (ctx *context) isKeywordAttribute() bool {
 	if _, ok := ctx.keyword(); !ok {
 		return false
 	}
+	c := ctx.lookAhead()
+	if c == '=' || c == '+' {
+		saved := *ctx
+		ctx.nextToken()
+		isName := ctx.currentToken == tokenFarrow || ctx.currentToken == tokenParrow
+		*ctx = saved
+		return isName
+	}
+	return false
+}
+
+// isNameKeyword returns true if the current token is a keyword that is a name when it is the first token of a hash key
+func (ctx *context) isNameKeyword() bool {
+	switch ctx.currentToken {
+	case tokenType:
+		// Not a name when it is called
+		return ctx.lookAhead() != '('
+	case tokenFunction, tokenPlan, tokenApplication, tokenConsumes, tokenProduces, tokenSite:
+		return true
+	default:
+		return false
+	}
+}
+
+// lookAhead returns the first character of the next token
+func (ctx *context) lookAhead() rune {
 	saved := *ctx
-	ctx.nextToken()
-	isName := ctx.currentToken == tokenFarrow || ctx.currentToken == tokenParrow
+	c, _ := ctx.skipWhite(false)
 	*ctx = saved
-	return isName
+	return c
 }
 
 func (ctx *context) resourceShape(expr Expression) string {
-- 
2.43.0


From a69a5f251cfef952a331112ac5f475c1d6ff9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 51/64] fix: a virtual statement call is not accepted

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a2f5d0e..33532d3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1062,7 +1062,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	}
 
 	if ctx.currentToken != tokenColon {
-		if isKey && ctx.isStatementCall(first) {
+		if isKey && form == REGULAR && ctx.isStatementCall(first) {
 			// The call of a function with a hash. What was read so far is the start of the first key. It cannot be read
 			// again since that would make the time exponential to the depth of nested calls
 			key := ctx.relationshipFrom(ctx.assignmentFrom(ctx.stepFrom(titleTokenStart, ctx.resourceFrom(firstTitle))))
@@ -1082,7 +1082,7 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			name := ``
 			if ok {
 				name = fqn.name
-				if ctx.isStatementCall(first) {
+				if form == REGULAR && ctx.isStatementCall(first) {
 					// Handle the call here and set lexer position to where the next expression (the one starting
 					// with a curly brace) starts.
 					ctx.SetPos(bodiesStart)
-- 
2.43.0


From 21c1617f77b87037e00e469126822f35549afc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 52/64] fix: a numbered variable cannot name an iteration and
 is rejected without panic

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 33532d3..a2f5733 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1574,7 +1574,10 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
-		iterName = ctx.tokenString()
+		var ok bool
+		if iterName, ok = ctx.tokenValue.(string); !ok || iterName == `` {
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
 		ctx.nextToken()
-- 
2.43.0


From ae23ea575c19469ac9c87fd25199c691c7a5e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 53/64] fix: extraneous commas between statements are rejected
 also when the block ends with a statement call

---
 parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a2f5733..b1202ed 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -318,7 +318,8 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			result = append(result, cn)
 			idx++
 			if idx == top {
-				return
+				memo = nil
+				break
 			}
 			memo = exprs[idx]
 		} else {
@@ -332,7 +333,9 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 	if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
 		cnFunc.rvalRequired = false
 	}
-	result = append(result, memo)
+	if memo != nil {
+		result = append(result, memo)
+	}
 	for _, ex := range result {
 		if csl, ok := ex.(*commaSeparatedList); ok {
 			// This happens when a block contains extraneous commas between statements. The
-- 
2.43.0


From f82c0060bd2e5ef177cf603a6b468e4ab3637232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 54/64] fix: EPP text is not joined with the code that follows
 it

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index b1202ed..e3513a8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -383,6 +383,10 @@ func (ctx *context) unexpectedInList(endToken int) {
 }
 
 func (ctx *context) syntacticStatement() (expr Expression) {
+	if ctx.currentToken == tokenRenderString {
+		// EPP text is complete. It's never an operand of the code that follows it
+		return ctx.atomExpression()
+	}
 	var args []Expression
 	expr = ctx.relationship()
 	for ctx.currentToken == tokenComma {
-- 
2.43.0


From 2dc1b3c58c27482cafece736f7599c00685c2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 55/64] fix: EPP text is not scanned as code when a parenthesis
 follows it

---
 parser/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1b9daf6..a9e7659 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -606,11 +606,14 @@ func (ctx *context) nextToken() {
 					switch c {
 					case '=':
 						ctx.Advance(sz)
+						ctx.beginningOfLine = ctx.Pos()
 						ctx.setToken(tokenRenderExpr)
 					case '-':
 						ctx.Advance(sz)
+						ctx.beginningOfLine = ctx.Pos()
 						ctx.nextToken()
 					default:
+						ctx.beginningOfLine = ctx.Pos()
 						ctx.nextToken()
 					}
 					break
-- 
2.43.0


From 2cc63a4d959af47e84f581e526ddd25f440a1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 56/64] fix: The code of an issue is a string in its PN form

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 039e284..3181fa4 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -83,7 +83,7 @@ var keyPattern = regexp.MustCompile(`^(?:::)?[A-Za-z_-][0-9A-Za-z_-]*(?:::[0-9A-
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
 	return Map([]Entry{
-		Literal(ri.Code()).WithName(`code`),
+		Literal(string(ri.Code())).WithName(`code`),
 		Literal(ri.Severity().String()).WithName(`severity`),
 		Literal(ri.Error()).WithName(`message`)})
 }
-- 
2.43.0


From 53ad9f3445aa731e6a2ebedb28ed9f3245702b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 57/64] fix: An illegal heredoc escape flag is reported as the
 character it is

---
 parser/lexer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index a9e7659..418362b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1630,13 +1630,11 @@ func (ctx *context) skipStringOnLine() {
 
 func (ctx *context) extractFlags(start int) []byte {
 	s := ctx.From(start)
-	top := len(s)
-	flags := make([]byte, top)
-	for idx := 0; idx < top; idx++ {
-		flag := s[idx]
+	flags := make([]byte, len(s))
+	for idx, flag := range s {
 		switch flag {
 		case 't', 'r', 'n', 's', 'u', '$':
-			flags[idx] = flag
+			flags[idx] = byte(flag)
 		case 'L':
 			flags[idx] = '\n'
 		default:
-- 
2.43.0


From 88d8a88d65ac9f92ae60a70db8eeb284fbf4dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 58/64] fix: Text that a string on a line with a heredoc has
 spanned is not read twice

---
 parser/lexer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 418362b..630ed48 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -775,7 +775,9 @@ func (ctx *context) skipWhite(breakOnNewLine bool) (c rune, start int) {
 				return
 			}
 			if ctx.nextLineStart >= 0 {
-				ctx.SetPos(ctx.nextLineStart)
+				if ctx.nextLineStart > ctx.Pos() { // not when a string spanned the heredoc text
+					ctx.SetPos(ctx.nextLineStart)
+				}
 				ctx.nextLineStart = -1
 			}
 			if commentStart == '#' {
@@ -1497,12 +1499,12 @@ findStartOfText:
 			c, sz = ctx.Peek()
 
 		case '\n':
-			if ctx.nextLineStart >= 0 {
+			if ctx.nextLineStart > ctx.Pos() {
 				ctx.SetPos(ctx.nextLineStart)
-				ctx.nextLineStart = -1
 			} else {
 				ctx.Advance(sz)
 			}
+			ctx.nextLineStart = -1
 			heredocContentStart = ctx.Pos()
 			break findStartOfText
 
-- 
2.43.0


From 34487f36066c02794a874b6696c097b37a0b243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 59/64] fix: A case option without values is rejected

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index e3513a8..68fefc7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1036,6 +1036,11 @@ func (ctx *context) caseOptions() (exprs []Expression) {
 
 func (ctx *context) caseOption() Expression {
 	start := ctx.tokenStartPos
+	if ctx.currentToken == tokenColon {
+		// There must be something to compare with
+		ctx.SetPos(start)
+		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: tokenMap[tokenColon]}))
+	}
 	expressions := ctx.expressions(tokenColon, ctx.expression)
 	ctx.nextToken()
 	ctx.assertToken(tokenLc)
-- 
2.43.0


From 13d783d0341c607861ade5ac48a9c1dfb4057d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 60/64] fix: The first key of a hash given to a statement call
 can be a call of a function named as a keyword

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 68fefc7..819c298 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1068,6 +1068,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	case ctx.currentToken == tokenRc:
 	case ctx.isKeywordAttribute():
 		ctx.setToken(tokenFarrow)
+	case form == REGULAR && ctx.isNameKeyword() && ctx.lookAhead() == '(' && ctx.isStatementCall(first):
+		// The call of a function with a hash where the first key starts with the call of a function named as a keyword
+		return ctx.callWithHash(start, first, ctx.hashExpression(), braceStart)
 	default:
 		isKey = !ctx.isNameKeyword()
 		firstTitle = ctx.expression()
-- 
2.43.0


From e76de1e182c2868f2375d039675be664992187c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 61/64] fix: A validator that is built on AbstractValidator can
 demote issues

---
 validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/validator/validator.go b/validator/validator.go
index 574b75a..cfeb047 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -81,6 +81,9 @@ func (v *AbstractValidator) Demote(code issue.Code, severity issue.Severity) {
 	if !i.IsDemotable() {
 		panic(fmt.Sprintf(`Attempt to demote the hard issue '%s' to %s`, code, severity.String()))
 	}
+	if v.severities == nil {
+		v.severities = make(map[issue.Code]issue.Severity, 5)
+	}
 	v.severities[code] = severity
 }
 
-- 
2.43.0


From 2268097661755876399787be321f154187127e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:00 +0000
Subject: [PATCH 62/64] fix: An EPP template without a parameter list does not
 claim to have one

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 819c298..e83deb8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -208,7 +208,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 			if _, ok := e.(*BlockExpression); !ok {
 				e = ctx.factory.Block([]Expression{e}, ctx.locator, 0, ctx.Pos())
 			}
-			return ctx.factory.EppExpression([]Expression{}, e, ctx.locator, 0, ctx.Pos())
+			return ctx.factory.EppExpression(nil, e, ctx.locator, 0, ctx.Pos())
 		}
 
 		if ctx.currentToken == tokenEnd {
-- 
2.43.0


From 799a20705b3ad49137f7d5f66ebef2a29260ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:31 +0000
Subject: [PATCH 63/64] fix: A type name and a rendered text are themselves
 when seen as literal values

---
 parser/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index 820171e..d5a5ff4 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1645,6 +1645,10 @@ func (e *QualifiedReference) Name() string {
 	return e.name
 }
 
+func (e *QualifiedReference) ToLiteralValue() LiteralValue {
+	return e
+}
+
 func (e *QualifiedReference) WithName(name string) *QualifiedReference {
 	rn := &QualifiedReference{}
 	*rn = *e
@@ -1711,6 +1715,10 @@ func (e *RenderStringExpression) Contents(path []Expression, visitor PathVisitor
 	ShallowVisit(e, path, visitor)
 }
 
+func (e *RenderStringExpression) ToLiteralValue() LiteralValue {
+	return e
+}
+
 func (e *RenderStringExpression) ToPN() pn.PN { return pn.Literal(e.Value()).AsCall(`render-s`) }
 
 func (e *ReservedWord) AllContents(path []Expression, visitor PathVisitor) {
-- 
2.43.0


From 7ef260793f91676a892d7b6a9c470baf4cab49a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:22 +0000
Subject: [PATCH 64/64] fix: The title of the last resource body needs its
 colon

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e83deb8..998bf60 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1202,15 +1202,16 @@ func (ctx *context) resourceShape(expr Expression) string {
 
 func (ctx *context) resourceBodies(title Expression) (result []Expression) {
 	result = make([]Expression, 0, 1)
-	for ctx.currentToken != tokenRc {
+	for {
 		result = append(result, ctx.resourceBody(title))
 		if ctx.currentToken != tokenSemicolon {
 			break
 		}
 		ctx.nextToken()
-		if ctx.currentToken != tokenRc {
-			title = ctx.expression()
+		if ctx.currentToken == tokenRc {
+			break
 		}
+		title = ctx.expression()
 	}
 	return
 }
-- 
2.43.0

