#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [])))
LX, PS, EX, RD, WF, FA = ('parser/lexer.go', 'parser/parser.go', 'parser/expression.go', 'parser/reader.go', 'parser/workflow.go', 'parser/factory.go')
CK, VA, TC, WC = ('validator/checker.go', 'validator/validator.go', 'validator/tasks_checker.go', 'validator/workflow_checker.go')

prop('C01', 'Any source is parsed or rejected with a located error; nothing crashes or hangs',
 "For every byte sequence and every combination of parser options, parsing terminates and either returns an expression or returns an error value; it never panics, loops or exhausts the stack on moderately nested input. When an expression is returned, rendering it as PN text, as data and as JSON, asking each node for its text and position, walking it, converting it to a literal and validating it with every validator also complete without panicking. When an error is returned, formatting it and asking for its location succeed, and the location lies inside the source (for text that is not valid UTF-8 or has null characters it may be given as a byte offset).",
 ['inputs', 'configurations'], 'all byte strings (random bytes, mutated and truncated programs, token soup) x all option subsets x single/whole-program mode',
 'The tests feed a few hundred hand-written, almost always well-formed sources; no test feeds mutated or invalid input to the renderers and validators.',
 [LX, PS, RD, EX, 'pn/pn.go', 'literal/literal.go', CK],
 [('recover in parseTopExpression', PS), ('stringReader.Next/Peek', RD), ('Locator', EX)], ['ExpressionParser.Parse', 'Expression.ToPN', 'validator.ValidatePuppet'])

prop('C02', 'Source text written from a syntax tree parses back to exactly that tree',
 "For every well-formed program, the parsed tree is exactly the one the Puppet grammar assigns to the text: every construct (expressions, resources, collectors, conditionals, lambdas, definitions) appears once, in source order, with its operands, names, titles, attributes, parameters, types and defaults in their own roles. Operator precedence and associativity follow the language table, and parentheses override it. Parsing in single-expression mode gives the same tree for an expression as parsing it as a whole program.",
 ['programs'], 'all programs the generator can build from the grammar, to bounded depth and width',
 'Each test samples one construct in isolation with fixed operands; combinations of constructs, optional parts and operator mixes are unbounded.',
 [PS, EX, FA, LX], [('recursive descent levels', PS), ('ToPN methods', EX)], ['ExpressionParser.Parse', 'Expression.ToPN'])

prop('C03', 'Numeric literals keep their exact value and radix',
 "Every decimal, octal, hexadecimal and floating point literal in a program yields exactly the number that is written, with the radix it was written in, wherever it occurs and whatever operator or sign precedes or follows it. A leading minus directly before a number negates the number itself, and an integer outside 64 bits or a float that overflows is reported as an error and is never silently replaced by another value. Malformed numbers are rejected.",
 ['inputs'], 'all integers of 64 bits in three radixes, all finite floats, all number spellings, in all operator contexts; out-of-range and malformed spellings',
 'Tests sample a dozen numbers, none near the range limits or glued to signs.', [LX, PS, EX],
 [('nextToken number cases', LX), ('consumeFloat', LX), ('unaryExpression', PS), ('LiteralInteger.ToPN', EX)], ['LiteralInteger.Int', 'LiteralFloat.Float'])

prop('C04', 'Quoted strings and regexps denote exactly the characters that were written',
 "For every text, writing it as a single-quoted string, a double-quoted string using any mix of the documented escapes, a backtick string (when enabled) or a regexp literal and parsing that gives back exactly that text. Unrecognized escapes stay literally in the value, in single quotes only the quote and the backslash can be escaped, and malformed unicode or (when enabled) hex escapes are rejected. A slash is read as division after an operand and as a regexp elsewhere.",
 ['inputs', 'configurations'], 'all unicode texts x all ways to spell each character x options for backtick strings and hex escapes',
 'Tests cover each escape once in a fixed string.', [LX], [('consumeDelimitedString', LX), ('consumeDoubleQuotedString', LX), ('appendUnicode', LX), ('isRegexpAcceptable', LX)], ['LiteralString.StringValue', 'RegexpExpression.PatternString'])

prop('C05', 'Heredocs deliver exactly their body text after margin, trim and escapes',
 "For every heredoc, the value is its body lines with the margin removed from each line that has it, the escapes its flags enable applied (all others kept literally) and the final line break removed exactly when the end marker has a dash; the syntax name is kept. Code after the tag on the same line continues normally, several heredocs on one line take consecutive bodies, and parsing resumes on the line after the last end marker. Lines that merely look like an end marker or begin with a bar or dash are ordinary text; malformed tags and unknown flags are rejected.",
 ['inputs', 'programs'], 'all bodies, tags, margins, flags, syntax names, trailing code and numbers of heredocs on a line, LF and CRLF',
 'Tests sample about twenty heredocs; body content interacts with margin, marker and flag handling in ways no finite sample settles.', [LX], [('consumeHeredocString', LX), ('applyEscapes', LX), ('stripIndent', LX), ('nextLineStart in skipWhite', LX)], ['HeredocExpression.Text', 'HeredocExpression.Syntax'])

prop('C06', 'Interpolation splits a string into exactly its text and expression parts',
 "In double-quoted strings and interpolating heredocs, every $name and ${expression} becomes an expression part and all other characters become text parts, in order, with no character lost, duplicated or moved. The expression in braces parses as it would outside the string, also when it contains braces, strings or nested interpolation, except that a leading bare name (also as the base of accesses and method calls) denotes the variable of that name. An escaped dollar sign is plain text.",
 ['inputs', 'programs'], 'all sequences of text and expression parts, nested to bounded depth, in strings and heredocs',
 'Tests sample a few short interpolations.', [LX, PS], [('handleInterpolation', LX), ('interpolate', LX), ('convertNamedAccessLHS', LX)], ['ConcatenatedString.Segments', 'TextExpression.Expr'])

prop('C07', 'Layout and comments never change the meaning of a program',
 "Between any two tokens, the amount and kind of white space (blanks, tabs, line breaks, CRLF) and comments can change freely without changing the tree, with only the documented exceptions: white space before an opening bracket makes it a list instead of an access, and an opening parenthesis that is first on its line does not continue a call. Trailing separators that the grammar allows do not change the tree either. Both exceptions hold equally for the first and for later statements, at the top and in nested blocks.",
 ['programs'], 'all pairs of layouts of the same token sequence',
 'Tests use one layout per program.', [LX, PS], [('skipWhite', LX), ('beginningOfLine', LX), ('expressions', PS)], ['Expression.ToPN'])

prop('C08', 'Every tree node knows where it came from',
 "For every node of a parsed program the byte offset is where its first token starts in the source, line and column are those of that offset (counting characters, from 1), the file is the one given, and the span lies within the source. A node's span covers the spans of its parts and ends no later than the token that follows the node, and for literals and names the span's text is exactly the text of the token (heredocs, whose text lies elsewhere, and variables named by ${name} excepted). Offsets are right after multi-byte characters, comments, strings with line breaks and heredocs.",
 ['programs', 'inputs'], 'all programs x layouts; all offsets of all sources for line and column',
 'Tests check a handful of positions, through error messages only.', [EX, LX, PS], [('Positioned', EX), ('Locator.LineForOffset/PosOnLine', EX), ('tokenStartPos', LX)], ['Expression.ByteOffset', 'Expression.Line', 'Expression.Pos', 'Expression.String'])

prop('C09', 'Syntax errors are reported at the place of the offending text',
 "When a well-formed program is broken by one unacceptable token, the error lies at that token: complaints that a token is unexpected, or not one of the expected, are at the exact line and column where it starts, and the others (about what should have come instead, or a resource without a proper title) from the start of what they complain about to the end of the token, whatever precedes it (multi-byte text, comments, heredocs) and whatever follows. Unterminated strings, comments and heredocs are reported at the place where they start. The reported file is the one given to the parser, also when the error lies inside a string interpolation.",
 ['programs', 'fault_sequences'], 'all programs x positions x kinds of injected fault',
 'Tests pin about sixty error messages, nearly all on one-line sources at column under 20.', [LX, PS], [('parseIssue', LX), ('assertToken', PS), ('unterminatedQuote', LX)], ['issue.Reported.Location'])

prop('C10', 'The whole source is consumed; malformed or truncated input is never accepted',
 "Parsing succeeds only if the whole text was accounted for: a well-formed program followed or interrupted by text that cannot continue it is rejected, and so is every proper prefix that ends inside a bracket, block, string, comment, heredoc or after an operator. Nothing after a null character or any other unusual character is silently ignored.",
 ['programs', 'inputs'], 'all well-formed programs x deletions, insertions of a stray token and truncations known to make them ill-formed',
 'Negative tests are a list of about sixty fixed sources.', [LX, PS, RD], [('assertToken(tokenEnd)', PS), ('expressions', PS), ('stringReader end of text', RD)], ['ExpressionParser.Parse'])

prop('C11', 'A parser instance has no memory: results depend only on the current source',
 "Parsing the same source gives the same tree, positions, definitions and error no matter what the same parser instance parsed before, including sources that failed at any point, other file names and single-expression parses. A tree returned earlier is not changed by later parses. Independent parser instances used at the same time do not influence each other, and reading a tree from several threads at once is safe.",
 ['histories', 'schedules'], 'all sequences of parses (succeeding and failing) on one instance; concurrent use of separate instances and shared finished trees',
 'Every test creates a fresh parser and uses it once, in one thread.', [PS, LX, EX], [('Parse resets the context', PS), ('nameStack', PS), ('Locator line index', EX)], ['ExpressionParser.Parse'])

prop('C12', 'PN text, PN data and JSON are faithful, unambiguous and agree',
 "For every PN value and every tree (of valid UTF-8 text), the text form can be read back to exactly the same value (kinds, order, names, keys and literals; floats to sixteen digits), so two different values never print the same text. The data form carries the same value in the documented mapping, and the JSON text decodes to the same data. Converting a PN to a call, a parameter list or a named entry keeps all its elements in order, without changing the original, and a map refuses a key that its text could not show.",
 ['inputs', 'programs'], 'all PN values to bounded depth, all strings and numbers, all trees of generated programs',
 'Tests compare a fixed set of texts and one JSON document.', ['pn/pn.go', 'pn/quote.go', 'json/json.go', EX], [('Format', 'pn/pn.go'), ('ToData', 'pn/pn.go'), ('DoubleQuote', 'pn/quote.go'), ('ToJson', 'json/json.go')], ['PN.Format', 'PN.ToData'])

prop('C13', 'Traversal visits every part of a tree exactly once, with its true path',
 "Walking all contents of any tree reaches every sub-expression it holds exactly once, parents before children, each with the chain of its actual ancestors; walking direct contents gives exactly the direct parts, with the same path. What is reached is independent of which construct a part sits in: conditions, bodies, titles, attributes, defaults, types, keys, lambdas, parents and interpolations are all visited. The walk does not change the tree.",
 ['programs'], 'all node kinds in all nestings the generator builds, compared with the full set of expressions each node holds',
 'No test walks a tree directly; validator tests reach a few node kinds.', [EX, WF], [('AllContents/Contents per node type', EX), ('deepVisit/shallowVisit', EX)], ['Expression.AllContents', 'Expression.Contents'])

prop('C14', 'The validator reports exactly the violations a program contains',
 "For every parsable program, validation reports each breach of the language rules it checks (assignment targets, names, types, top-level placement, idempotent expressions, duplicate keys and parameters, future reserved words, literals in parameters, selectors and cases, and so on) with the right code at the line and column of the offending part, wherever in the program it sits. It reports nothing for programs that keep the rules. Validation does not depend on the surroundings of a part beyond the containers the rules mention.",
 ['programs'], 'all generated programs, valid by construction or with rule breaches at arbitrary places, against an independently written rule checker',
 'Tests plant each breach once, in a minimal program.', [CK, VA], [('basicChecker.check_*', CK), ('Validate walks AllContents', VA)], ['Validator.Issues'])

prop('C15', 'Strictness only changes the severity of soft issues, monotonically',
 "For every program, the issues reported at different strictness levels differ only in the soft ones: switched off they are absent, as warnings they have warning severity and as errors they have error severity, all with the same code and location. All other issues are identical at every level. Deprecations stay deprecations at every level, and a level is known by its name in any letter case and by no other name.",
 ['programs', 'configurations'], 'all programs x three strictness levels x three rule sets',
 'Tests run the validator almost only at the strictest level.', [VA, CK], [('Demote', CK), ('Accept', VA), ('Strict', VA)], ['Validator.Issues', 'issue.Reported.Severity'])

prop('C16', 'Task and workflow validation reject exactly what the base rules do not cover',
 "For every program, validation for tasks reports every catalog operation (classes, nodes, resources, defaults, overrides, collectors, definitions, sites, applications, capability mappings) at its own location and otherwise exactly what the base rules report for the other parts; validation for workflows does the same but accepts workflow steps, which the other two reject. Each offending part is reported once. Virtual and exported resources are catalog operations like any other.",
 ['programs', 'configurations'], 'all programs with catalog operations and steps at arbitrary places x three rule sets',
 'Two short tests cover the task and workflow rule sets.', [TC, WC, CK], [('tasksChecker overrides', TC), ('workflowChecker', WC)], ['ValidateTasks', 'ValidateWorkflow'])

prop('C17', 'EPP templates keep every text character and every code section in order',
 "For every template, text outside tags is rendered verbatim and in order, with the doubled tag escapes reduced, comments removed and exactly the white space removed that the trimming markers ask for (blanks and tabs before `<%-`, blanks, tabs and one line break after `-%>`). Code between tags that is complete where the text begins parses as the same code would in a plain program, expression tags render their expression, and text inside blocks, conditionals and lambdas opened in one tag and closed in another belongs to those blocks. Parameters are accepted only at the start, and the tree tells whether a list of them was given.",
 ['inputs', 'programs'], 'all sequences of text, code, expression and comment sections with all trim variants, including blocks that span sections',
 'Tests sample about fifteen templates.', [LX, PS], [('consumeEPP', LX), ('parseTopExpression EPP branch', PS)], ['ExpressionParser.Parse with EPP'])

prop('C18', 'Literal conversion returns a value exactly for literal expressions',
 "Converting an expression to a plain value succeeds exactly when it is built of literals only (numbers, strings, booleans, undef, default, names, type names, regexps, reserved words, lists and hashes of such), and then the value is the one written, element for element. For every other expression it reports that it is not a literal. It never panics, never returns a partial value, and the value is the caller\'s to change.",
 ['programs'], 'all generated expressions, literal and non-literal, to bounded depth',
 'No test calls the conversion.', ['literal/literal.go', EX], [('toLiteral', 'literal/literal.go')], ['literal.ToLiteral'])

prop('C19', 'The command line tool reports the same outcome as the library',
 "For every file and flag combination, the tool prints the tree the library gives for that file (as text, or as JSON under the documented key) unless asked to validate only, reports every issue of parser and validator at the chosen strictness, and exits with failure exactly when parsing failed or an issue of error severity exists. With the JSON flag the output is one JSON document holding issues only when there are any. Files named as templates are parsed as templates.",
 ['inputs', 'configurations'], 'generated files (valid, with soft and hard issues, syntax errors, invalid bytes, templates) x all flag combinations',
 'No test runs the command.', ['parse/parser.go', 'json/json.go'], [('main', 'parse/parser.go')], ['process exit status, stdout, stderr'])

prop('C20', 'Every definition is registered once, under its full name, in source order',
 "The definitions of a parsed program are exactly its class, function, plan, type, node, site, application, capability and resource-type definitions and top-level workflows, each once, as the same node that is in the tree, in the order in which they end in the source. Names of nested classes, steps and capabilities are qualified by all enclosing definitions of naming kind and by nothing else. Re-reading of ambiguous text never duplicates or loses a definition.",
 ['programs', 'histories'], 'all programs with definitions nested and placed anywhere a statement may be',
 'Tests check the definitions of two or three programs.', [PS, EX], [('addDefinition', PS), ('nameStack/qualifiedName', PS)], ['Program.Definitions'])

prop('C21', 'Parser options affect only the features they name',
 "A source that does not use a feature parses to the same tree with the option for it on or off: plans and tasks, workflows, backtick strings, hex escapes. With the option on, exactly the feature's syntax becomes available; with it off, the feature's words are ordinary names and its syntax is rejected or read literally as documented. Options are independent of each other and of their order.",
 ['configurations', 'programs'], 'all programs x all subsets and orders of options',
 'Tests use each option with a few sources only.', [PS, LX], [('CreateParser', PS), ('tasks/workflow/handle* flags', LX)], ['CreateParser', 'CreatePspecParser'])

prop('C22', 'Workflow steps parse to their exact structure, and resource state is deferred',
 "With workflows enabled, every step is parsed with its style, qualified name, properties, parameters, return aliases, iteration and body in their own roles, in source order. In the state of a resource step every variable reference and function call that is an attribute value, or an element, key or value of a list, hash or argument list there, is turned into a deferred one with the same name and arguments, and everything else is left as written. The step words remain usable as ordinary names, keys and resource types.",
 ['programs'], 'all step trees to bounded depth with all property kinds and iteration forms',
 'Tests sample about ten workflows.', [PS, WF], [('stepDeclaration', PS), ('convertToDeferred', PS), ('stepProperty', PS)], ['StepExpression'])

prop('C23', 'The simple lexer yields the token sequence of the source',
 "For every sequence of tokens written with arbitrary permitted layout, the stand-alone lexer delivers exactly those token kinds in that order (a whole double-quoted string or heredoc is one) and then the end of input forever, and it agrees with how the parser divides the same text. Positions can be restored to re-read tokens. Texts with no valid division are rejected with a located error.",
 ['inputs'], 'all token sequences x layouts, including line breaks and comments',
 'No test uses the stand-alone lexer.', [LX, PS], [('NewSimpleLexer', PS), ('nextToken', LX)], ['Lexer.NextToken', 'Lexer.CurrentToken'])

prop('C24', 'Calls: statement calls, argument lists and value use are recognised uniformly',
 "A known statement function followed by an unparenthesised argument list is the same call as the parenthesised one, in every block, and other names never become calls that way. A call is marked as needing a value exactly when it is not a statement of a block. Arguments written as key-value pairs form one hash per adjacent run, and lambdas attach to the call they follow.",
 ['programs'], 'all statement functions and other names x argument lists x enclosing blocks and positions',
 'Tests sample three statement functions at top level.', [PS], [('transformCalls', PS), ('statementCalls', PS), ('processHashEntries', PS)], ['CallNamedFunctionExpression.RvalRequired'])

prop('C25', 'Parsing is compositional',
 "A sequence of complete statements parses to the concatenation of what each parses to on its own, and an expression has the same tree in every place where the grammar allows an expression: in parentheses, as element, argument, attribute value, default, condition, lambda result or inside an interpolation. Appending or inserting complete statements never changes the tree of the others. This also holds for the real-world style sources of the test corpus and for mutations of them that still parse.",
 ['programs'], 'all pairs and sequences of statements, from the generator and from mutated corpus sources, x embedding contexts',
 'Tests parse constructs in one fixed context.', [PS, LX], [('parse/syntacticStatement', PS), ('resourceExpression re-reading', PS)], ['Expression.ToPN'])

prop('C26', 'Issue messages are complete and carry their arguments',
 "Every error and issue that parsing or validation can report has a non-empty message in which every argument is filled in, with no placeholder or formatting residue, followed by the location of the issue. Arguments that name something of the source (a name, operator, token, attribute, class or container) show that very thing, and what a message says was expected is accepted when it is put there. The string form, the code, the severity and the structured form of one issue agree.",
 ['programs', 'fault_sequences'], 'all issues raised on generated, broken and mutated programs',
 'Tests pin the messages of single examples; several messages have no test.', ['parser/issues.go', 'parser/label.go', 'validator/issues.go', CK], [('issue.Hard/Hard2 templates', 'parser/issues.go'), ('Accept args', CK)], ['issue.Reported.Error'])

prop('C27', 'Validators can be reused and extended, and know where they are',
 "A validator that is used for any sequence of programs, alone or joined with a parser, reports for each exactly what a fresh one does, whatever other validators exist, and issues handed out earlier do not change. A validator built on the abstract one is given every part of a tree once; at each it is told the true container of that part and of every part around it, and each issue it accepts is listed in order at that part with the severity set for its code, ignored ones excepted. Hard issues cannot be demoted.",
 ['histories', 'programs', 'configurations'], 'all sequences of programs and rejected sources x rule sets x severities x issues accepted at arbitrary parts',
 'Tests use each validator once and define none of their own.', [VA, CK, EX], [('AbstractValidator', VA), ('Validate', VA), ('parserValidator.Parse', VA)], ['Validator.Issues', 'AbstractValidator.Container', 'ParserValidator.Parse'])

prop('C28', 'Every offset of any text has its line and column, and readers keep their place',
 "For every text and every character of it, the locator gives the line (counted by line feeds) and the column (counted in characters) of that character, in whatever order positions are asked for, and an expression at that offset has this position and the text of its extent. A reader delivers the characters of the text in order with their sizes, can be set back to any of them, and gives the exact text between two places. It refuses null characters and invalid bytes instead of delivering them.",
 ['inputs', 'histories'], 'all texts with all widths of characters and line ends x all offsets x sequences of reader operations',
 'Tests look at a handful of positions in mostly ASCII sources.', [EX, RD], [('Locator', EX), ('Positioned', EX), ('stringReader', RD)], ['Locator.LineForOffset', 'Locator.PosOnLine', 'StringReader.Next'])

prop('C29', 'Nodes answer consistently through every interface they offer',
 "Every node of a parsed program belongs to exactly the categories of its kind (definition, named definition, binary, boolean, call, query, unary, name, literal value, number, resource), each of these views leads back to that very node and gives the parts its own accessors give, its text is its extent of the source, and only an empty expression is a nop. A hash asked for a key gives the value of the first entry whose key is a string or name with that text and nothing otherwise, and a copy of a type name under another name or of a call with another functor differs in just that and leaves the original alone. Asking a node never changes the tree.",
 ['programs'], 'all nodes of all programs and templates x all views x keys that are present, repeated or absent x new names and functors',
 'No test uses most of these interfaces; copies and hash lookup are tested nowhere.', [EX, 'parser/label.go'],
 [('ToLiteralValue/ToUnaryExpression/... methods', EX), ('LiteralHash.Get', EX), ('QualifiedReference.WithName', EX), ('CallNamedFunctionExpression.WithFunctor', EX)], ['LiteralHash.Get', 'QualifiedReference.WithName', 'LiteralValue.ToLiteralValue'])

prop('C30', 'Exactly the programs of the grammar are accepted',
 "For every sequence of tokens (names, type names, plain decimal numbers, single-quoted strings, variables, regexps, keywords, operators and brackets, separated by blanks and line breaks), with or without tasks and workflows, as program or as single expression, the parser accepts it exactly if the grammar of the language derives it, and its tree is then the one derived. This covers every place where a construct, an optional part, a separator, a keyword used as a name, or a trailing comma or semicolon is or is not allowed, so nothing that was written is dropped and nothing missing is made up.",
 ['programs', 'inputs', 'configurations'], 'all token sequences near to programs (up to three changes) and short arbitrary ones x tasks x workflow x single expression',
 'Tests hold about sixty wrong sources and one right source per construct; neither says where else a construct is allowed.', [PS, LX, 'parser/factory.go'],
 [('recursive descent', PS), ('resourceExpression/resourceBodies', PS), ('handleKeyword', PS), ('joinHashEntries', PS)], ['ExpressionParser.Parse', 'Expression.ToPN'])

prop('C31', 'Every text has one division into tokens, and is read by these tokens alone',
 "Every text (without heredocs) is divided from left to right into tokens by the lexical rules: words, names with :: and inner dashes, variables, numbers, quoted strings with their interpolations, regexps where no operand precedes, and the longest operator that fits. White space and comments separate tokens and otherwise matter only before a bracket or a number and for a parenthesis that is first on its line. The text is accepted exactly if it can be divided so and the tokens are a program of the grammar, and its tree is then the one of these tokens, however close together they stand.",
 ['programs', 'inputs', 'configurations'], 'all texts near to programs: tokens close together or apart, spelled in all ways, with up to three characters changed, and sequences of short pieces',
 'Tests write programs with the usual white space and a few wrong literals; what adjacent tokens do to each other is sampled nowhere.', [LX, PS],
 [('nextToken', LX), ('skipWhite', LX), ('consumeQualifiedName', LX), ('consumeDelimitedString', LX), ('interpolate', LX)], ['ExpressionParser.Parse', 'Expression.ToPN'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
