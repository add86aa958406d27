package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// fromAST reads a tree through the accessors of its nodes, and makes a model tree of what they return.
func fromAST(e parser.Expression) *Node {
	if isNil(e) {
		return nil
	}
	n := &Node{Off: e.ByteOffset(), End: e.ByteOffset() + e.ByteLength(), X: e}
	list := func(es []parser.Expression) (r []*Node) {
		for _, c := range es {
			r = append(r, fromAST(c))
		}
		return
	}
	bin := func(op string, b parser.BinaryExpression) {
		n.K, n.S, n.A, n.B = KBin, op, fromAST(b.Lhs()), fromAST(b.Rhs())
	}
	un := func(k Kind, u parser.UnaryExpression) { n.K, n.A = k, fromAST(u.Expr()) }
	form := func(f parser.ResourceForm) string {
		if f == parser.REGULAR {
			return ""
		}
		return string(f)
	}
	def := func(k Kind, d parser.NamedDefinition) {
		n.K, n.S, n.Full, n.L, n.B = k, d.Name(), d.Name(), list(d.Parameters()), fromAST(d.Body())
	}
	switch e := e.(type) {
	case *parser.AccessExpression:
		n.K, n.A, n.L = KAccess, fromAST(e.Operand()), list(e.Keys())
	case *parser.AndExpression:
		bin("and", e)
	case *parser.OrExpression:
		bin("or", e)
	case *parser.InExpression:
		bin("in", e)
	case *parser.ArithmeticExpression:
		bin(e.Operator(), e)
	case *parser.AssignmentExpression:
		bin(e.Operator(), e)
	case *parser.ComparisonExpression:
		bin(e.Operator(), e)
	case *parser.MatchExpression:
		bin(e.Operator(), e)
	case *parser.RelationshipExpression:
		bin(e.Operator(), e)
	case *parser.NamedAccessExpression:
		n.K, n.A, n.B = KDot, fromAST(e.Lhs()), fromAST(e.Rhs())
	case *parser.AttributeOperation:
		n.K, n.S, n.Op, n.A = KAttr, e.Name(), e.Operator(), fromAST(e.Value())
	case *parser.AttributesOperation:
		n.K, n.A = KSplat, fromAST(e.Expr())
	case *parser.BlockExpression:
		n.K, n.L = KBlock, list(e.Statements())
	case *parser.CallFunctionExpression, *parser.CallMethodExpression, *parser.CallNamedFunctionExpression:
		c := e.(parser.CallExpression)
		n.K, n.A, n.L, n.B = KCall, fromAST(c.Functor()), list(c.Arguments()), fromAST(c.Lambda())
		switch e := e.(type) {
		case *parser.CallMethodExpression:
			n.K = KMethod
		case *parser.CallNamedFunctionExpression:
			n.Flag = !e.RvalRequired()
		case *parser.CallFunctionExpression:
			n.Flag = !e.RvalRequired()
		}
	case *parser.CapabilityMapping:
		n.K, n.S, n.Op, n.Full, n.A, n.L = KCapability, e.Kind(), e.Capability(), e.Capability(), fromAST(e.Component()), list(e.Mappings())
	case *parser.CaseExpression:
		n.K, n.A, n.L = KCase, fromAST(e.Test()), list(e.Options())
	case *parser.CaseOption:
		n.K, n.L, n.B = KOption, list(e.Values()), fromAST(e.Then())
	case *parser.CollectExpression:
		n.K, n.A, n.B, n.L = KCollect, fromAST(e.ResourceType()), fromAST(e.Query()), list(e.Operations())
	case *parser.ConcatenatedString:
		n.K, n.L = KConcat, list(e.Segments())
	case *parser.EppExpression:
		n.K, n.A, n.Flag = KEpp, fromAST(e.Body()), e.ParametersSpecified()
	case *parser.ExportedQuery:
		n.K, n.A, n.Flag = KQuery, fromAST(e.Expr()), true
	case *parser.VirtualQuery:
		n.K, n.A = KQuery, fromAST(e.Expr())
	case *parser.FunctionDefinition:
		def(KFunction, e)
		n.C = fromAST(e.ReturnType())
	case *parser.PlanDefinition:
		def(KPlan, e)
		n.C = fromAST(e.ReturnType())
	case *parser.HostClassDefinition:
		def(KClass, e)
		n.Op = e.ParentClass()
	case *parser.ResourceTypeDefinition:
		def(KDefine, e)
	case *parser.Application:
		def(KApplication, e)
	case *parser.HeredocExpression:
		n.K, n.S, n.A = KHeredoc, e.Syntax(), fromAST(e.Text())
	case *parser.IfExpression:
		n.K, n.A, n.B, n.C = KIf, fromAST(e.Test()), fromAST(e.Then()), fromAST(e.Else())
	case *parser.UnlessExpression:
		n.K, n.A, n.B, n.C = KUnless, fromAST(e.Test()), fromAST(e.Then()), fromAST(e.Else())
	case *parser.KeyedEntry:
		n.K, n.A, n.B = KEntry, fromAST(e.Key()), fromAST(e.Value())
	case *parser.LambdaExpression:
		n.K, n.L, n.A, n.B = KLambda, list(e.Parameters()), fromAST(e.ReturnType()), fromAST(e.Body())
	case *parser.LiteralBoolean:
		n.K, n.S = KBool, strconv.FormatBool(e.Bool())
		n.V = e.Value()
	case *parser.LiteralDefault:
		n.K, n.V = KDefault, e.Value()
	case *parser.LiteralFloat:
		n.K, n.F, n.V = KFloat, e.Float(), e.Value()
	case *parser.LiteralInteger:
		n.K, n.I, n.Op, n.V = KInt, e.Int(), strconv.Itoa(e.Radix()), e.Value()
	case *parser.LiteralHash:
		n.K, n.L = KHash, list(e.Entries())
	case *parser.LiteralList:
		n.K, n.L = KList, list(e.Elements())
	case *parser.LiteralString:
		n.K, n.S, n.V = KStr, e.StringValue(), e.Value()
	case *parser.LiteralUndef:
		n.K, n.V = KUndef, e.Value()
	case *parser.NodeDefinition:
		n.K, n.L, n.A, n.B = KNode, list(e.HostMatches()), fromAST(e.Parent()), fromAST(e.Body())
	case *parser.Nop:
		n.K = KNop
	case *parser.NotExpression:
		un(KNot, e)
	case *parser.UnaryMinusExpression:
		un(KNegate, e)
	case *parser.UnfoldExpression:
		un(KUnfold, e)
	case *parser.ParenthesizedExpression:
		un(KParen, e)
	case *parser.RenderExpression:
		un(KRender, e)
	case *parser.TextExpression:
		un(KText, e)
	case *parser.VariableExpression:
		n.K = KVar
		n.M = []*Node{fromAST(e.Expr())}
		if s, ok := e.Name(); ok {
			n.S = s
			if e.NameOrIndex() != s {
				n.S = fmt.Sprintf("%s/%v", s, e.NameOrIndex())
			}
			if _, ok := e.Index(); ok {
				n.S += "/index"
			}
		} else if i, ok := e.Index(); ok {
			n.I, n.Flag = i, true
			if e.NameOrIndex() != i {
				n.I = -1
			}
		}
	case *parser.Parameter:
		n.K, n.S, n.A, n.B, n.Flag = KParam, e.Name(), fromAST(e.Type()), fromAST(e.Value()), e.CapturesRest()
	case *parser.Program:
		n.K, n.A = KProgram, fromAST(e.Body())
	case *parser.QualifiedName:
		n.K, n.S, n.V = KName, e.Name(), e.Value()
	case *parser.QualifiedReference:
		n.K, n.S, n.V = KRef, e.Name(), e.Value()
		if l := e.DowncasedName(); l != strings.ToLower(e.Name()) {
			n.S = e.Name() + "/" + l
		}
	case *parser.RegexpExpression:
		n.K, n.S, n.V = KRegexp, e.PatternString(), e.Value()
	case *parser.RenderStringExpression:
		n.K, n.S = KRenderS, e.StringValue()
	case *parser.ReservedWord:
		n.K, n.S, n.Flag, n.V = KReserved, e.Name(), e.Future(), e.Value()
	case *parser.ResourceBody:
		n.K, n.A, n.L = KBody, fromAST(e.Title()), list(e.Operations())
	case *parser.ResourceDefaultsExpression:
		n.K, n.A, n.L, n.Op = KDefaults, fromAST(e.TypeRef()), list(e.Operations()), form(e.Form())
	case *parser.ResourceExpression:
		n.K, n.A, n.L, n.Op = KResource, fromAST(e.TypeName()), list(e.Bodies()), form(e.Form())
	case *parser.ResourceOverrideExpression:
		n.K, n.A, n.L, n.Op = KOverride, fromAST(e.Resources()), list(e.Operations()), form(e.Form())
	case *parser.SelectorEntry:
		n.K, n.A, n.B = KSelEntry, fromAST(e.Matching()), fromAST(e.Value())
	case *parser.SelectorExpression:
		n.K, n.A, n.L = KSelector, fromAST(e.Lhs()), list(e.Selectors())
	case *parser.SiteDefinition:
		n.K, n.B = KSite, fromAST(e.Body())
	case *parser.TypeAlias:
		n.K, n.S, n.A = KTypeAlias, e.Name(), fromAST(e.Type())
	case *parser.TypeDefinition:
		n.K, n.S, n.Op, n.B = KTypeDef, e.Name(), e.Parent(), fromAST(e.Body())
	case *parser.TypeMapping:
		n.K, n.A, n.B = KTypeMapping, fromAST(e.Type()), fromAST(e.Mapping())
	case *parser.StepExpression:
		n.K, n.S, n.Full, n.Op, n.A, n.B = KStep, e.Name(), e.Name(), string(e.Style()), fromAST(e.Properties()), fromAST(e.Definition())
	default:
		panic(fmt.Sprintf("fromAST: unknown node %T", e))
	}
	return n
}

func isNil(e parser.Expression) bool {
	if e == nil {
		return true
	}
	v := reflect.ValueOf(e)
	return v.Kind() == reflect.Ptr && v.IsNil()
}
