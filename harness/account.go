// Conservation of tokens: the tree of an accepted source, unparsed, must give the source's tokens
package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
)

// a token as it counts: kind and value
type acc struct {
	kind string
	val  string
}

func accInt(text string) acc {
	v, ok := new(big.Int).SetString(text, 0)
	if !ok {
		return acc{"int", "?" + text}
	}
	return acc{"int", v.String()}
}

func accFloat(text string) acc {
	f, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return acc{"float", "?" + text}
	}
	return acc{"float", strconv.FormatFloat(f, 'g', -1, 64)}
}

// accSource lists what has to be accounted for in a source
func accSource(toks []RTok) (out []acc) {
	for i, t := range toks {
		switch t.Tok {
		case token.EOF, token.COMMA, token.COMMENT:
		case token.ASSIGN, token.TYPE_CHOICE_ASSIGN, token.GROUP_CHOICE_ASSIGN:
			out = append(out, acc{"assign", ""})
		case token.COLON, token.ARROW_MAP:
			out = append(out, acc{"member", ""})
		case token.IDENT:
			out = append(out, acc{"ident", t.Lit})
		case token.TEXT_LITERAL:
			out = append(out, acc{"text", t.Lit})
		case token.INT, token.FLOAT:
			switch {
			case t.Lit == "int" || t.Lit == "float":
				out = append(out, acc{"tok", t.Lit})
			case t.Tok == token.FLOAT && i > 0 && toks[i-1].Tok == token.HASH:
				parts := strings.SplitN(t.Lit, ".", 2)
				out = append(out, accInt(parts[0]), accInt(parts[1]))
			case t.Tok == token.FLOAT:
				out = append(out, accFloat(t.Lit))
			default:
				out = append(out, accInt(t.Lit))
			}
		default:
			out = append(out, acc{"tok", t.Lit})
		}
	}
	return
}

type unparser struct{ out []acc }

func (u *unparser) t(s string)      { u.out = append(u.out, acc{"tok", s}) }
func (u *unparser) add(k, v string) { u.out = append(u.out, acc{k, v}) }
func (u *unparser) uint(v uint64)   { u.add("int", strconv.FormatUint(v, 10)) }
func (u *unparser) bracket(o, c string, kids []ast.Node) {
	u.t(o)
	for _, k := range kids {
		u.node(k)
	}
	u.t(c)
}

func (u *unparser) key(n *ast.Identifier) {
	if n == nil {
		u.add("nil", "key")
		return
	}
	if n.Name != "" && n.Name[0] >= '0' && n.Name[0] <= '9' {
		u.out = append(u.out, accInt(n.Name)) // an integer key
		return
	}
	u.add("ident", n.Name)
}

func (u *unparser) node(n ast.Node) {
	switch v := n.(type) {
	case *ast.Identifier:
		u.add("ident", v.Name)
	case *ast.BooleanType:
		u.t("bool")
	case *ast.TstrType:
		u.t(v.Token.String())
	case *ast.FloatType:
		u.t(v.Token.String())
	case *ast.UintType:
		u.t("uint")
	case *ast.IntegerType:
		u.t("int")
	case *ast.NegativeIntegerType:
		u.t("nint")
	case *ast.BstrType:
		u.t("bstr")
	case *ast.BytesType:
		u.t("bytes")
	case *ast.NullType:
		u.t(v.Token.String())
	case *ast.BooleanLiteral:
		u.t(strconv.FormatBool(v.Bool))
	case *ast.IntegerLiteral:
		u.add("int", strconv.FormatInt(v.Literal, 10))
	case *ast.UintLiteral:
		u.uint(v.Literal)
	case *ast.FloatLiteral:
		u.add("float", strconv.FormatFloat(v.Literal, 'g', -1, 64))
	case *ast.TextLiteral:
		u.add("text", v.Literal)
	case *ast.Group:
		u.bracket("(", ")", groupNodes(v.Entries))
	case *ast.Array:
		u.bracket("[", "]", groupNodes(v.Rules))
	case *ast.Map:
		u.bracket("{", "}", v.Rules)
	case *ast.Entry:
		u.key(v.Name)
		u.add("member", "")
		u.node(v.Value)
	case *ast.TypeChoice:
		u.node(v.First)
		u.t(v.Token.String())
		u.node(v.Second)
	case *ast.GroupChoice:
		u.node(v.First)
		u.t("//")
		u.node(v.Second)
	case *ast.Range:
		u.node(v.From)
		u.t(v.Token.String())
		u.node(v.To)
	case *ast.SizeOperatorControl:
		u.node(v.Type)
		u.t(v.Token.String())
		u.node(v.Size)
	case *ast.Regexp:
		u.node(v.Base)
		u.t(v.Token.String())
		u.node(v.Regex)
	case *ast.Bits:
		u.node(v.Base)
		u.t(v.Token.String())
		u.node(v.Contstraint)
	case *ast.ComparatorOpControl:
		u.node(v.Left)
		u.t(v.Operator)
		u.node(v.Right)
	case *ast.Unwrap:
		u.t("~")
		u.node(v.Item)
	case *ast.Enumeration:
		u.t("&")
		u.node(v.Value)
	case *ast.Optional:
		u.t("?")
		u.node(v.Item)
	case *ast.NMOccurrence:
		// an implied lower bound has the position of the operator
		if v.N == nil {
			u.add("nil", "N")
		} else if v.N.Start() != v.Pos {
			u.uint(v.N.Literal)
		}
		u.t(v.Token.String())
		if v.M != nil {
			u.uint(v.M.Literal)
		}
		u.node(v.Item)
	case *ast.Tag:
		u.t("#")
		if v.Major != nil {
			u.uint(v.Major.Literal)
		}
		if v.TagNumber != nil {
			u.uint(v.TagNumber.Literal)
		}
		if v.Item != nil {
			u.t("(")
			u.node(v.Item)
			u.t(")")
		}
	default:
		u.add("unexpected", fmt.Sprintf("%T", n))
	}
}

// accTree lists what a tree accounts for
func accTree(c *ast.CDDL) []acc {
	u := &unparser{}
	for _, e := range c.Rules {
		switch v := e.(type) {
		case *ast.Comment, *ast.CommentGroup:
		case *ast.Rule:
			u.add("ident", v.Name.Name)
			u.add("assign", "")
			u.node(v.Value)
		default:
			u.add("unexpected", fmt.Sprintf("%T", e))
		}
	}
	return u.out
}

// accDiff returns a description of the first difference, "" if there is none
func accDiff(src, tree []acc) string {
	for i := 0; i < len(src) || i < len(tree); i++ {
		var a, b string
		if i < len(src) {
			a = src[i].kind + " " + src[i].val
		} else {
			a = "nothing"
		}
		if i < len(tree) {
			b = tree[i].kind + " " + tree[i].val
		} else {
			b = "nothing"
		}
		if a != b {
			return fmt.Sprintf("element %d: the source has %q, the tree %q", i, a, b)
		}
	}
	return ""
}
