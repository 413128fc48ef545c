// Rendering of the trees of the parser under test in the notation of model.go
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

func parseSrc(src []byte, opts ...parser.ConfigOpts) (*ast.CDDL, parser.ErrorList) {
	return parser.NewParser(lexer.NewLexer(src), opts...).ParseFile()
}

type dumper struct {
	sb       strings.Builder
	pos      bool
	comments bool
}

func (d *dumper) p(p token.Position) string {
	if !d.pos {
		return ""
	}
	return fmt.Sprintf("@%d:%d:%d", p.Offset, p.Line, p.Column)
}

func (d *dumper) o(p token.Position) string {
	if !d.pos {
		return ""
	}
	return fmt.Sprintf("^%d:%d:%d", p.Offset, p.Line, p.Column)
}

func (d *dumper) bin(label string, n ast.Node, op token.Position, a, b ast.Node) {
	fmt.Fprintf(&d.sb, "(%s%s%s ", label, d.p(n.Start()), d.o(op))
	d.node(a)
	d.sb.WriteByte(' ')
	d.node(b)
	d.sb.WriteByte(')')
}

func (d *dumper) list(label string, n ast.Node, kids []ast.Node) {
	fmt.Fprintf(&d.sb, "(%s%s", label, d.p(n.Start()))
	for _, k := range kids {
		d.sb.WriteByte(' ')
		d.node(k)
	}
	d.sb.WriteByte(')')
}

func groupNodes(es []ast.GroupEntry) (out []ast.Node) {
	for _, e := range es {
		out = append(out, e)
	}
	return
}

func (d *dumper) node(n ast.Node) {
	sb := &d.sb
	switch v := n.(type) {
	case nil:
		sb.WriteString("<nil>")
	case *ast.Identifier:
		fmt.Fprintf(sb, "(ident%s %s)", d.p(v.Start()), v.Name)
	case *ast.BooleanType:
		fmt.Fprintf(sb, "(BooleanType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.TstrType:
		fmt.Fprintf(sb, "(TstrType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.FloatType:
		fmt.Fprintf(sb, "(FloatType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.UintType:
		fmt.Fprintf(sb, "(UintType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.IntegerType:
		fmt.Fprintf(sb, "(IntegerType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.NegativeIntegerType:
		fmt.Fprintf(sb, "(NegativeIntegerType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.BstrType:
		fmt.Fprintf(sb, "(BstrType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.BytesType:
		fmt.Fprintf(sb, "(BytesType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.NullType:
		fmt.Fprintf(sb, "(NullType:%s%s)", v.Token, d.p(v.Start()))
	case *ast.BooleanLiteral:
		fmt.Fprintf(sb, "(boollit%s %v)", d.p(v.Start()), v.Bool)
	case *ast.IntegerLiteral:
		fmt.Fprintf(sb, "(intlit%s %d)", d.p(v.Start()), v.Literal)
	case *ast.UintLiteral:
		fmt.Fprintf(sb, "(intlit%s %d)", d.p(v.Start()), v.Literal)
	case *ast.FloatLiteral:
		fmt.Fprintf(sb, "(floatlit%s %s)", d.p(v.Start()), strconv.FormatFloat(v.Literal, 'g', -1, 64))
	case *ast.TextLiteral:
		fmt.Fprintf(sb, "(textlit%s %q)", d.p(v.Start()), v.Literal)
	case *ast.Group:
		d.list("group", v, groupNodes(v.Entries))
	case *ast.Array:
		d.list("array", v, groupNodes(v.Rules))
	case *ast.Map:
		d.list("map", v, v.Rules)
	case *ast.Entry:
		fmt.Fprintf(sb, "(entry%s%s ", d.p(v.Start()), d.o(v.Pos))
		d.node(v.Name)
		sb.WriteByte(' ')
		d.node(v.Value)
		if v.TrailingComment != nil && d.comments {
			fmt.Fprintf(sb, " ;%q", v.TrailingComment.Text)
		}
		sb.WriteByte(')')
	case *ast.TypeChoice:
		label := "choice"
		if v.Token == token.GROUP_CHOICE {
			label = "gchoice"
		}
		d.bin(label, v, v.Pos, v.First, v.Second)
	case *ast.GroupChoice:
		d.bin("gchoice", v, v.Pos, v.First, v.Second)
	case *ast.Range:
		d.bin("range"+v.Token.String(), v, v.Pos, v.From, v.To)
	case *ast.SizeOperatorControl:
		d.bin(v.Token.String(), v, v.Pos, v.Type, v.Size)
	case *ast.Regexp:
		d.bin(v.Token.String(), v, v.Pos, v.Base, v.Regex)
	case *ast.Bits:
		d.bin(v.Token.String(), v, v.Pos, v.Base, v.Contstraint)
	case *ast.ComparatorOpControl:
		label := v.Token.String()
		if v.Operator != label {
			label += "(" + v.Operator + ")"
		}
		d.bin(label, v, v.Pos, v.Left, v.Right)
	case *ast.Unwrap:
		fmt.Fprintf(sb, "(unwrap%s ", d.p(v.Start()))
		d.node(v.Item)
		sb.WriteByte(')')
	case *ast.Enumeration:
		fmt.Fprintf(sb, "(enum%s ", d.p(v.Start()))
		d.node(v.Value)
		sb.WriteByte(')')
	case *ast.Optional:
		fmt.Fprintf(sb, "(opt%s ", d.p(v.Start()))
		d.node(v.Item)
		sb.WriteByte(')')
	case *ast.NMOccurrence:
		fmt.Fprintf(sb, "(occ%s%s", d.p(v.Start()), d.o(v.Pos))
		if v.N != nil {
			fmt.Fprintf(sb, " %d%s..", v.N.Literal, d.p(v.N.Start()))
		} else {
			fmt.Fprintf(sb, " nil..")
		}
		if v.M != nil {
			fmt.Fprintf(sb, "%d%s", v.M.Literal, d.p(v.M.Start()))
		}
		sb.WriteByte(' ')
		d.node(v.Item)
		sb.WriteByte(')')
	case *ast.Tag:
		fmt.Fprintf(sb, "(tag%s", d.p(v.Start()))
		if v.Major != nil {
			fmt.Fprintf(sb, " #%d%s", v.Major.Literal, d.p(v.Major.Start()))
		}
		if v.TagNumber != nil {
			fmt.Fprintf(sb, " .%d%s", v.TagNumber.Literal, d.p(v.TagNumber.Start()))
		}
		if v.Item != nil {
			sb.WriteByte(' ')
			d.node(v.Item)
		}
		sb.WriteByte(')')
	default:
		fmt.Fprintf(sb, "<%T>", n)
	}
}

// Dump renders a node
func Dump(n ast.Node, pos bool) string {
	d := &dumper{pos: pos, comments: pos}
	d.node(n)
	return d.sb.String()
}

// DumpRules renders the rules of a tree
func DumpRules(c *ast.CDDL, pos, comments bool) []string {
	var out []string
	// consecutive comments form one run, however the tree groups them
	var run []string
	flush := func() {
		if len(run) > 0 && comments {
			out = append(out, fmt.Sprintf("comments %q", run))
		}
		run = nil
	}
	for _, e := range c.Rules {
		switch v := e.(type) {
		case *ast.Comment:
			run = append(run, v.Text)
			continue
		case *ast.CommentGroup:
			for _, c := range v.List {
				run = append(run, c.Text)
			}
			continue
		case *ast.Rule:
			flush()
			d := &dumper{pos: pos, comments: comments}
			fmt.Fprintf(&d.sb, "(rule%s ", d.p(v.Start()))
			d.node(v.Name)
			d.sb.WriteByte(' ')
			d.node(v.Value)
			if v.TrailingComment != nil && comments {
				fmt.Fprintf(&d.sb, " ;%q", v.TrailingComment.Text)
			}
			d.sb.WriteByte(')')
			out = append(out, d.sb.String())
		default:
			flush()
			out = append(out, fmt.Sprintf("<%T>", e))
		}
	}
	flush()
	return out
}
