// Abstract schemas: generated, printed to tokens, laid out as source text, and rendered as the tree they
// must parse to.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/token"
)

// N is a node of an abstract schema
type N struct {
	K    string // kind
	S    string // spelling: name, literal or operator
	Kids []*N
	M    *N // upper bound of an occurrence (K == "occ"); Kids[0] item; N0 lower bound
	N0   *N

	start, op int // token indexes of the first token and the operator, set by printing
	last      int // token index of the last token
	comma     int // token index of the comma behind an entry, or -1
	m, tagNum int
}

// kinds: ident prim bool int float text group array map entry choice gchoice range ctl unwrap enum tag opt occ
// rule: S name, Kids[0] value, Op assignment

type Rule struct {
	Name   string
	Assign string // = /= //=
	Value  *N

	first, last, assign int // token indexes
	Leading, Trailing   []string
}

type Schema struct{ Rules []*Rule }

// PTok is a printed token
type PTok struct {
	S     string
	Depth int  // bracket depth before the token
	First bool // first token of a rule
	// places for comments, relative to this token
	CommentBefore bool // a comment may stand on a line of its own before this token
	EntryEnd      bool // the last token of a named entry including its comma: a comment may follow on the same line
	RuleEnd       bool
	Opt           bool // an optional comma
	Operand       bool // this token starts the value of a rule or the right operand of an operator
	Off, End      int
	Line, Col     int
}

// Printer turns a schema into tokens
type Printer struct {
	toks  []PTok
	depth int
	r     *Rand
	comma int // 0 random, 1 always, 2 never where it is optional
}

func (p *Printer) tok(s string) int {
	p.toks = append(p.toks, PTok{S: s, Depth: p.depth})
	return len(p.toks) - 1
}

// operand prints a node before which a comment may stand
func (p *Printer) operand(n *N) {
	idx := len(p.toks)
	p.node(n)
	p.toks[idx].CommentBefore, p.toks[idx].Operand = true, true
}

func quoteText(s string) string { return "\"" + s + "\"" }

func (p *Printer) node(n *N) {
	n.op, n.comma = -1, -1
	n.start = len(p.toks)
	switch n.K {
	case "ident", "prim", "bool", "int", "float", "raw":
		p.tok(n.S)
	case "text":
		p.tok(quoteText(n.S))
	case "group", "array", "map":
		open, cl := brackets(n.K)
		p.tok(open)
		p.depth++
		for i, e := range n.Kids {
			idx := len(p.toks)
			p.node(e)
			p.toks[idx].CommentBefore = true
			end := len(p.toks) - 1
			named := namedTail(e)
			want := i < len(n.Kids)-1 || p.r.P(1, 2)
			if i < len(n.Kids)-1 && commaOptional(e, n.Kids[i+1]) {
				want = p.comma == 1 || p.comma == 0 && p.r.P(2, 3)
			} else if i == len(n.Kids)-1 {
				want = p.comma == 1 || p.comma == 0 && p.r.P(1, 2)
			}
			if want {
				c := p.tok(",")
				p.toks[c].Opt = true
				if named != nil {
					named.comma = c
				}
				end = c
			}
			if named != nil {
				p.toks[end].EntryEnd = true
			}
		}
		p.depth--
		c := p.tok(cl)
		p.toks[c].CommentBefore = true
	case "entry", "choice", "gchoice", "range", "ctl":
		p.node(n.Kids[0])
		n.op = p.tok(n.S)
		p.operand(n.Kids[1])
	case "unwrap", "enum", "opt":
		n.op = p.tok(n.S)
		p.operand(n.Kids[0])
	case "occ":
		if n.N0 != nil {
			p.node(n.N0)
		}
		n.op = p.tok(n.S)
		if n.M != nil {
			p.node(n.M)
		}
		p.operand(n.Kids[0])
	case "tag":
		n.op = p.tok("#")
		if n.S != "" {
			n.m = p.tok(n.S)
		}
		if len(n.Kids) > 0 {
			p.tok("(")
			p.operand(n.Kids[0])
			p.tok(")")
		}
	default:
		panic("print: " + n.K)
	}
	n.last = len(p.toks) - 1
}

func brackets(k string) (string, string) {
	switch k {
	case "group":
		return "(", ")"
	case "array":
		return "[", "]"
	}
	return "{", "}"
}

// namedTail returns the named entry the printed text of an entry ends with
func namedTail(e *N) *N {
	switch e.K {
	case "entry":
		return e
	case "opt", "occ":
		return namedTail(e.Kids[0])
	case "gchoice":
		return namedTail(e.Kids[1])
	}
	return nil
}

// commaOptional tells whether two entries keep apart without a comma
func commaOptional(prev, next *N) bool {
	// after an open tag a bracket would be its content; an occurrence sign after a number or a name would
	// be taken as the operator of that operand
	if endsWithOpenTag(prev) && firstTok(next) != "" && strings.ContainsAny(firstTok(next)[:1], "(0123456789") {
		return false
	}
	f := firstTok(next)
	if f == "*" || f == "+" {
		return !endsWithInt(prev)
	}
	return true
}

// endsWithInt tells whether a node ends with an entry that is an integer alone
func endsWithInt(n *N) bool {
	switch n.K {
	case "int":
		return true
	case "gchoice":
		return endsWithInt(n.Kids[1])
	}
	return false
}

func endsWithOpenTag(n *N) bool {
	switch n.K {
	case "tag":
		return len(n.Kids) == 0
	case "entry", "choice", "gchoice", "range", "ctl":
		return endsWithOpenTag(n.Kids[1])
	case "unwrap", "enum", "opt", "occ":
		return endsWithOpenTag(n.Kids[0])
	}
	return false
}

func firstTok(n *N) string {
	switch n.K {
	case "entry", "choice", "gchoice", "range", "ctl":
		return firstTok(n.Kids[0])
	case "unwrap", "enum", "opt":
		return n.S
	case "occ":
		if n.N0 != nil {
			return n.N0.S
		}
		return n.S
	case "tag":
		return "#"
	case "group", "array", "map":
		o, _ := brackets(n.K)
		return o
	case "text":
		return "\""
	}
	return n.S
}

// Print prints the rules of a schema
func Print(s *Schema, r *Rand, comma int) []PTok {
	p := &Printer{r: r, comma: comma}
	for _, rule := range s.Rules {
		rule.first = p.tok(rule.Name)
		p.toks[rule.first].First = true
		p.toks[rule.first].CommentBefore = true
		rule.assign = p.tok(rule.Assign)
		p.operand(rule.Value)
		rule.last = len(p.toks) - 1
		p.toks[rule.last].RuleEnd = true
	}
	return p.toks
}

// canGlue tells whether two tokens keep their boundary when no space separates them
func canGlue(a, b string) bool {
	if (b[0] == '.' || b[0] == '-') && reIdent.MatchString(a) {
		return false // b joins a with what follows
	}
	t := RefLex([]byte(a + b))
	return len(t) == 3 && t[0].Off == 0 && t[0].End == len(a) && t[1].Off == len(a) && t[1].End == len(a)+len(b) && t[0].Tok != token.COMMENT && t[1].Tok != token.ILLEGAL && t[0].Tok != token.ILLEGAL
}

// Layout chooses whitespace and comments
type Layout struct {
	Name     string
	Newline  string // line ending
	Glue     int    // percent chance to leave out a space that is not needed
	Break    int    // percent chance of a line break between tokens
	Comments int    // percent chance of a comment where one is allowed
	Wide     int    // max number of extra blanks
	OneLine  bool   // rules separated by spaces only
	Unicode  bool   // non-ASCII comment text
}

var layouts = []Layout{
	{Name: "plain", Newline: "\n", Break: 0, Wide: 0},
	{Name: "compact", Newline: "\n", Glue: 100},
	{Name: "one line", Newline: "\n", Glue: 50, OneLine: true},
	{Name: "broken", Newline: "\n", Break: 60, Wide: 3},
	{Name: "crlf", Newline: "\r\n", Break: 15, Comments: 30, Wide: 1},
	{Name: "commented", Newline: "\n", Break: 10, Comments: 50, Wide: 2, Glue: 30},
	{Name: "unicode comments", Newline: "\n", Break: 20, Comments: 60, Glue: 20, Unicode: true},
	{Name: "wide", Newline: "\n", Break: 5, Wide: 300},
}

// Text is a laid out schema
type Text struct {
	Src  []byte
	Toks []PTok
	// comments in source order, without the semicolon
	Comments []string
	// comments attached to tokens: index of the last token of the rule or entry -> text
	Trail map[int]string
	// runs of comments before a rule: index of the rule's first token -> texts; len(toks) for the end of file
	Lead map[int][]string

	NoPos, NoComments bool // what the expected tree leaves out
}

var commentWords = []string{"", " c", " a comment", " x = int", " \"quoted\"", " ; nested", "\ttab", " (unbalanced ]", " trailing space ", " 0..5 / a // b", " undefined-name", ";;;", "comment", " a: int,"}
var commentUnicode = []string{" é", " 日本語", " 😀", "ünï"}

func (l *Layout) comment(r *Rand) string {
	if l.Unicode && r.P(1, 2) {
		return r.Pick(commentUnicode)
	}
	return r.Pick(commentWords)
}

func (l *Layout) blanks(r *Rand, sb *strings.Builder) {
	n := 1
	if l.Wide > 0 {
		n = r.Range(1, 1+l.Wide)
		if l.Wide > 50 && r.P(9, 10) {
			n = 1
		}
	}
	for ; n > 0; n-- {
		if r.P(1, 6) && l.Wide > 0 {
			sb.WriteByte('\t')
		} else {
			sb.WriteByte(' ')
		}
	}
}

// Render lays the tokens out
func Render(toks []PTok, l *Layout, r *Rand) *Text {
	t := &Text{Toks: append([]PTok{}, toks...), Trail: map[int]string{}, Lead: map[int][]string{}}
	var sb strings.Builder
	nl := func() { sb.WriteString(l.Newline) }
	lineStart := true // nothing but blanks on this line
	ownLines := func(i int, isRule, operand bool) {
		// comments on lines of their own, behind an operator also on its line
		n := r.Range(1, 3)
		if r.P(1, 2000) {
			n = r.Range(4, 600)
		}
		for ; n > 0; n-- {
			if !lineStart {
				if operand && r.P(1, 3) {
					sb.WriteByte(' ')
				} else {
					nl()
				}
			}
			for r.P(1, 5) {
				nl()
				lineStart = true
			}
			if r.P(1, 3) {
				l.blanks(r, &sb)
			}
			c := l.comment(r)
			sb.WriteString(";" + c)
			t.Comments = append(t.Comments, c)
			if isRule {
				t.Lead[i] = append(t.Lead[i], c)
			}
			nl()
			lineStart = true
		}
	}
	if r.P(1, 8) && !l.OneLine {
		nl()
	}
	for i := range t.Toks {
		k := &t.Toks[i]
		sep := i > 0
		if k.First && i > 0 && !l.OneLine {
			if !lineStart {
				nl()
			}
			lineStart = true
			for r.P(1, 6) {
				nl()
			}
			sep = false
		}
		if k.CommentBefore && l.Comments > 0 && r.P(l.Comments, 200) {
			ownLines(i, k.First, k.Operand)
			sep = false
		}
		if sep && !lineStart {
			switch {
			case l.Break > 0 && r.P(l.Break, 100):
				nl()
				for r.P(1, 8) {
					nl()
				}
				lineStart = true
			case l.Glue > 0 && r.P(l.Glue, 100) && canGlue(t.Toks[i-1].S, k.S):
			default:
				l.blanks(r, &sb)
			}
		}
		if lineStart && r.P(1, 3) && l.Wide > 0 {
			l.blanks(r, &sb)
		}
		k.Off = sb.Len()
		sb.WriteString(k.S)
		k.End = sb.Len()
		lineStart = false
		if (k.EntryEnd || k.RuleEnd) && l.Comments > 0 && r.P(l.Comments, 100) {
			if r.P(3, 4) {
				l.blanks(r, &sb)
			}
			c := l.comment(r)
			sb.WriteString(";" + c)
			t.Comments = append(t.Comments, c)
			t.Trail[i] = c
			nl()
			lineStart = true
		}
	}
	if l.Comments > 0 && r.P(l.Comments, 100) {
		ownLines(len(t.Toks), true, false)
	}
	if !lineStart && r.P(1, 2) {
		nl()
	}
	t.Src = []byte(sb.String())
	line, start, at := 1, 0, 0
	for i := range t.Toks {
		for ; at < t.Toks[i].Off; at++ {
			if t.Src[at] == '\n' {
				line, start = line+1, at+1
			}
		}
		t.Toks[i].Line, t.Toks[i].Col = line, t.Toks[i].Off-start+1
	}
	return t
}

// expected trees --------------------------------------------------------------------------------------------

// Expect renders the tree a node must parse to. With a text it includes the positions.
func Expect(n *N, t *Text) string {
	var sb strings.Builder
	expect(&sb, n, t)
	return sb.String()
}

func posOf(t *Text, i int) string {
	if t == nil || t.NoPos {
		return ""
	}
	k := t.Toks[i]
	return fmt.Sprintf("@%d:%d:%d", k.Off, k.Line, k.Col)
}

func opPos(t *Text, i int) string {
	if t == nil || t.NoPos {
		return ""
	}
	return "^" + posOf(t, i)[1:]
}

var primNode = map[string]string{
	"bool": "BooleanType:bool", "tstr": "TstrType:tstr", "text": "TstrType:text", "float": "FloatType:float", "float16": "FloatType:float16",
	"float32": "FloatType:float32", "float64": "FloatType:float64", "uint": "UintType:uint", "int": "IntegerType:int", "nint": "NegativeIntegerType:nint",
	"bstr": "BstrType:bstr", "bytes": "BytesType:bytes", "null": "NullType:null", "nil": "NullType:nil",
}

func floatText(s string) string {
	f, _ := strconv.ParseFloat(s, 64)
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func intText(s string) string {
	v, _ := strconv.ParseUint(s, 0, 64)
	return strconv.FormatUint(v, 10)
}

func expect(sb *strings.Builder, n *N, t *Text) {
	switch n.K {
	case "ident":
		fmt.Fprintf(sb, "(ident%s %s)", posOf(t, n.start), n.S)
	case "prim":
		fmt.Fprintf(sb, "(%s%s)", primNode[n.S], posOf(t, n.start))
	case "bool":
		fmt.Fprintf(sb, "(boollit%s %s)", posOf(t, n.start), n.S)
	case "int":
		fmt.Fprintf(sb, "(intlit%s %s)", posOf(t, n.start), intText(n.S))
	case "float":
		fmt.Fprintf(sb, "(floatlit%s %s)", posOf(t, n.start), floatText(n.S))
	case "text":
		fmt.Fprintf(sb, "(textlit%s %q)", posOf(t, n.start), n.S)
	case "group", "array", "map":
		fmt.Fprintf(sb, "(%s%s", n.K, posOf(t, n.start))
		for _, k := range n.Kids {
			sb.WriteByte(' ')
			expect(sb, k, t)
		}
		sb.WriteByte(')')
	case "entry":
		fmt.Fprintf(sb, "(entry%s%s ", posOf(t, n.start), opPos(t, n.op))
		key := *n.Kids[0]
		if key.K == "int" {
			key.S = intText(key.S)
			key.K = "ident"
		}
		expect(sb, &key, t)
		sb.WriteByte(' ')
		expect(sb, n.Kids[1], t)
		if t != nil && !t.NoComments {
			// the comment behind the entry
			end := n.last
			if n.comma >= 0 {
				end = n.comma
			}
			if c, ok := t.Trail[end]; ok {
				fmt.Fprintf(sb, " ;%q", c)
			}
		}
		sb.WriteByte(')')
	case "choice", "gchoice":
		fmt.Fprintf(sb, "(%s%s%s ", n.K, posOf(t, n.start), opPos(t, n.op))
		expect(sb, n.Kids[0], t)
		sb.WriteByte(' ')
		expect(sb, n.Kids[1], t)
		sb.WriteByte(')')
	case "range":
		fmt.Fprintf(sb, "(range%s%s%s ", n.S, posOf(t, n.start), opPos(t, n.op))
		expect(sb, n.Kids[0], t)
		sb.WriteByte(' ')
		expect(sb, n.Kids[1], t)
		sb.WriteByte(')')
	case "ctl":
		fmt.Fprintf(sb, "(%s%s%s ", n.S, posOf(t, n.start), opPos(t, n.op))
		expect(sb, n.Kids[0], t)
		sb.WriteByte(' ')
		expect(sb, n.Kids[1], t)
		sb.WriteByte(')')
	case "unwrap", "enum", "opt":
		fmt.Fprintf(sb, "(%s%s ", n.K, posOf(t, n.start))
		expect(sb, n.Kids[0], t)
		sb.WriteByte(')')
	case "occ":
		fmt.Fprintf(sb, "(occ%s%s", posOf(t, n.start), opPos(t, n.op))
		low := "0"
		if n.S == "+" {
			low = "1"
		}
		lowTok := n.op
		if n.N0 != nil {
			low, lowTok = intText(n.N0.S), n.N0.start
		}
		fmt.Fprintf(sb, " %s%s..", low, posOf(t, lowTok))
		if n.M != nil {
			fmt.Fprintf(sb, "%s%s", intText(n.M.S), posOf(t, n.M.start))
		}
		sb.WriteByte(' ')
		expect(sb, n.Kids[0], t)
		sb.WriteByte(')')
	case "tag":
		fmt.Fprintf(sb, "(tag%s", posOf(t, n.start))
		if n.S != "" {
			parts := strings.SplitN(n.S, ".", 2)
			fmt.Fprintf(sb, " #%s%s", intText(parts[0]), posOf(t, n.m))
			if len(parts) > 1 {
				fmt.Fprintf(sb, " .%s%s", intText(parts[1]), posOf(t, n.m))
			}
		}
		if len(n.Kids) > 0 {
			sb.WriteByte(' ')
			expect(sb, n.Kids[0], t)
		}
		sb.WriteByte(')')
	default:
		panic("expect: " + n.K)
	}
}

// ExpectRules renders the rules of a schema: with a text including positions and comments
func ExpectRules(s *Schema, t *Text) []string {
	var out []string
	lead := func(i int) {
		if t == nil || t.NoComments || len(t.Lead[i]) == 0 {
			return
		}
		out = append(out, fmt.Sprintf("comments %q", t.Lead[i]))
	}
	for _, r := range s.Rules {
		lead(r.first)
		line := fmt.Sprintf("(rule%s (ident%s %s) %s", posOf(t, r.first), posOf(t, r.first), r.Name, Expect(r.Value, t))
		if t != nil && !t.NoComments {
			if c, ok := t.Trail[r.last]; ok {
				line += fmt.Sprintf(" ;%q", c)
			}
		}
		out = append(out, line+")")
	}
	if t != nil {
		lead(len(t.Toks))
	}
	return out
}
