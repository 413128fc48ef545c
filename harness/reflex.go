// The reference lexer: CDDL's lexical rules written down independently of package lexer, as longest match
// over regular expressions instead of a character dispatch.
package main

import (
	"bytes"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
)

// RTok is a token of the reference or of the lexer under test
type RTok struct {
	Tok       token.Token
	Lit       string
	Off       int
	End       int // offset behind the source text of the token
	Line, Col int
	Err       bool // an unterminated text literal
}

var (
	reIdent   = regexp.MustCompile(`^[A-Za-z@_$](?:[.\-]*[A-Za-z0-9@_$]+)*`)
	reHex     = regexp.MustCompile(`^0x[0-9A-Fa-f]*`)
	reBin     = regexp.MustCompile(`^0b[01]*`)
	reOct     = regexp.MustCompile(`^0o[0-7]*`)
	reNum     = regexp.MustCompile(`^[0-9]+(\.[0-9]+)*`)
	reControl = regexp.MustCompile(`^\.[A-Za-z]+`)
)

// the words of the language
var refWords = map[string]token.Token{
	"int": token.INT, "uint": token.UINT, "nint": token.NINT,
	"float": token.FLOAT, "float16": token.FLOAT16, "float32": token.FLOAT32, "float64": token.FLOAT64,
	"tstr": token.TSTR, "text": token.TEXT, "bytes": token.BYTES, "bstr": token.BSTR,
	"bool": token.BOOL, "true": token.TRUE, "false": token.FALSE, "nil": token.NIL, "null": token.NULL, "any": token.ANY,
}

var refControls = map[string]token.Token{
	".size": token.SIZE, ".bits": token.BITS, ".regexp": token.REGEXP, ".cbor": token.CBOR, ".cborseq": token.CBORSEQ,
	".within": token.WITHIN, ".and": token.AND, ".lt": token.LT, ".le": token.LE, ".gt": token.GT, ".ge": token.GE,
	".eq": token.EQ, ".ne": token.NE, ".default": token.DEFAULT, ".plus": token.PLUS, ".cat": token.CAT, ".det": token.DET,
	".abnf": token.ABNF, ".abnfb": token.ABNFB, ".feature": token.FEATURE,
}

// longest first
var refOps = []struct {
	s string
	t token.Token
}{
	{"//=", token.GROUP_CHOICE_ASSIGN}, {"...", token.EXCLUSIVE_BOUND},
	{"//", token.GROUP_CHOICE}, {"/=", token.TYPE_CHOICE_ASSIGN}, {"=>", token.ARROW_MAP}, {"..", token.INCLUSIVE_BOUND},
	{"/", token.TYPE_CHOICE}, {"=", token.ASSIGN}, {".", token.PERIOD}, {"-", token.MINUS}, {"?", token.OPTIONAL},
	{":", token.COLON}, {",", token.COMMA}, {"(", token.LPAREN}, {")", token.RPAREN}, {"{", token.LBRACE}, {"}", token.RBRACE},
	{"[", token.LBRACK}, {"]", token.RBRACK}, {"+", token.ONE_OR_MORE}, {"*", token.ZERO_OR_MORE}, {"<", token.LEFT_ANGLE_BRACKET},
	{">", token.RIGHT_ANGLE_BRACKET}, {"#", token.HASH}, {"~", token.UNWRAP}, {"&", token.AMPERSAND},
}

// RefLex returns the tokens of a source up to and including EOF
func RefLex(src []byte) []RTok {
	var out []RTok
	line, lineStart, i := 1, 0, 0
	for {
		for i < len(src) && strings.IndexByte(" \t\r\n", src[i]) >= 0 {
			if src[i] == '\n' {
				line++
				lineStart = i + 1
			}
			i++
		}
		t := RTok{Off: i, Line: line, Col: i - lineStart + 1}
		if i >= len(src) {
			t.Tok, t.End = token.EOF, i
			return append(out, t)
		}
		rest := src[i:]
		n := 0
		switch c := rest[0]; {
		case c == ';':
			n = len(rest)
			if k := bytes.IndexByte(rest, '\n'); k >= 0 {
				n = k
			}
			t.Tok = token.COMMENT
			t.Lit = strings.TrimSuffix(string(rest[1:n]), "\r")
			if n > 1 && len(t.Lit) < n-1 {
				n-- // the carriage return belongs to the end of the line
			}
		case c == '"':
			k := bytes.IndexAny(rest[1:], "\"\n")
			t.Tok = token.TEXT_LITERAL
			switch {
			case k < 0:
				n, t.Err = len(rest), true
				t.Lit = string(rest[1:])
			case rest[1+k] == '\n':
				n, t.Err = 1+k, true
				t.Lit = string(rest[1:n])
			default:
				n = k + 2
				t.Lit = string(rest[1 : n-1])
			}
		case reIdent.Match(rest):
			t.Lit = string(reIdent.Find(rest))
			n = len(t.Lit)
			t.Tok = token.IDENT
			if w, ok := refWords[t.Lit]; ok {
				t.Tok = w
			}
		case c >= '0' && c <= '9':
			t.Tok = token.INT
			m := reHex.Find(rest)
			if m == nil {
				m = reBin.Find(rest)
			}
			if m == nil {
				m = reOct.Find(rest)
			}
			if m == nil {
				m = reNum.Find(rest)
				if bytes.IndexByte(m, '.') >= 0 {
					t.Tok = token.FLOAT
				}
			}
			t.Lit, n = string(m), len(m)
		case c == '.' && reControl.Match(rest):
			t.Lit = string(reControl.Find(rest))
			n = len(t.Lit)
			t.Tok = token.ILLEGAL
			if w, ok := refControls[t.Lit]; ok {
				t.Tok = w
			}
		default:
			found := false
			for _, op := range refOps {
				if bytes.HasPrefix(rest, []byte(op.s)) {
					t.Tok, t.Lit, n, found = op.t, op.s, len(op.s), true
					break
				}
			}
			if !found {
				_, n = utf8.DecodeRune(rest)
				t.Tok, t.Lit = token.ILLEGAL, string(rest[:n])
			}
		}
		i += n
		t.End = i
		out = append(out, t)
	}
}

// realLex runs the lexer under test. The number of tokens is bounded by the length of the source, so a lexer
// that makes no progress is cut short and reported by ok.
func realLex(src []byte) (toks []RTok, lex *lexer.Lexer, ok bool) {
	lex = lexer.NewLexer(src)
	for i := 0; i <= len(src)+1; i++ {
		tok, pos, lit := lex.Scan()
		toks = append(toks, RTok{Tok: tok, Lit: lit, Off: pos.Offset, Line: pos.Line, Col: pos.Column})
		if tok == token.EOF {
			return toks, lex, true
		}
	}
	return toks, lex, false
}

func hasLexError(toks []RTok) bool {
	for _, t := range toks {
		if t.Tok == token.ILLEGAL || t.Err {
			return true
		}
	}
	return false
}

// linecol computes the position of an offset
func linecol(src []byte, off int) (line, col int) {
	line = 1 + bytes.Count(src[:off], []byte{'\n'})
	return line, off - (bytes.LastIndexByte(src[:off], '\n') + 1) + 1
}
