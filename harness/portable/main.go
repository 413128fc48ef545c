// portable answers questions about inputs with everything that is observable of the library's results. It is built for
// several platforms, whose answers are compared: one line of JSON per question, and one per answer.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"regexp"
	"runtime"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/config"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/runtime/validators"
	"github.com/HannesKimara/cddlc/token"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

type question struct {
	Kind string
	Pkg  string
	Src  []byte
	Full bool // the answer itself, otherwise its digest
}

type answer struct {
	Len    int
	Digest string
	Text   string
}

func main() {
	log.SetOutput(io.Discard)
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := bufio.NewWriter(os.Stdout)
	fmt.Fprintf(out, "%s/%s\n", runtime.GOOS, runtime.GOARCH)
	for {
		var q question
		if err := in.Decode(&q); err != nil {
			out.Flush()
			if err != io.EOF {
				os.Exit(3)
			}
			return
		}
		res := observe(q)
		sum := sha256.Sum256([]byte(res))
		a := answer{Len: len(res), Digest: hex.EncodeToString(sum[:])}
		if q.Full {
			a.Text = res
		}
		b, _ := json.Marshal(a)
		out.Write(append(b, '\n'))
	}
}

type visitor func(ast.Node)

func (v visitor) Visit(n ast.Node) astutils.Visitor {
	v(n)
	return v
}

func diagnostics(sb *strings.Builder, errs parser.ErrorList) {
	for _, e := range errs {
		fmt.Fprintf(sb, "%v %+v %v %+v %s | %s | %s\n", e.Start(), e.Start(), e.End(), e.End(), e.Error(), e.String(), e.Diagnostic())
	}
	sb.WriteString(errs.String())
}

func tree(sb *strings.Builder, cddl *ast.CDDL) {
	b, err := json.Marshal(cddl)
	fmt.Fprintf(sb, "%s %v\n", b, err)
}

var pattern = regexp.MustCompile(`[a-c]+=\s?(int|tstr)`)

func observe(q question) (res string) {
	var sb strings.Builder
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("%spanic: %v", sb.String(), r)
		}
	}()
	switch q.Kind {
	case "lex":
		l := lexer.NewLexer(q.Src)
		for i := 0; i <= len(q.Src)+1; i++ {
			tok, pos, lit := l.Scan()
			fmt.Fprintf(&sb, "%d %v %v %+v %q %d\n", tok, tok, pos, pos, lit, tok.Precedence())
			if tok == token.EOF {
				break
			}
		}
	case "parse":
		cddl, errs := parser.NewParser(lexer.NewLexer(q.Src)).ParseFile()
		tree(&sb, cddl)
		diagnostics(&sb, errs)
		for _, r := range cddl.Rules {
			sb.WriteString(astutils.Format(r))
			if ru, ok := r.(*ast.Rule); ok && ru.Value != nil {
				sb.WriteString(astutils.Format(ru.Value))
			}
		}
		astutils.Walk(visitor(func(n ast.Node) { fmt.Fprintf(&sb, "%T ", n) }), cddl)
	case "session":
		env := environment.NewEnvironment()
		for _, line := range bytes.Split(q.Src, []byte("\n")) {
			cddl, errs := parser.NewParser(lexer.NewLexer(line), parser.WithEnv(env)).ParseFile()
			tree(&sb, cddl)
			diagnostics(&sb, errs)
		}
	case "generate":
		cddl, _ := parser.NewParser(lexer.NewLexer(q.Src)).ParseFile()
		g := gogen.NewGenerator(q.Pkg)
		g.Visit(cddl)
		err := g.String(&sb)
		fmt.Fprintf(&sb, "%v", err)
	case "config": // the path of a file
		cfg, err := config.LoadConfig(string(q.Src))
		b, _ := json.Marshal(cfg)
		fmt.Fprintf(&sb, "%s %v", b, err)
		if cfg != nil {
			fmt.Fprintf(&sb, " %v", cfg.Valid())
		}
	case "validate":
		b := append(append([]byte{}, q.Src...), make([]byte, 24)...)
		n := func(i int) uint64 { return binary.LittleEndian.Uint64(b[i:]) }
		for i := 0; i+24 <= len(b); i += 3 {
			x, y, z := n(i), n(i+8), n(i+16)
			if i%2 == 0 { // close to each other
				y, z = x+y%3, x-z%3
			}
			fmt.Fprint(&sb, rel(x, y, z), rel(int64(x), int64(y), int64(z)), rel(uint32(x), uint32(y), uint32(z)), rel(int32(x), int32(y), int32(z)),
				rel(uint16(x), uint16(y), uint16(z)), rel(int16(x), int16(y), int16(z)), rel(uint8(x), uint8(y), uint8(z)), rel(int8(x), int8(y), int8(z)),
				rel(math.Float64frombits(x), math.Float64frombits(y), math.Float64frombits(z)), rel(math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y)), math.Float32frombits(uint32(z))),
				rel(float64(x), float64(y), float64(z)), rel(float32(x), float32(y), float32(z)), "\n")
			s := uint(x % 40)
			fmt.Fprint(&sb, validators.CheckSize(x, s), validators.CheckSize(int32(x), s), validators.CheckSize(float64(x), s), validators.CheckSize(true, s), validators.CheckSize([3]uint16{}, s),
				validators.CheckSize(x, 1<<31), validators.RegexpMatches(pattern, string(b[i:])), "\n")
		}
	}
	return sb.String()
}

func rel[T validators.NumericOrdered](x, y, z T) []bool {
	return []bool{validators.InInclusiveRange(x, y, z), validators.InExclusiveRange(x, y, z), validators.InInclusiveRange(x, z, y), validators.InExclusiveRange(x, z, y), validators.IsLessThan(x, y), validators.IsGreaterThan(x, z)}
}
