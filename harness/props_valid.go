// V01, V02: the runtime validators
package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/runtime/validators"
)

// num is a mathematical value: a rational, or one of the infinities, or not a number
type num struct {
	r   *big.Rat
	inf int
	nan bool
}

func numOf(v interface{}) num {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Float32, reflect.Float64:
		f := rv.Float()
		switch {
		case f != f:
			return num{nan: true}
		case math.IsInf(f, 1):
			return num{inf: 1}
		case math.IsInf(f, -1):
			return num{inf: -1}
		}
		return num{r: new(big.Rat).SetFloat64(f)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return num{r: new(big.Rat).SetInt(new(big.Int).SetUint64(rv.Uint()))}
	}
	return num{r: new(big.Rat).SetInt64(rv.Int())}
}

// below tells whether a < b, orSame whether a <= b holds as well for equal values
func below(a, b num, orSame bool) bool {
	if a.nan || b.nan {
		return false
	}
	if a.inf != 0 || b.inf != 0 {
		return a.inf < b.inf || orSame && a.inf == b.inf
	}
	c := a.r.Cmp(b.r)
	return c < 0 || orSame && c == 0
}

type (
	myInt    int
	myByte   uint8
	myBool   bool
	myInt16  int16
	myUint32 uint32
	myUint64 uint64
	myAlias  = uint16

	myComplex complex128
	myFloat   float64
	myFloat4  float32
	myLong    int64
)

func v01[X validators.NumericOrdered](t *T, vals []X) {
	name := reflect.TypeOf(vals[0]).String()
	nums := make([]num, len(vals))
	for i, v := range vals {
		nums[i] = numOf(v)
	}
	bad := func(fn string, want bool, args ...interface{}) {
		t.Fail("%s[%s]%v is %v", fn, name, args, !want)
	}
	n := 0
	for i, a := range vals {
		for j, b := range vals {
			lt := below(nums[i], nums[j], false)
			if validators.IsLessThan(a, b) != lt {
				bad("IsLessThan", lt, a, b)
			}
			gt := below(nums[j], nums[i], false)
			if validators.IsGreaterThan(a, b) != gt {
				bad("IsGreaterThan", gt, a, b)
			}
			n += 2
			for k, c := range vals {
				in := below(nums[j], nums[i], true) && below(nums[i], nums[k], true)
				if validators.InInclusiveRange(a, b, c) != in {
					bad("InInclusiveRange", in, a, b, c)
				}
				ex := gt && below(nums[i], nums[k], false)
				if validators.InExclusiveRange(a, b, c) != ex {
					bad("InExclusiveRange", ex, a, b, c)
				}
				n += 2
			}
			t.Distinct(name, fmt.Sprint(a, " ", b), fmt.Sprint(lt, gt))
		}
	}
	t.Count("relations decided for "+name, n)
}

func intVals[X ~int | ~int8 | ~int16 | ~int32 | ~int64](t *T, bits uint, n int) (out []X) {
	lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	for _, v := range []int64{lo, lo + 1, hi, hi - 1, 0, 1, -1} {
		out = append(out, X(v))
	}
	for len(out) < n {
		v := int64(t.Uint64()) >> uint(t.Intn(64))
		if v >= lo && v <= hi {
			out = append(out, X(v))
			if v < hi && t.P(1, 2) {
				out = append(out, X(v+1))
			}
		}
	}
	return out
}

func uintVals[X ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](t *T, bits uint, n int) (out []X) {
	hi := ^uint64(0) >> (64 - bits)
	for _, v := range []uint64{0, 1, 2, hi, hi - 1, hi / 2, hi/2 + 1} {
		out = append(out, X(v))
	}
	for len(out) < n {
		v := t.Uint64() >> uint(t.Intn(64))
		if v <= hi {
			out = append(out, X(v))
			if v < hi && t.P(1, 2) {
				out = append(out, X(v+1))
			}
		}
	}
	return out
}

func floatVals[X ~float32 | ~float64](t *T, single bool, n int) (out []X) {
	for _, v := range []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 1e16 + 2} {
		out = append(out, X(v))
	}
	if single {
		out = append(out, X(float32(math.MaxFloat32)), X(float32(math.SmallestNonzeroFloat32)), X(-float32(math.MaxFloat32)), X(float32(16777216)), X(float32(16777217)))
	} else {
		m := math.MaxFloat64
		s := math.SmallestNonzeroFloat64
		out = append(out, X(m), X(s), X(-m), X(-s), X(math.Nextafter(1, 2)), X(math.Nextafter(1, 0)))
	}
	for len(out) < n {
		var v float64
		if single {
			v = float64(math.Float32frombits(uint32(t.Uint64())))
			out = append(out, X(v), X(math.Nextafter32(float32(v), float32(math.Inf(1)))))
		} else {
			v = math.Float64frombits(t.Uint64())
			out = append(out, X(v), X(math.Nextafter(v, math.Inf(-1))))
		}
	}
	return out
}

type flatStruct struct {
	A int32
	B uint8
}

var propV01 = &Property{ID: "V01",
	Rule:        "all pairs and triples of extreme, neighbouring and random values of all sixteen numeric types (and named types of them), exhaustively for pairs of 8 bit types, compared with exact rational arithmetic; sizes around the exact one for values of fixed size; non-trivial: distinct (type, pair, outcome)",
	Assumptions: []string{"the size validator is specified for fixed size scalars only"},
	Run: func(c *Ctx) {
		n := c.Pick(30, 60)
		c.DoN("triples", c.Pick(48, 800), func(t *T, i int) {
			switch i % 16 {
			case 0:
				v01(t, intVals[int8](t, 8, n))
			case 1:
				v01(t, intVals[int16](t, 16, n))
			case 2:
				v01(t, intVals[int32](t, 32, n))
			case 3:
				v01(t, intVals[int64](t, 64, n))
			case 4:
				v01(t, intVals[int](t, 64, n))
			case 5:
				v01(t, uintVals[uint8](t, 8, n))
			case 6:
				v01(t, uintVals[uint16](t, 16, n))
			case 7:
				v01(t, uintVals[uint32](t, 32, n))
			case 8:
				v01(t, uintVals[uint64](t, 64, n))
			case 9:
				v01(t, uintVals[uint](t, 64, n))
			case 10:
				v01(t, uintVals[uintptr](t, 64, n))
			case 11:
				v01(t, floatVals[float32](t, true, n))
			case 12:
				v01(t, floatVals[float64](t, false, n))
			case 13:
				v01(t, floatVals[myFloat](t, false, n))
				v01(t, floatVals[myFloat4](t, true, n))
			case 14:
				v01(t, intVals[myInt](t, 64, n))
				v01(t, intVals[myLong](t, 64, n))
			case 15:
				v01(t, uintVals[myByte](t, 8, n))
			}
			t.Rearm()
		})
		c.DoN("bytes", 256, func(t *T, i int) {
			for b := 0; b < 256; b++ {
				x, y := int8(i), int8(b)
				u, v := uint8(i), uint8(b)
				if validators.IsLessThan(x, y) != (int(x) < int(y)) || validators.IsGreaterThan(x, y) != (int(x) > int(y)) ||
					validators.IsLessThan(u, v) != (i < b) || validators.IsGreaterThan(u, v) != (i > b) {
					t.Fail("comparing %d with %d (or %d with %d) is wrong", x, y, u, v)
				}
				for _, w := range []int{0, 1, 127, 128, 129, 254, 255, i, i - 1, i + 1} {
					z, p := int8(w), uint8(w)
					if validators.InInclusiveRange(x, y, z) != (int(x) >= int(y) && int(x) <= int(z)) || validators.InExclusiveRange(x, y, z) != (int(x) > int(y) && int(x) < int(z)) ||
						validators.InInclusiveRange(u, v, p) != (u >= v && u <= p) || validators.InExclusiveRange(u, v, p) != (u > v && u < p) {
						t.Fail("range of %d in %d..%d (or %d in %d..%d) is wrong", x, y, z, u, v, p)
					}
				}
			}
			t.Count("8 bit pairs decided", 256)
			t.Distinct("8bit", t.Name)
		})
		sized := []struct {
			v interface{}
			n uint
		}{{true, 1}, {int8(-1), 1}, {uint8(200), 1}, {int16(3), 2}, {uint16(0), 2}, {int32(-9), 4}, {uint32(1 << 31), 4}, {int64(1), 8}, {uint64(math.MaxUint64), 8},
			{float32(1.5), 4}, {float64(math.NaN()), 8}, {complex64(1), 8}, {complex128(1), 16}, {myByte(1), 1}, {myFloat(1), 8}, {myLong(0), 8}, {'x', 4},
			{myBool(true), 1}, {myInt16(3), 2}, {myUint32(3), 4}, {myUint64(3), 8}, {myFloat4(1), 4}, {myComplex(1), 16}, {time.Duration(1), 8}, {os.FileMode(1), 4}, {reflect.Bool, 8}, {myAlias(1), 2}, {struct{ a, b uint32 }{}.a, 4}}
		c.DoN("size", len(sized), func(t *T, i int) {
			s := sized[i]
			for _, lim := range []uint{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 64, 255, 256, 65536, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, math.MaxUint} {
				if got := validators.CheckSize(s.v, lim); got != (s.n < lim) {
					t.Fail("CheckSize(%T, %d) is %v, the value has %d bytes", s.v, lim, got, s.n)
				}
				t.Count("sizes decided", 1)
				t.Distinct("size", fmt.Sprintf("%T %d", s.v, lim))
			}
		})
	}}

// V02 -------------------------------------------------------------------------------------------------------

// re is a pattern with its own naive matcher: match returns the set of ends of a match that starts at i
type re struct {
	op   byte // l literal, . any, c class, s sequence, | choice, * + ? {, ^, $, b word boundary
	r    rune
	set  [][2]rune
	neg  bool
	kids []*re
	lo   int
	hi   int
}

type rtext []rune

func decode(s string) (out rtext) {
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		out = append(out, r)
		s = s[n:]
	}
	return out
}

func (e *re) ends(x rtext, i int) map[int]bool {
	out := map[int]bool{}
	one := func(ok bool) {
		if ok {
			out[i+1] = true
		}
	}
	switch e.op {
	case 'l':
		one(i < len(x) && x[i] == e.r)
	case '.':
		one(i < len(x) && x[i] != '\n')
	case 'c':
		if i < len(x) {
			in := false
			for _, s := range e.set {
				in = in || x[i] >= s[0] && x[i] <= s[1]
			}
			one(in != e.neg)
		}
	case '^':
		if i == 0 {
			out[i] = true
		}
	case '$':
		if i == len(x) {
			out[i] = true
		}
	case 's':
		cur := map[int]bool{i: true}
		for _, k := range e.kids {
			next := map[int]bool{}
			for p := range cur {
				for q := range k.ends(x, p) {
					next[q] = true
				}
			}
			cur = next
		}
		return cur
	case '|':
		for _, k := range e.kids {
			for q := range k.ends(x, i) {
				out[q] = true
			}
		}
	case '*':
		cur := map[int]bool{i: true}
		for n := 0; len(cur) > 0 && (e.hi < 0 || n <= e.hi); n++ {
			if n >= e.lo {
				for p := range cur {
					out[p] = true
				}
			}
			if n > len(x)+e.lo+1 {
				break
			}
			next := map[int]bool{}
			for p := range cur {
				for q := range e.kids[0].ends(x, p) {
					next[q] = true
				}
			}
			cur = next
		}
	}
	return out
}

func (e *re) anywhere(x rtext) bool {
	for i := 0; i <= len(x); i++ {
		if len(e.ends(x, i)) > 0 {
			return true
		}
	}
	return false
}

func (e *re) String() string {
	kid := func(i int) string { return "(?:" + e.kids[i].String() + ")" }
	switch e.op {
	case 'l':
		if e.r == '\n' {
			return `\n`
		}
		return regexp.QuoteMeta(string(e.r))
	case '.', '^', '$':
		return string(rune(e.op))
	case 'c':
		s := "["
		if e.neg {
			s += "^"
		}
		for _, p := range e.set {
			s += string(p[0]) + "-" + string(p[1])
		}
		return s + "]"
	case 's', '|':
		var p []string
		for i := range e.kids {
			p = append(p, kid(i))
		}
		if e.op == '|' {
			return strings.Join(p, "|")
		}
		return strings.Join(p, "")
	}
	switch {
	case e.lo == 0 && e.hi < 0:
		return kid(0) + "*"
	case e.lo == 1 && e.hi < 0:
		return kid(0) + "+?"
	case e.lo == 0 && e.hi == 1:
		return kid(0) + "?"
	}
	return fmt.Sprintf("%s{%d,%d}", kid(0), e.lo, e.hi)
}

var reRunes = []rune("aabbc0 \n-é日\uFFFD😀\x00")

func genRE(r *Rand, depth int) *re {
	if depth == 0 || r.P(1, 3) {
		switch r.W(8, 2, 3, 1, 1) {
		case 0:
			return &re{op: 'l', r: reRunes[r.Intn(len(reRunes))]}
		case 1:
			return &re{op: '.'}
		case 2:
			sets := [][2]rune{{'a', 'c'}, {'0', '9'}, {'b', 'z'}, {'à', 'ÿ'}, {'一', '龥'}}
			e := &re{op: 'c', neg: r.P(1, 4)}
			for n := r.Range(1, 2); n > 0; n-- {
				e.set = append(e.set, sets[r.Intn(len(sets))])
			}
			return e
		case 3:
			return &re{op: '^'}
		}
		return &re{op: '$'}
	}
	switch r.Intn(4) {
	case 0, 1:
		e := &re{op: 's'}
		for n := r.Range(0, 3); n > 0; n-- {
			e.kids = append(e.kids, genRE(r, depth-1))
		}
		return e
	case 2:
		e := &re{op: '|'}
		for n := r.Range(1, 3); n > 0; n-- {
			e.kids = append(e.kids, genRE(r, depth-1))
		}
		return e
	}
	e := &re{op: '*', hi: -1, kids: []*re{genRE(r, depth-1)}}
	switch r.Intn(4) {
	case 1:
		e.lo = 1
	case 2:
		e.hi = 1
	case 3:
		e.lo = r.Intn(3)
		e.hi = e.lo + r.Intn(3)
		if e.hi == 0 {
			e.hi = 1
		}
	}
	return e
}

type ownErr struct{ n int }

func (e *ownErr) Error() string { return fmt.Sprint("own ", e.n) }

type badErr struct{}

func (badErr) Error() string { panic("the text of the error is not to be asked for") }

func panicOf(f func()) (v interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			v = recover()
		}
	}()
	f()
	return nil, false
}

var propV02 = &Property{ID: "V02",
	Rule: "generated patterns with a naive matcher of their own (sets of reachable positions) against texts with matches planted at the start, inside and at the end, with line breaks, zero and invalid bytes; assertion panics compared with the given values; non-trivial: distinct (pattern, text, outcome)",
	Run: func(c *Ctx) {
		c.DoN("match", c.N(4000, 200000), func(t *T, i int) {
			e := genRE(t.Rand, 3)
			pat := e.String()
			rx, err := regexp.Compile(pat)
			if err != nil {
				t.Count("pattern rejected", 1)
				return
			}
			if i%7 == 3 {
				rx.Longest()
			}
			for k := 0; k < 12; k++ {
				var sb strings.Builder
				for n := t.Intn(9); n > 0; n-- {
					switch t.Intn(12) {
					case 0:
						sb.WriteString([]string{"\xff", "\x80", "\xed\xa0\x80", "\xf0\x9f\x98"}[t.Intn(4)])
					default:
						sb.WriteRune(reRunes[t.Intn(len(reRunes))])
					}
				}
				s := sb.String()
				if k == 0 {
					s = ""
				}
				t.Input([]byte(pat + "\x00" + s))
				want := e.anywhere(decode(s))
				if got := validators.RegexpMatches(rx, s); got != want {
					t.Fail("RegexpMatches(%q, %q) is %v", pat, s, got)
				}
				t.Count(fmt.Sprintf("outcome %v", want), 1)
				t.Distinct(pat, s)
				if t.P(1, 6000) {
					t.Sample("%q on %q: %v", pat, s, want)
				}
			}
		})
		// a literal text between anchors
		c.DoN("anchored", c.N(3000, 100000), func(t *T, i int) {
			var lit, junk strings.Builder
			for n := t.Range(0, 6); n > 0; n-- {
				if r := reRunes[t.Intn(len(reRunes))]; r != utf8.RuneError { // matches undecodable bytes as well
					lit.WriteRune(r)
				}
			}
			l := lit.String()
			pre := t.Pick([]string{"", "^", "\\A", "(?m)^", "(?m)\\A"})
			suf := t.Pick([]string{"", "$", "\\z", "(?:)$"})
			pat := pre + regexp.QuoteMeta(l) + suf
			if t.P(1, 3) {
				pat = pre + "(" + regexp.QuoteMeta(l) + ")" + suf
			}
			rx := regexp.MustCompile(pat)
			multi := strings.HasPrefix(pre, "(?m)")
			for k := 0; k < 10; k++ {
				junk.Reset()
				for n := t.Intn(4); n > 0; n-- {
					junk.WriteString(t.Pick([]string{"a", "\n", "b", " ", l, "\r\n", "\x00", "\xff"}))
				}
				s := []string{l, l + junk.String(), junk.String() + l, junk.String() + l + junk.String(), l + "\n", "\n" + l, junk.String(), ""}[t.Intn(8)]
				want := false
				for at := 0; at <= len(s) && !want; at++ {
					if !strings.HasPrefix(s[at:], l) {
						continue
					}
					end := at + len(l)
					first := pre == "" || at == 0 || pre == "(?m)^" && s[at-1] == '\n'
					last := suf == "" || end == len(s) || multi && strings.HasSuffix(suf, "$") && s[end] == '\n'
					want = first && last
				}
				t.Input([]byte(pat + "\x00" + s))
				if got := validators.RegexpMatches(rx, s); got != want {
					t.Fail("RegexpMatches(%q, %q) is %v", pat, s, got)
				}
				t.Count(fmt.Sprintf("anchored %v", want), 1)
				t.Distinct(pat, s)
			}
		})
		c.DoN("long", c.Pick(40, 400), func(t *T, i int) {
			n := t.Range(1, 200000)
			s := strings.Repeat("a", n) + "b" + strings.Repeat("c", t.Intn(100000))
			for _, p := range []struct {
				pat  string
				want bool
			}{{"ab", true}, {"^a+b", true}, {"bb", false}, {"^b", false}, {"c$", strings.HasSuffix(s, "c")}, {"b", true}, {"d", false}, {"", true}, {"(a*)*d", false}} {
				if validators.RegexpMatches(regexp.MustCompile(p.pat), s) != p.want {
					t.Fail("RegexpMatches(%q, a*%d b c*) is not %v", p.pat, n, p.want)
				}
			}
			t.Rearm()
			t.Distinct("long", fmt.Sprint(len(s)))
		})
		c.Do("assertions", func(t *T) {
			if _, p := panicOf(func() { validators.MustBool(true) }); p {
				t.Fail("MustBool(true) panics")
			}
			if _, p := panicOf(func() { validators.MustBool(false) }); !p {
				t.Fail("MustBool(false) does not panic")
			}
			if _, p := panicOf(func() { validators.MustNotErr(nil) }); p {
				t.Fail("MustNotErr(nil) panics")
			}
			own := &ownErr{3}
			errs := []error{errors.New(""), errors.New("x"), own, fmt.Errorf("wrapped: %w", own), (*ownErr)(nil), badErr{}, errors.Join(own, errors.New("y"))}
			for _, e := range errs {
				v, p := panicOf(func() { validators.MustNotErr(e) })
				if !p {
					t.Fail("MustNotErr(%T) does not panic", e)
				}
				if ve, ok := v.(error); !ok || ve != e {
					t.Fail("MustNotErr panics with %T instead of the error %T", v, e)
				}
				t.Count("panic values compared", 1)
				t.Distinct("err", fmt.Sprintf("%T", e))
			}
		})
	}}
