// Workloads of arbitrary sources
package main

import (
	"bytes"
	"strings"
)

// fragments that are interesting next to each other
var frags = []string{
	"a", "b", "int", "uint", "nint", "float", "float16", "float32", "float64", "tstr", "text", "bytes", "bstr", "bool", "true", "false",
	"nil", "null", "any", "IDENT", "literal_end", "text_literal", "INTERNAL_MARKER_numeric_end", "$", "$$", "$a", "$$a", "@x", "_", "a-b", "a.b", "a-", "a.", "Int", "TRUE",
	"0", "1", "9", "10", "007", "0x", "0x1F", "0xg", "0X1", "0b", "0b101", "0b2", "0o", "0o17", "0o8", "1.5", "1.", "1.5.2", "1..2", "1...2", "0.0", "0x1.8", "3.14159",
	"18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "1e5", "1e400",
	"\"\"", "\"a\"", "\"a;b\"", "\"=\"", "\"é\"", "\"", "'", "`", "\"\\\"", "\"a\nb\"",
	";", ";c\n", "; comment\n", ";\"\n", ";\r\n", ";é\n", ";;\n",
	" ", "  ", "\t", "\n", "\r\n", "\r", "\n\n\n", "\v", "\f", "\u00a0", "\u2028",
	"=", "=>", "/=", "//=", "/", "//", "///", "////", "==", "=>=", "/=/", ".", "..", "...", "....", ".....", "-", "--", "+", "*", "?", ":", "::", ",", ",,", "(", ")", "[", "]", "{", "}",
	"<", ">", "#", "#6", "#6.1", "~", "&", "!", "%", "^", "|", "\\", "\x00", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98\x80", "é", "٣", "Ａ", "\ufeff", "\ufffd",
	".size", ".bits", ".regexp", ".cbor", ".cborseq", ".within", ".and", ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".default", ".plus", ".cat", ".det", ".abnf", ".abnfb", ".feature",
	".siz", ".sizes", ".Size", ".x", ".cborse", ".size4", ".é", ".1",
}

const (
	soup2 = "ab0.x=/\";\n\r\t ()[]{}*+?:,#~&$@_-<>\xff\xc3"
	soup3 = "1.0x/=.a \n"
)

func randBytes(r *Rand, n int) []byte {
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Uint64())
		case 1:
			b[i] = byte(32 + r.Intn(95))
		case 2:
			b[i] = soup2[r.Intn(len(soup2))]
		default:
			b[i] = soup3[r.Intn(len(soup3))]
		}
	}
	return b
}

func fragSoup(r *Rand, n int) []byte {
	var b bytes.Buffer
	sep := r.Intn(4)
	for i := 0; i < n; i++ {
		b.WriteString(frags[r.Intn(len(frags))])
		switch sep {
		case 0:
		case 1:
			b.WriteByte(' ')
		case 2:
			if r.P(1, 2) {
				b.WriteString(r.Pick([]string{" ", "\n", "\t", "\r\n"}))
			}
		default:
			if r.P(1, 8) {
				b.WriteByte(' ')
			}
		}
	}
	return b.Bytes()
}

// mutateBytes changes a few bytes of a source
func mutateBytes(r *Rand, src []byte) []byte {
	out := append([]byte{}, src...)
	for k := r.Range(1, 4); k > 0; k-- {
		if len(out) == 0 {
			return append(out, frags[r.Intn(len(frags))]...)
		}
		i := r.Intn(len(out))
		switch r.Intn(6) {
		case 0: // cut
			j := i + r.Intn(min(len(out)-i, 8)+1)
			out = append(out[:i], out[j:]...)
		case 1:
			out[i] = byte(r.Uint64())
		case 2, 3:
			f := frags[r.Intn(len(frags))]
			out = append(out[:i], append([]byte(f), out[i:]...)...)
		case 4: // truncate
			out = out[:i]
		default: // copy a part elsewhere
			j := i + r.Intn(min(len(out)-i, 12)+1)
			part := append([]byte{}, out[i:j]...)
			k := r.Intn(len(out))
			out = append(out[:k], append(part, out[k:]...)...)
		}
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// bigSources are large in one dimension each
func bigSources(scale int) map[string][]byte {
	rep := func(s string, n int) []byte { return []byte(strings.Repeat(s, n)) }
	return map[string][]byte{
		"many lines":        rep("a = int\n", 9000*scale),
		"many crlf lines":   rep("a = int ; c\r\n", 7000*scale),
		"blank lines":       append(rep("\n", 70000*scale), "x = int"...),
		"long line":         append(rep("aa ", 30000*scale), "\nb"...),
		"long ident":        append(rep("a", 70000*scale), " = int"...),
		"long text":         append(append([]byte("x = \""), rep("é", 40000*scale)...), "\"\ny = int"...),
		"long open text":    append([]byte("x = \""), rep("a", 70000*scale)...),
		"long comment":      append(append([]byte(";"), rep("c\t", 40000*scale)...), "\nx = int"...),
		"many comments":     rep("; c\n", 20000*scale),
		"long number":       rep("1234567890", 7000*scale),
		"long float":        append([]byte("1."), rep("1234567890", 7000*scale)...),
		"dots":              rep(".", 70000*scale),
		"slashes":           rep("/", 70000*scale),
		"equals":            rep("=", 70000*scale),
		"quotes":            rep("\"", 70001*scale),
		"invalid utf-8":     rep("\xff", 70000*scale),
		"truncated utf-8":   rep("\xe2\x82", 35000*scale),
		"nul":               rep("\x00", 70000*scale),
		"newline in text":   rep("\"a\n", 70000*scale),
		"whitespace":        rep(" \t\r\n", 20000*scale),
		"carriage returns":  rep("\r", 70000*scale),
		"wide columns":      append(rep(" ", 70000*scale), "x = int ; c"...),
		"illegal":           rep("!", 70000*scale),
		"long hex":          append([]byte("x = 0x"), rep("0aF9", 20000*scale)...),
		"long binary":       append([]byte("x = 0b"), rep("0110", 20000*scale)...),
		"long octal":        append([]byte("x = 0o"), rep("0167", 20000*scale)...),
		"long zeros":        append(append([]byte("x = "), rep("0", 70000*scale)...), ".5"...),
		"long control":      append([]byte("x = int ."), rep("size", 20000*scale)...),
		"many texts":        rep("\"a\" ", 30000*scale),
		"many numbers":      rep("12 0x1f 0b1 1.5 ", 8000*scale),
		"many brackets":     rep("([{}])<>", 9000*scale),
		"control operators": rep(".size .lt.foo ", 5000*scale),
	}
}
