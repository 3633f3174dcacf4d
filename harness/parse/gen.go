package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// gen writes random source texts of the trunnel language.
type gen struct {
	r      *rand.Rand
	b      strings.Builder
	plain  int // how often spacing is plain, in percent
	depth  int // remaining nesting of inline structs
	inline int // preference for inline structs, in percent
	n      int
	long   bool
}

func (g *gen) pct(n int) bool { return g.r.Intn(100) < n }
func (g *gen) w(s ...string) {
	for _, x := range s {
		g.b.WriteString(x)
	}
}
func (g *gen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

var comments = []string{
	"/**/", "/***/", "/* a */", "/* * / ; } */", "// x\n", "//\n", "/*\n*/", "// struct a { u8 x; };\n", "/* // */", "// /*\n",
	"/* é世 */", "// \U0001f600 \ufffd\n", "/****/", "/*/ */", "//\r\n", "/* const A = 1; */", "// */\n", "/*\x00*/", "///\n",
}

func (g *gen) space() string {
	if g.pct(60) {
		return g.pick(" ", "\n", "\t", "\r", "\r\n", "  ", "\n\n")
	}
	return comments[g.r.Intn(len(comments))]
}

// o is optional space, m mandatory space.
func (g *gen) o() {
	if g.pct(g.plain) {
		return
	}
	for g.pct(50) {
		g.w(g.space())
	}
}

func (g *gen) m() {
	if g.pct(g.plain) {
		g.w(" ")
		return
	}
	g.w(g.space())
	for g.pct(30) {
		g.w(g.space())
	}
}

const (
	uppers = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	lowers = "abcdefghijklmnopqrstuvwxyz"
	digits = "0123456789"
)

var idents = []string{
	"x", "a", "u8", "u16", "u8x", "u64a", "struct", "union", "with", "context", "eos", "fail", "ignore", "default", "IN", "char", "charx", "nulterm",
	"const", "extern", "trunnel", "length", "ptr", "_", "__", "_1", "A", "Z9", "z", "Z", "structx", "withx", "unionx", "n0", "aB_9", "N", "options",
	"eosx", "failx", "ignored", "INx", "lengthy", "contexts", "constant",
}

func (g *gen) word(first, rest string) string {
	n := g.r.Intn(6)
	if g.pct(3) {
		n = 20 + g.r.Intn(60)
	}
	s := string(first[g.r.Intn(len(first))])
	for i := 0; i < n; i++ {
		s += string(rest[g.r.Intn(len(rest))])
	}
	return s
}

func (g *gen) ident() string {
	if g.pct(25) {
		return idents[g.r.Intn(len(idents))]
	}
	if g.pct(60) {
		g.n++
		return fmt.Sprintf("%c%d", lowers[g.r.Intn(26)], g.n)
	}
	return g.word(lowers+uppers, lowers+uppers+digits)
}

func (g *gen) constID() string {
	if g.pct(30) {
		return g.pick("N", "_", "A", "CONST", "A_B", "Z", "X0", "IN", "X_9")
	}
	return g.word(uppers, uppers+digits)
}

var numbers = []string{
	"0", "1", "7", "8", "9", "10", "00", "01", "07", "010", "017", "0777", "0x0", "0x1", "0xf", "0xF", "0xabcdef", "0xABCDEF", "0x10", "0x0123456789",
	"127", "128", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "0x7fffffffffffffff",
	"0x7FFFFFFFFFFFFFFF", "0777777777777777777777", "0xdeadBEEF", "1234567890123", "00000012", "0x00000000000000000000012", "9007199254740993",
	"0x80000000", "037777777777", "040000000000",
}

var badNumbers = []string{
	"9223372036854775808", "0x8000000000000000", "18446744073709551615", "18446744073709551616", "0xffffffffffffffff", "01000000000000000000000",
	"08", "09", "0000000009", "99999999999999999999999", "0x10000000000000000", "01777777777777777777777",
	strings.Repeat("9", 1500), "0x" + strings.Repeat("a", 1500), "1" + strings.Repeat("0", 70000),
}

func (g *gen) number() string {
	switch k := g.r.Intn(10); {
	case k < 4:
		return numbers[g.r.Intn(len(numbers))]
	case k < 6:
		return fmt.Sprint(g.r.Int63() >> uint(g.r.Intn(63)))
	case k < 8:
		f := g.pick("0x%x", "0x%X", "0x%020x")
		return fmt.Sprintf(f, g.r.Int63()>>uint(g.r.Intn(63)))
	default:
		return fmt.Sprintf("0%o", g.r.Int63()>>uint(g.r.Intn(63)))
	}
}

func (g *gen) integer() string {
	if g.pct(30) {
		return g.constID()
	}
	return g.number()
}

func (g *gen) count() int {
	if g.long && g.pct(10) {
		return 5 + g.r.Intn(20)
	}
	return g.r.Intn(4)
}

func (g *gen) identList() {
	g.w(g.ident())
	for n := g.count(); n > 0; n-- {
		g.o()
		g.w(",")
		g.o()
		g.w(g.ident())
	}
}

func (g *gen) intList() {
	for n := g.count(); ; n-- {
		g.w(g.integer())
		if g.pct(35) {
			g.o()
			g.w("..")
			g.o()
			g.w(g.integer())
		}
		if n <= 0 {
			return
		}
		g.o()
		g.w(",")
		g.o()
	}
}

func (g *gen) idRef() {
	g.w(g.ident())
	if g.pct(40) {
		g.w(".", g.ident())
	}
}

func (g *gen) length() {
	if g.pct(30) {
		g.w("..-", g.integer())
	} else {
		g.idRef()
	}
}

func (g *gen) intType() { g.w(g.pick("u8", "u16", "u32", "u64")) }

func (g *gen) structRef() {
	if g.depth > 0 && g.pct(g.inline) {
		g.structDecl()
		return
	}
	g.w("struct")
	g.m()
	g.w(g.ident())
}

func (g *gen) base() {
	switch g.r.Intn(3) {
	case 0:
		g.intType()
	case 1:
		g.w("char")
	default:
		g.structRef()
	}
}

func (g *gen) array(remainder bool) {
	g.base()
	g.m()
	g.w(g.ident())
	g.o()
	g.w("[")
	if remainder {
		g.o()
	} else if g.pct(50) {
		g.w(g.integer())
	} else {
		g.length()
	}
	g.w("]")
}

func (g *gen) member(inStruct bool) {
	n := 5
	if inStruct {
		n = 8
	}
	switch g.r.Intn(n) {
	case 0, 1:
		g.array(false)
	case 2:
		g.intType()
		if g.pct(90) {
			g.m()
		}
		g.w(g.ident())
		if g.pct(50) {
			g.m()
			g.w("IN")
			g.m()
			g.w("[")
			g.o()
			g.intList()
			g.o()
			g.w("]")
		}
	case 3:
		g.w("nulterm")
		g.m()
		g.w(g.ident())
	case 4:
		g.structRef()
		g.m()
		g.w(g.ident())
	case 5:
		g.w("@ptr")
		g.m()
		g.w(g.ident())
	default:
		if g.depth > 0 {
			g.depth--
			g.union()
			g.depth++
		} else {
			g.w("u8 ", g.ident())
		}
	}
	g.o()
	g.w(";")
}

func (g *gen) contexts() {
	if g.pct(30) {
		g.m()
		g.w("with")
		g.m()
		g.w("context")
		g.m()
		g.identList()
	}
}

func (g *gen) structDecl() {
	g.depth--
	defer func() { g.depth++ }()
	g.w("struct")
	g.m()
	g.w(g.ident())
	g.contexts()
	g.o()
	g.w("{")
	for n := g.count(); n > 0; n-- {
		g.o()
		g.member(true)
	}
	g.o()
	switch g.r.Intn(5) {
	case 0:
		g.w("eos")
		g.o()
		g.w(";")
	case 1:
		g.array(true)
		g.o()
		g.w(";")
	}
	g.o()
	g.w("}")
}

func (g *gen) union() {
	g.w("union")
	g.m()
	g.w(g.ident())
	g.o()
	g.w("[")
	g.idRef()
	g.w("]")
	if g.pct(40) {
		g.o()
		g.w("with")
		g.m()
		g.w("length")
		g.m()
		g.length()
	}
	g.o()
	g.w("{")
	for n := g.count(); n > 0; n-- {
		g.o()
		if g.pct(15) {
			g.w("default")
		} else {
			g.intList()
		}
		g.o()
		g.w(":")
		g.o()
		switch g.r.Intn(8) {
		case 0:
			g.w(";")
		case 1:
			g.w("fail")
			g.o()
			g.w(";")
		case 2:
			g.w("ignore")
			g.o()
			g.w(";")
		default:
			for k := g.count(); k > 0; k-- {
				g.o()
				g.member(false)
			}
			g.o()
			switch g.r.Intn(6) {
			case 0:
				g.w("...")
				g.o()
				g.w(";")
			case 1:
				g.array(true)
				g.o()
				g.w(";")
			}
		}
	}
	g.o()
	g.w("}")
}

func (g *gen) decl() {
	switch g.r.Intn(8) {
	case 0:
		g.w("const")
		g.m()
		g.w(g.constID())
		g.o()
		g.w("=")
		g.o()
		g.w(g.number())
		g.o()
		g.w(";")
	case 1:
		g.w("context")
		g.m()
		g.w(g.ident())
		g.m()
		g.w("{")
		for n := g.count(); n > 0; n-- {
			g.o()
			g.intType()
			g.m()
			g.w(g.ident())
			g.o()
			g.w(";")
		}
		g.o()
		g.w("}")
		if g.pct(50) {
			g.o()
			g.w(";")
		}
	case 2:
		g.w("extern")
		g.m()
		g.w("struct")
		g.m()
		g.w(g.ident())
		g.contexts()
		g.o()
		g.w(";")
	case 3:
		g.w("trunnel")
		g.m()
		g.w(g.ident())
		g.m()
		g.identList()
		g.o()
		g.w(";")
	default:
		g.structDecl()
		if g.pct(50) {
			g.o()
			g.w(";")
		}
	}
}

// text returns a random text of the language.
func (g *gen) text() string {
	g.b.Reset()
	g.n = 0
	g.plain = g.r.Intn(101)
	g.long = g.pct(30)
	g.o()
	for n := g.r.Intn(5); n >= 0; n-- {
		g.decl()
		g.o()
	}
	if g.pct(10) {
		g.w("// no newline at the end")
	}
	return g.b.String()
}

var pieces = []string{
	"{", "}", ";", ",", ":", "[", "]", "..", "...", "..-", ".", "=", "@ptr ", "/*", "*/", "//", "\n", " ", "struct ", "union ", "with ", "context ",
	"u8", "u16 x;", "eos;", "default:", "fail;", "IN [1]", "char ", "nulterm ", "extern ", "const ", "trunnel ", "0x", "\xff", "\xc3", "\xed\xa0\x80", "\x00",
	"é", "\ufffd", "struct i { u8 z; } ", "struct i { u8 z[3]; } j; ", "[]", "[1]", "[n]", "-", "*", "/", "\v", "\f", "\u00a0", "\u2028", "\ufeff", "0", "X",
}

// mutate damages a text.
func (g *gen) mutate(s string) string {
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		if len(s) == 0 {
			return pieces[g.r.Intn(len(pieces))]
		}
		i := g.r.Intn(len(s))
		j := i + g.r.Intn(len(s)-i)
		if j-i > 12 && g.pct(70) {
			j = i + g.r.Intn(12)
		}
		switch g.r.Intn(8) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + s[j:]
		case 2, 3:
			s = s[:i] + pieces[g.r.Intn(len(pieces))] + s[i:]
		case 4:
			s = s[:i] + string([]byte{byte(g.r.Intn(256))}) + s[i+1:]
		case 5:
			s = s[:i] + s[i:j] + s[i:j] + s[j:]
		case 6:
			// replace a number
			d := strings.IndexAny(s[i:], digits)
			if d < 0 {
				continue
			}
			e := i + d
			for e < len(s) && strings.IndexByte(digits, s[e]) >= 0 {
				e++
			}
			n := badNumbers[g.r.Intn(len(badNumbers))]
			if g.pct(30) {
				n = numbers[g.r.Intn(len(numbers))]
			}
			s = s[:i+d] + n + s[e:]
		case 7:
			s = s[:i]
		}
	}
	return s
}
