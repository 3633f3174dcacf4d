// Command parse looks for source texts on which the parser disagrees with the
// language definition.
package main

import (
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

// fixed texts that visit corners of the language.
var fixed = []string{
	"", " ", "\n", "// x", "/* x */", "/* x", "/", "/*/", "x", ";", "struct", "struct x", "struct x {", "struct x {}", "struct x{};", "struct x {};;",
	"struct a { struct b { u8 x; } y; };", "struct a { struct b { u8 x; } y[3]; };", "struct a { struct b { u8 x; } y[n]; };",
	"struct a { struct b { u8 x; } y[]; };", "struct a { struct b { u8 x; } y[..-4]; };", "struct a { struct b { u8 x; } y[X]; };",
	"struct a { struct b { struct c { u8 z; } w; } y; };", "struct a { struct b { struct c { u8 z; } w[]; } y[]; };",
	"struct a { u8 t; union u[t] { 1: struct b { u8 x; } y; 2: struct c { u8 x; } z[2]; default: struct d { u8 x; } w[]; }; };",
	"struct a { struct b {} c; struct d {} e; struct f {} g[1]; struct h {} i[]; }; struct z { struct y {} x; }",
	"struct a { struct b {} c; } struct d { struct e {} f; } const X = 3; extern struct g with context h, i;",
	"struct a { struct b { u8 x; } y; struct b { u8 x; } y[4]; }", "struct a with context b { u8 x IN [1, 2..3, A..B]; eos; }",
	"struct a { struct b { u8 x } y; };", "struct a { struct b { u8 x; } ; };", "struct a { struct b { u8 x; } 1; }; struct c {}",
	"struct a { struct b { u8 x; } y[; };", "struct a { struct b { u8 x; } y[1; };", "struct a { struct b { u8 x; } y }; struct c {};",
	"const A = 0x7fffffffffffffff;", "const A = 0x8000000000000000;", "const A = 010;", "const A = 08;", "const A = 0;", "const A = 00;", "const A=1",
	"const a = 1;", "const A = -1;", "const A = 0X1;", "const A = 0b1;", "const A = 0o7;", "const A = 1_0;", "const A = 018;", "const A = 0x;",
	"struct a { u8 x[08]; };", "struct a { u8 x[99999999999999999999]; };", "struct a { u8 x IN [08]; };",
	"context c { u8 x; u64 y; }", "context c{ u8 x; }", "context c {}", "context c { char x; }", "context c { u8 x IN [1]; }",
	"trunnel options a, b, c;", "trunnel options;", "trunnel a b", "extern struct a;", "extern struct a with context b, c;", "extern a;",
	"struct a { u8 t; union u[t] with length n { 1, 2..3: u8 x; ...; 4: ; 5: fail; 6: ignore; 7: u8 z[]; default: fail; }; };",
	"struct a { union u[c.t] { 1: }; }", "struct a { union u[t] {} ; }", "struct a { union u[t] with length ..-3 { default: ; }; eos; }",
	"struct a { @ptr p; nulterm s; char c[3]; u8 r[]; };", "struct a { @ptr p; u8 r[ /* */ ]; };", "struct a { u8 r[ 1]; };", "struct a { u8 r[]; u8 x; };",
	"struct a { eos; u8 x; };", "struct a { eos };", "struct a { u8 x[a.b]; u8 y[ a ]; };", "struct a { u8 x[a .b]; };", "struct a { u8x; u16y; };",
	"struct a { u24 x; };", "struct a { u8 x, y; };", "struct a { u8 IN IN [1]; }", "struct a { u8 x IN[1]; }", "struct a { u8 x IN [ ]; }",
	"structa {}", "struct\u00a0a {}", "struct a { /*", "struct é {}", "// \xff\nstruct a {}", "struct a {} \xff", "struct a {}\x00", "\ufeffstruct a {}",
}

// large returns texts with one dimension pushed far.
func large() []string {
	var r []string
	rep := strings.Repeat
	for _, f := range []string{"struct s%d { %s } x%d;", "struct s%d { u8 a; %s } x%d[4];", "struct s%d { u8 t; union u[t] { 1: struct i%[1]d { %[2]s } x%[3]d; }; } y%[3]d;",
		"struct s%d { %s } x%d[];"} {
		in := "u8 z;"
		for d := 1; d <= 7 && !(d > 3 && strings.Contains(f, "union")); d++ { // reading time grows fourfold per level
			in = fmt.Sprintf(f, d, in, d)
			r = append(r, "struct top { "+in+" };")
		}
	}
	seq := func(n int, f func(i int) string, sep string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return strings.Join(l, sep)
	}
	for _, n := range []int{3, 9, 17, 40, 70, 129, 300, 1100} {
		id := func(i int) string { return fmt.Sprintf("n%d", i) }
		num := func(i int) string { return strconv.Itoa(i * 3) }
		r = append(r,
			seq(n, func(i int) string { return fmt.Sprintf("const C%d = %d;", i, i*i) }, "\n"),
			seq(n, func(i int) string { return fmt.Sprintf("struct s%d { u8 x; };", i) }, "\n"),
			seq(n, func(i int) string { return fmt.Sprintf("context c%d { u8 x; };", i) }, "\n"),
			seq(n, func(i int) string { return fmt.Sprintf("extern struct s%d with context c;", i) }, "\n"),
			seq(n, func(i int) string { return fmt.Sprintf("trunnel p%d a, b;", i) }, "\n"),
			"struct s with context "+seq(n, id, ", ")+" { };", "extern struct s with context "+seq(n, id, ",")+";", "trunnel o "+seq(n, id, " , ")+";",
			"struct s { "+seq(n, func(i int) string { return fmt.Sprintf("u16 m%d;", i) }, " ")+" eos; };",
			"struct s { "+seq(n, func(i int) string { return fmt.Sprintf("struct q%d { u8 x; } m%d;", i, i) }, " ")+" };",
			"context c { "+seq(n, func(i int) string { return fmt.Sprintf("u64 m%d;", i) }, " ")+" };",
			"struct s { u32 x IN ["+seq(n, num, ", ")+"]; };", "struct s { u32 x IN ["+seq(n, func(i int) string { return fmt.Sprintf("%d..%d", i*4, i*4+2) }, ",")+"]; };",
			"struct s { union u[t] { "+seq(n, func(i int) string { return fmt.Sprintf("%d: u8 m%d;", i, i) }, " ")+" }; };",
			"struct s { union u[t] { 1: "+seq(n, func(i int) string { return fmt.Sprintf("u8 m%d;", i) }, " ")+" ...; }; };",
			"struct s { union u[t] { "+seq(n, num, ", ")+": fail; default: ; }; };",
			"struct "+rep("a", n)+" { nulterm "+rep("Z", n)+"_9; };", "const "+rep("A", n)+" = "+rep("0", n)+"7;", "const A = 0x"+rep("0", n)+"fF;",
			"struct /*"+rep("*", n)+"*/ a // "+rep("/", n)+"\n {"+rep(" ", n)+rep("\n", n)+rep("\t\r", n)+"};", "// "+rep("é", n)+"\nstruct a {} /*"+rep("\u4e16", n)+"*/",
			rep("// c\n", n)+"struct a {}"+rep("/**/", n),
		)
	}
	return r
}

func run(f func(string) (*ast.File, error), s string) (tree string, ok bool, err error) {
	t, err := f(s)
	if t == nil && err == nil {
		return "", false, errors.New("neither tree nor error")
	}
	if t != nil && err != nil {
		return "", false, fmt.Errorf("both tree and error: %v", err)
	}
	if err != nil {
		_ = err.Error()
		return "", true, nil
	}
	return dump(t), true, nil
}

// compare checks one text against the reference.
func compare(h *lib.H, what, s string) {
	key := ""
	want := refParse(s)
	if want != nil && len(s) > 20 {
		key = s
	}
	h.Case(what, key, func() interface{} { return strconv.Quote(s) }, func() (string, string) {
		got, ok, err := run(parse.String, s)
		if !ok {
			return err.Error(), "exactly one of tree and error"
		}
		exp := ""
		if want != nil {
			exp = dump(want)
		}
		switch {
		case want == nil && got != "":
			return "accepted: " + got, "an error"
		case want != nil && got == "" && exp != "":
			_, err := parse.String(s)
			return fmt.Sprintf("refused: %v", err), exp
		case got != exp:
			return got, exp
		}
		return "", ""
	})
}

func grammar(h *lib.H) {
	for _, s := range append(append([]string{}, fixed...), large()...) {
		compare(h, "parse", s)
	}
	for _, n := range append(append([]string{}, numbers...), badNumbers...) {
		compare(h, "number", "const A = "+n+";")
		compare(h, "number", "struct a { u8 x["+n+"]; u64 y IN ["+n+", 1.."+n+"]; };")
	}
	for _, i := range idents {
		compare(h, "identifier", "struct "+i+" { u8 "+i+"; struct "+i+" "+i+"; };")
		compare(h, "identifier", "context "+i+" { u8 "+i+"; } trunnel "+i+" "+i+", "+i+";")
		compare(h, "identifier", "struct a { u8 "+i+"["+i+"]; union "+i+"["+i+"."+i+"] { 1: u8 "+i+"; }; };")
	}
	for _, c := range comments {
		compare(h, "comment", c+"struct"+c+"a"+c+"{"+c+"u8 x"+c+";"+c+"}"+c+";"+c)
	}
	for c := 0; c < 256; c++ {
		compare(h, "byte", string([]byte{'s', 't', 'r', 'u', 'c', 't', ' ', byte(c), ' ', '{', '}'}))
		compare(h, "byte", string([]byte{'s', 't', 'r', 'u', 'c', 't', ' ', 'a', byte(c), ' ', '{', '}'}))
		compare(h, "byte", string([]byte{'s', 't', 'r', 'u', 'c', 't', ' ', 'a', ' ', byte(c), '{', '}'}))
		compare(h, "byte", "const A"+string([]byte{byte(c)})+"=1;")
		compare(h, "byte", "const "+string([]byte{byte(c)})+"=1;")
		compare(h, "byte", "const A=0"+string([]byte{byte(c)})+";")
		compare(h, "byte", "const A=0x"+string([]byte{byte(c)})+";")
		compare(h, "byte", "const A=1"+string([]byte{byte(c)})+";")
	}
	g := &gen{r: h.Rand, depth: 3, inline: 20}
	for !h.Expired() {
		s := g.text()
		compare(h, "parse", s)
		for k := 0; k < 3 && !h.Expired(); k++ {
			compare(h, "parse damaged", g.mutate(s))
		}
	}
}

func inline(h *lib.H) {
	for _, s := range append(append([]string{}, fixed...), large()...) {
		compare(h, "parse", s)
	}
	// each kind of member that can hold an inline struct, alone and nested
	forms := []string{"struct %s { %s } x;", "struct %s { %s } x[3];", "struct %s { %s } x[n];", "struct %s { %s } x[..-2];",
		"struct %s { %s } x[N];", "union u[t] { 1: struct %s { %s } x; 2: u8 y; };", "union u[t] { 1: struct %s { %s } x[2]; };",
		"union u[t] { 1: u8 y; struct %s { %s } x[]; };", "struct %s { %s } x[ ];", "struct %s { %s } x[N", "struct %s { %s };", "struct %s { %s } x IN [1];"}
	var nest func(d int) []string
	nest = func(d int) []string {
		r := []string{"u8 z;", ""}
		if d > 0 {
			for i, f := range forms {
				for j, in := range nest(d - 1) {
					r = append(r, fmt.Sprintf(f, fmt.Sprintf("s%d_%d_%d", d, i, j), in))
				}
			}
		}
		return r
	}
	for i, a := range nest(2) {
		if h.Expired() {
			return
		}
		compare(h, "inline struct", fmt.Sprintf("struct a%d { %s };", i, a))
		compare(h, "inline struct", fmt.Sprintf("struct a%d { u8 w; %s u8 v; };", i, a))
	}
	g := &gen{r: h.Rand, depth: 4, inline: 80}
	for !h.Expired() {
		s := g.text()
		if len(s) > 4000 {
			continue
		}
		compare(h, "inline structs", s)
		compare(h, "inline structs damaged", g.mutate(s))
	}
}

func robust(h *lib.H) {
	for _, s := range append(append([]string{}, fixed...), large()...) {
		compare(h, "parse", s)
	}
	for _, n := range badNumbers {
		for _, f := range []string{"const A = %s;", "struct a { u8 x[%s]; };", "struct a { u8 x IN [%s]; };", "struct a { u8 x IN [1..%s]; };",
			"struct a { u8 x IN [1, %s]; };", "struct a { u8 x[..-%s]; };", "struct a { union u[t] { %s: ; }; };",
			"struct a { struct b { u8 x[%s]; } y; };", "struct a { union u[t] with length ..-%s { 1: ; }; };",
			"struct a { u8 x IN [%s };", "struct a { u8 x[%s", "const A = %s"} {
			compare(h, "number out of range", fmt.Sprintf(f, n))
		}
	}
	alpha := "structunioheaxl0189AZ_ \n\t{}[];:,.=@-/*\xff\xc3\x80"
	g := &gen{r: h.Rand, depth: 3, inline: 30}
	for !h.Expired() {
		switch h.Rand.Intn(4) {
		case 0:
			b := make([]byte, h.Rand.Intn(40))
			for i := range b {
				b[i] = byte(h.Rand.Intn(256))
			}
			compare(h, "random bytes", string(b))
		case 1:
			b := make([]byte, h.Rand.Intn(40))
			for i := range b {
				b[i] = alpha[h.Rand.Intn(len(alpha))]
			}
			compare(h, "random characters", string(b))
		default:
			s := g.text()
			for k := 0; k < 4; k++ {
				compare(h, "damaged text", g.mutate(s))
			}
		}
	}
}

type badReader struct {
	s string
	e error
}

func (b *badReader) Read(p []byte) (int, error) {
	if len(b.s) == 0 {
		return 0, b.e
	}
	n := copy(p, b.s)
	b.s = b.s[n:]
	return n, nil
}

// files checks File, Files, Reader and String against each other and the
// reference.
func files(h *lib.H) {
	dir, err := ioutil.TempDir(".", "files")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	g := &gen{r: h.Rand, depth: 2, inline: 30}
	id, style := 0, 0
	round := func(texts []string) {
		// text "\x00missing", "\x00dir" and "\x00unreadable" stand for files that cannot be read
		var names, want []string
		bad := false
		for _, t := range texts {
			id++
			name := filepath.Join(dir, fmt.Sprintf("f%d", id))
			switch style {
			case 1: // one base name, different directories
				name = filepath.Join(dir, fmt.Sprintf("d%d", id), "same.trunnel")
			case 2: // names that differ in case or extension only
				name = filepath.Join(dir, fmt.Sprintf("r%d", id-id%4), []string{"name", "NAME", "name.trunnel", "name.c"}[id%4])
			case 3: // odd names
				name = filepath.Join(dir, fmt.Sprintf("%s%d", []string{"-", "a b", "%s", "é", "..", "*", "$x", "'\""}[id%8], id))
			case 4: // the same file by different paths
				name = dir + strings.Repeat("/.", id%3) + "//" + fmt.Sprintf("f%d", id)
			}
			os.MkdirAll(filepath.Dir(name), 0755)
			switch t {
			case "\x00missing":
				bad = true
			case "\x00dir":
				if err := os.Mkdir(name, 0755); err != nil {
					panic(err)
				}
				bad = true
			default:
				if err := ioutil.WriteFile(name, []byte(t), 0644); err != nil {
					panic(err)
				}
				if f := refParse(t); f != nil {
					want = append(want, dump(f))
				} else {
					bad = true
				}
			}
			names = append(names, name)
		}
		one := names
		if style == 5 { // names given more than once
			var n, w []string
			for i := range names {
				for k := 0; k <= id%2; k++ {
					n = append(n, names[i])
					if !bad {
						w = append(w, want[i])
					}
				}
			}
			names, want = append(n, n...), append(w, w...)
		}
		orig := append([]string{}, names...)
		in := func() interface{} { return fmt.Sprintf("%q", texts) }
		h.Case("Files", strings.Join(texts, "\x00"), in, func() (string, string) {
			fs, err := parse.Files(names)
			for i := range names {
				if names[i] != orig[i] {
					return "the list of names was changed", "unchanged arguments"
				}
			}
			if bad {
				if err == nil {
					return fmt.Sprintf("%d trees and no error", len(fs)), "an error"
				}
				if fs != nil {
					return fmt.Sprintf("%d trees and error %v", len(fs), err), "no trees"
				}
				return "", ""
			}
			if err != nil {
				return "error " + err.Error(), fmt.Sprintf("%d trees", len(want))
			}
			if len(fs) != len(want) {
				return fmt.Sprintf("%d trees", len(fs)), fmt.Sprintf("%d trees", len(want))
			}
			for i, f := range fs {
				if dump(f) != want[i] {
					return fmt.Sprintf("tree %d: %s", i, dump(f)), want[i]
				}
				for j := 0; j < i; j++ {
					if fs[j] == f && names[i] != names[j] {
						return fmt.Sprintf("trees %d and %d are the same object", j, i), "one tree per file"
					}
				}
			}
			return "", ""
		})
		for i, t := range texts {
			i, t := i, t
			exp, kind := "", "error"
			if !strings.HasPrefix(t, "\x00") || len(t) == 1 {
				if f := refParse(t); f != nil {
					exp, kind = dump(f), "tree"
				}
			}
			cmp := func(what string, f func(string) (*ast.File, error)) {
				h.Case(what, "", func() interface{} { return strconv.Quote(t) }, func() (string, string) {
					x, err := f(t)
					if (x != nil) == (err != nil) {
						return fmt.Sprintf("tree %v, error %v", x != nil, err), "exactly one of tree and error"
					}
					if kind == "error" {
						if err == nil {
							return "accepted: " + dump(x), "an error"
						}
						return "", ""
					}
					if err != nil {
						return "refused: " + err.Error(), exp
					}
					if d := dump(x); d != exp {
						return d, exp
					}
					return "", ""
				})
			}
			cmp("File", func(string) (*ast.File, error) { return parse.File(one[i]) })
			if strings.HasPrefix(t, "\x00") && len(t) > 1 {
				continue
			}
			cmp("String", parse.String)
			cmp("Reader", func(s string) (*ast.File, error) { return parse.Reader("x", strings.NewReader(s)) })
			cmp("Reader, one byte at a time", func(s string) (*ast.File, error) {
				return parse.Reader("", iotest.OneByteReader(strings.NewReader(s)))
			})
			cmp("Reader, data with EOF", func(s string) (*ast.File, error) {
				return parse.Reader("x", iotest.DataErrReader(strings.NewReader(s)))
			})
			h.Case("Reader that fails", "", func() interface{} { return strconv.Quote(t) }, func() (string, string) {
				for _, e := range []error{io.ErrUnexpectedEOF, errors.New("broken")} {
					if x, err := parse.Reader("x", &badReader{t, e}); x != nil || err == nil {
						return fmt.Sprintf("tree %v, error %v", x != nil, err), "an error"
					}
				}
				return "", ""
			})
		}
		for _, n := range names {
			os.RemoveAll(n)
		}
		if d, err := ioutil.ReadDir(dir); err == nil {
			for _, e := range d {
				os.RemoveAll(filepath.Join(dir, e.Name()))
			}
		}
	}
	round(nil)
	round([]string{"\x00missing"})
	round([]string{"\x00dir"})
	good := []string{"const A = 1;", "struct a { u8 x; };", "", "const B = 2;"}
	for i := 0; i <= len(good); i++ {
		for _, b := range []string{"\x00missing", "\x00dir", "struct {", "const A = 08;", "\xff", "x"} {
			round(append(append(append([]string{}, good[:i]...), b), good[i:]...))
		}
	}
	for style = 1; style <= 5; style++ {
		round([]string{"const A = 1;", "const A = 2;", "const A = 3;", "struct a {}", "struct b {}", "struct c {}", "struct d {}", "struct e {}"})
	}
	style = 0
	round([]string{"const A = 1;", "const A = 1;", "const A = 1;"})
	round([]string{strings.Repeat("// filler\n", 20000) + "const A = 1;", "const B = 2;"})
	round([]string{"struct a { struct b { u8 x; } y; };", "struct c { u8 x; };", "struct d { struct e { u8 x; } y[]; };"})
	for !h.Expired() {
		style = h.Rand.Intn(6)
		var l []string
		for n := h.Rand.Intn(6); n >= 0; n-- {
			t := g.text()
			if h.Rand.Intn(8) == 0 {
				t = g.mutate(t)
			}
			if h.Rand.Intn(15) == 0 {
				t = []string{"\x00missing", "\x00dir"}[h.Rand.Intn(2)]
			}
			l = append(l, t)
		}
		round(l)
	}
}

func main() {
	h := lib.New()
	switch os.Args[1] {
	case "grammar":
		grammar(h)
	case "inline":
		inline(h)
	case "robust":
		robust(h)
	case "files":
		files(h)
	}
	h.Done()
}
