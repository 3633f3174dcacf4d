package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

// goname is the Go name of a definition, for the plain names used in the sets.
func goname(n string) string {
	s := ""
	for _, p := range strings.Split(strings.ToLower(n), "_") {
		if p != "" {
			s += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return s
}

// gotype is how the declared type is written in Go, without the package.
func gotype(t *typ) string {
	switch t.K {
	case "int":
		return fmt.Sprintf("uint%d", t.W)
	case "char":
		return "uint8"
	case "nul":
		return "string"
	case "ptr":
		return "int"
	case "struct":
		return "*" + goname(t.Name)
	case "fixed":
		return fmt.Sprintf("[%d]%s", t.N.V, gotype(t.Base))
	}
	return "[]" + gotype(t.Base)
}

func written(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Ptr:
		return "*" + written(t.Elem())
	case reflect.Slice:
		return "[]" + written(t.Elem())
	case reflect.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), written(t.Elem()))
	}
	return t.Name()
}

func fields(ms []member) (out []string) {
	for i := range ms {
		switch m := &ms[i]; m.K {
		case "field":
			out = append(out, goname(m.Name)+" "+gotype(m.Type))
		case "union":
			for j := range m.Cases {
				out = append(out, fields(m.Cases[j].Members)...)
			}
		}
	}
	return
}

func declared(t reflect.Type) (out []string) {
	for i := 0; i < t.NumField(); i++ {
		out = append(out, t.Field(i).Name+" "+written(t.Field(i).Type))
	}
	return
}

func signature(t reflect.Type, skip int) string {
	var in, out []string
	for i := skip; i < t.NumIn(); i++ {
		in = append(in, written(t.In(i)))
	}
	for i := 0; i < t.NumOut(); i++ {
		out = append(out, written(t.Out(i)))
	}
	return "(" + strings.Join(in, ", ") + ") (" + strings.Join(out, ", ") + ")"
}

// decls compares what a package declares with the definitions.
func decls(h *lib.H, s *set) {
	one := func(what string, f func() (string, string)) {
		h.Case("declarations", s.ID+"/"+what, func() interface{} {
			return map[string]interface{}{"definitions": strings.Join(s.Texts, "\n// ---- next file\n"), "of": what}
		}, f)
	}
	for n, c := range s.contexts {
		one(n, func() (string, string) {
			var want []string
			for _, f := range c.Fields {
				want = append(want, fmt.Sprintf("%s uint%d", goname(f.Name), f.W))
			}
			got := declared(reflect.TypeOf(registry[s.ID+"/ctx:"+n].mk()).Elem())
			if a, b := strings.Join(got, "; "), strings.Join(want, "; "); a != b {
				return a, b
			}
			return "", ""
		})
	}
	for n, x := range s.structs {
		one(n, func() (string, string) {
			e := registry[s.ID+"/"+n]
			t := reflect.TypeOf(e.mk())
			if a, b := strings.Join(declared(t.Elem()), "; "), strings.Join(fields(x.Members), "; "); a != b {
				return a, b
			}
			args := []string{"[]uint8"}
			for _, c := range x.Ctx {
				args = append(args, goname(c))
			}
			in := "(" + strings.Join(args, ", ") + ") "
			m, ok := t.MethodByName("Parse")
			if !ok {
				return "no Parse method", "one"
			}
			if a, b := signature(m.Type, 1), in+"([]uint8, error)"; a != b {
				return "method " + a, b
			}
			if a, b := signature(reflect.TypeOf(e.ctor), 0), in+"(*"+goname(n)+", error)"; a != b {
				return "constructor " + a, b
			}
			return "", ""
		})
	}
}
