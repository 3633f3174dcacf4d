// Command codec compares generated parsers with a reading of the definitions
// they were generated from.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

// registry maps set/struct to a maker of an empty struct and its constructor;
// the generated file registry.go fills it.
type entry struct {
	mk    func() interface{}
	ctor  interface{}
	types []string // Go names of the contexts
}

var registry = map[string]entry{}

func main() {
	mode := os.Args[2]
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	var sets []*set
	if err := json.NewDecoder(f).Decode(&sets); err != nil {
		panic(err)
	}
	h := lib.New()
	type target struct {
		s    *set
		name string
	}
	var ts []target
	for _, s := range sets {
		s.index()
		for _, f := range s.Files {
			for _, x := range f.Structs {
				if _, ok := registry[s.ID+"/"+x.Name]; ok && !x.Extern {
					ts = append(ts, target{s, x.Name})
				}
			}
		}
	}
	if len(os.Args) > 3 {
		// replay: set struct hexbytes context-json
		for _, t := range ts {
			if t.s.ID == os.Args[3] && t.name == os.Args[4] {
				b, err := hex.DecodeString(os.Args[5])
				if err != nil {
					panic(err)
				}
				cv := ctxvals{}
				if err := json.Unmarshal([]byte(os.Args[6]), &cv); err != nil {
					panic(err)
				}
				run(h, mode, t.s, t.name, b, cv)
			}
		}
		h.Done()
		return
	}
	if mode == "decls" {
		for _, s := range sets {
			decls(h, s)
		}
	}
	for !h.Expired() {
		for _, t := range ts {
			if h.Expired() {
				break
			}
			for _, c := range inputs(h, t.s, t.name) {
				run(h, mode, t.s, t.name, c.b, c.ctx)
			}
		}
	}
	h.Done()
}

type input struct {
	b   []byte
	ctx ctxvals
}

func inputs(h *lib.H, s *set, name string) (out []input) {
	r := h.Rand
	cv := ctxvals{}
	st := s.structs[name]
	for _, c := range st.Ctx {
		for _, f := range s.contexts[c].Fields {
			v := uint64(r.Intn(6))
			switch r.Intn(8) {
			case 0:
				v = r.Uint64() >> uint(r.Intn(64))
			case 1:
				v = ^uint64(0) - uint64(r.Intn(2))
			case 2:
				v = uint64(1) << (f.W - 1)
			}
			if f.W < 64 {
				v &= uint64(1)<<f.W - 1
			}
			cv[c+"."+f.Name] = v
		}
	}
	if r.Intn(12) == 0 {
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return []input{{b, cv}}
	}
	e := &encoder{set: s, r: r, ctx: cv, wild: []int{0, 0, 3, 15}[r.Intn(4)]}
	e.structure(name)
	b := e.out
	out = append(out, input{b, cv})
	if r.Intn(2) == 0 {
		x := append([]byte{}, b...)
		for n := 1 + r.Intn(4); n > 0; n-- {
			x = append(x, byte(r.Intn(256)))
		}
		out = append(out, input{x, cv})
	}
	if len(b) > 0 {
		out = append(out, input{append([]byte{}, b[:r.Intn(len(b))]...), cv})
		if r.Intn(3) == 0 {
			out = append(out, input{append([]byte{}, b[:len(b)-1]...), cv})
		}
		x := append([]byte{}, b...)
		for n := 1 + r.Intn(2); n > 0; n-- {
			switch i := r.Intn(len(x)); r.Intn(3) {
			case 0:
				x[i] = byte(r.Intn(256))
			case 1:
				x[i] ^= 1 << uint(r.Intn(8))
			default:
				x[i] = []byte{0, 0xff, 0x80, 1}[r.Intn(4)]
			}
		}
		out = append(out, input{x, cv})
	}
	return
}

func describe(v interface{}) string { return fmt.Sprintf("%+v", v) }

// run parses one byte string. mode "values" compares the outcome with the
// definitions, mode "safety" looks at panics, the input and what is returned.
func run(h *lib.H, mode string, s *set, name string, b []byte, cv ctxvals) {
	d := &decoder{set: s, data: b, ctx: cv}
	want, next, ok := d.structure(name, 0, len(b))
	key := ""
	if ok || next > 0 || len(b) > 0 {
		key = fmt.Sprintf("%s/%s/%x/%v", s.ID, name, b, cv)
		if len(key) > 200 {
			key = key[:200]
		}
	}
	in := func() interface{} {
		return map[string]interface{}{"set": s.ID, "definitions": strings.Join(s.Texts, "\n// ---- next file\n"), "struct": name, "bytes": hex.EncodeToString(b), "context": cv}
	}
	h.Case("parse "+name, key, in, func() (string, string) {
		ent := registry[s.ID+"/"+name]
		// room after the input that must not be looked at
		buf := append(append(make([]byte, 0, len(b)+16), b...), []byte("\x01\x02\x03\x00\x05\x06\x07\x08")...)
		data := buf[:len(b)]
		if len(b)%2 == 1 {
			data = data[:len(b):len(b)]
		}
		obj := reflect.ValueOf(ent.mk())
		m := obj.MethodByName("Parse")
		args := []reflect.Value{reflect.ValueOf(data)}
		ctor := reflect.ValueOf(ent.ctor)
		for i, c := range s.structs[name].Ctx {
			if m.Type().NumIn() <= i+1 {
				return "the parse method takes " + m.Type().String(), "one parameter per context"
			}
			x := reflect.New(m.Type().In(i + 1)).Elem()
			for j, f := range s.contexts[c].Fields {
				x.Field(j).SetUint(cv[c+"."+f.Name])
			}
			args = append(args, x)
		}
		res := m.Call(args)
		rest, _ := res[0].Interface().([]byte)
		err, _ := res[1].Interface().(error)
		if mode == "safety" {
			if !bytes.Equal(buf[:len(b)], b) || !bytes.Equal(buf[len(b):], []byte("\x01\x02\x03\x00\x05\x06\x07\x08")) {
				return fmt.Sprintf("the input became %x", buf), "the input is not modified"
			}
			if err == nil {
				if len(rest) > len(b) || !bytes.Equal(rest, b[len(b)-len(rest):]) {
					return fmt.Sprintf("returned %x as unconsumed", rest), "a tail of the input"
				}
				if len(rest) > 0 && &rest[0] != &buf[len(b)-len(rest)] {
					return "returned a copy as unconsumed", "the tail of the input it was given"
				}
			}
			cres := ctor.Call(args)
			if cres[1].IsNil() != (err == nil) || cres[0].IsNil() == (err == nil) {
				return fmt.Sprintf("constructor: %v, %v; method: %v", cres[0], cres[1], err), "a result or an error, as the method"
			}
			return "", ""
		}
		if mode == "decls" {
			cres := ctor.Call(args)
			if cres[1].IsNil() != (err == nil) {
				return fmt.Sprintf("constructor error %v, method error %v", cres[1], err), "the same outcome"
			}
			if err != nil && !cres[0].IsNil() {
				return "constructor: " + dump(cres[0]) + " and an error", "nothing with an error"
			}
			if err == nil && !reflect.DeepEqual(cres[0].Interface(), obj.Interface()) {
				return "constructor: " + dump(cres[0]), "method: " + dump(obj)
			}
			return "", ""
		}
		obs, exp := compare(want, next, ok, rest, err, obj, b, s, name)
		if obs != "" && d.open {
			// known: a tag no case names
			l := &decoder{set: s, data: b, ctx: cv, lenient: true}
			lw, ln, lok := l.structure(name, 0, len(b))
			if o2, _ := compare(lw, ln, lok, rest, err, obj, b, s, name); o2 == "" {
				h.Known("open-union", in())
				return "", ""
			}
		}
		if obs == "" && mode == "values" {
			cres := ctor.Call(args)
			if cres[1].IsNil() != (err == nil) {
				return fmt.Sprintf("constructor error %v, method error %v", cres[1], err), "the same outcome"
			}
			if err == nil && !reflect.DeepEqual(cres[0].Interface(), obj.Interface()) {
				return "constructor: " + dump(cres[0]), "method: " + dump(obj)
			}
		}
		return obs, exp
	})
}

func dump(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return describe(v.Interface())
	}
	return string(b)
}

func compare(want value, next int, ok bool, rest []byte, err error, obj reflect.Value, b []byte, s *set, name string) (string, string) {
	if !ok {
		if err == nil {
			return "accepted: " + dump(obj), "an error: the bytes do not start with an encoding"
		}
		return "", ""
	}
	if err != nil {
		return "error: " + err.Error(), fmt.Sprintf("accepted with %d bytes unconsumed", len(b)-next)
	}
	if !bytes.Equal(rest, b[next:]) {
		return fmt.Sprintf("unconsumed %x", rest), fmt.Sprintf("unconsumed %x", b[next:])
	}
	if diff := same(want.l, obj.Elem(), name); diff != "" {
		return diff + " in " + dump(obj), "the decoded values"
	}
	return "", ""
}

func same(vs []value, o reflect.Value, path string) string {
	if o.NumField() != len(vs) {
		return fmt.Sprintf("%s has %d fields, not %d", path, o.NumField(), len(vs))
	}
	for i, v := range vs {
		if !v.set {
			continue
		}
		if d := same1(v, o.Field(i), path+"."+o.Type().Field(i).Name); d != "" {
			return d
		}
	}
	return ""
}

func same1(v value, o reflect.Value, path string) string {
	switch o.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if o.Uint() != v.n {
			return fmt.Sprintf("%s is %d, not %d", path, o.Uint(), v.n)
		}
	case reflect.Int:
		if o.Int() != int64(v.n) {
			return fmt.Sprintf("%s is %d, not %d", path, o.Int(), v.n)
		}
	case reflect.String:
		if o.String() != v.s {
			return fmt.Sprintf("%s is %q, not %q", path, o.String(), v.s)
		}
	case reflect.Ptr:
		if o.IsNil() {
			return path + " is nil"
		}
		return same(v.l, o.Elem(), path)
	case reflect.Array, reflect.Slice:
		if o.Len() != len(v.l) {
			return fmt.Sprintf("%s has %d elements, not %d", path, o.Len(), len(v.l))
		}
		for i := range v.l {
			if d := same1(v.l[i], o.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	default:
		return path + " is a " + o.Type().String()
	}
	return ""
}
