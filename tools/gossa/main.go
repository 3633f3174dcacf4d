// Command gossa exports the SSA form of Go packages as JSON for gvc.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"log"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var (
	dir     = flag.String("dir", "/repo", "directory to load from")
	modfile = flag.String("modfile", "", "alternative go.mod")
	out     = flag.String("o", "", "output file")
	prefix  = flag.String("prefix", "", "package path prefix removed from names")
	overlay = flag.String("overlay", "", "JSON file naming extra source files, as for go build -overlay")
)

type exporter struct {
	fset  *token.FileSet
	types []J
	tidx  map[string]int
	funcs map[string]J
	queue []*ssa.Function
	seen  map[*ssa.Function]bool
	pkgs  map[*ssa.Package]bool
}

func short(s string) string {
	if *prefix == "" {
		return s
	}
	return strings.Replace(s, *prefix, "", -1)
}

func tstr(t types.Type) string {
	return short(types.TypeString(t, nil))
}

func (e *exporter) typ(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if i, ok := e.tidx[key]; ok {
		return i
	}
	i := len(e.types)
	e.tidx[key] = i
	j := J{"str": tstr(t)}
	e.types = append(e.types, j)
	switch t := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
	case *types.Pointer:
		j["k"] = "ptr"
		j["elem"] = e.typ(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["elem"] = e.typ(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["elem"] = e.typ(t.Elem())
		j["len"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = e.typ(t.Key())
		j["elem"] = e.typ(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["elem"] = e.typ(t.Elem())
	case *types.Struct:
		j["k"] = "struct"
		fs := []J{}
		for k := 0; k < t.NumFields(); k++ {
			f := t.Field(k)
			fs = append(fs, J{"name": f.Name(), "type": e.typ(f.Type()), "embedded": f.Embedded()})
		}
		j["fields"] = fs
	case *types.Named:
		j["k"] = "named"
		j["name"] = tstr(t)
		j["under"] = e.typ(t.Underlying())
	case *types.Interface:
		j["k"] = "iface"
		ms := []string{}
		for k := 0; k < t.NumMethods(); k++ {
			ms = append(ms, t.Method(k).Name())
		}
		sort.Strings(ms)
		j["methods"] = ms
	case *types.Signature:
		j["k"] = "sig"
		ps, rs := []int{}, []int{}
		for k := 0; k < t.Params().Len(); k++ {
			ps = append(ps, e.typ(t.Params().At(k).Type()))
		}
		for k := 0; k < t.Results().Len(); k++ {
			rs = append(rs, e.typ(t.Results().At(k).Type()))
		}
		j["params"] = ps
		j["results"] = rs
		j["variadic"] = t.Variadic()
	case *types.Tuple:
		j["k"] = "tuple"
		es := []int{}
		for k := 0; k < t.Len(); k++ {
			es = append(es, e.typ(t.At(k).Type()))
		}
		j["elems"] = es
	default:
		j["k"] = "other"
	}
	return i
}

func (e *exporter) fname(f *ssa.Function) string { return short(f.String()) }

func (e *exporter) val(v ssa.Value) J {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		j := J{"k": "const", "t": e.typ(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["bool"] = constant.BoolVal(v.Value)
			case constant.String:
				j["s"] = constant.StringVal(v.Value)
			case constant.Int:
				j["i"] = v.Value.ExactString()
			default:
				x := constant.ToInt(v.Value)
				if x.Kind() == constant.Int {
					j["i"] = x.ExactString()
				} else {
					j["other"] = v.Value.ExactString()
				}
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "name": short(v.String()), "t": e.typ(v.Type())}
	case *ssa.Function:
		e.enqueue(v)
		return J{"k": "func", "name": e.fname(v), "t": e.typ(v.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "name": v.Name()}
	case *ssa.Parameter, *ssa.FreeVar:
		return J{"k": "reg", "name": v.Name(), "t": e.typ(v.Type())}
	default:
		return J{"k": "reg", "name": v.Name(), "t": e.typ(v.Type())}
	}
}

func (e *exporter) vals(vs []ssa.Value) []J {
	js := []J{}
	for _, v := range vs {
		js = append(js, e.val(v))
	}
	return js
}

func (e *exporter) enqueue(f *ssa.Function) {
	if f == nil || e.seen[f] {
		return
	}
	e.seen[f] = true
	e.queue = append(e.queue, f)
}

func (e *exporter) call(c *ssa.CallCommon) J {
	j := J{"args": e.vals(c.Args)}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = e.val(c.Value)
	} else {
		j["fn"] = e.val(c.Value)
	}
	j["sig"] = e.typ(c.Signature())
	return j
}

func (e *exporter) instr(in ssa.Instruction) J {
	j := J{}
	if p := in.Pos(); p.IsValid() {
		j["pos"] = e.fset.Position(p).Line
	}
	if v, ok := in.(ssa.Value); ok {
		j["name"] = v.Name()
		j["t"] = e.typ(v.Type())
	}
	set := func(op string) { j["op"] = op }
	switch in := in.(type) {
	case *ssa.Alloc:
		set("alloc")
		j["heap"] = in.Heap
		j["comment"] = in.Comment
	case *ssa.Phi:
		set("phi")
		j["edges"] = e.vals(in.Edges)
		j["comment"] = in.Comment
	case *ssa.Call:
		set("call")
		j["call"] = e.call(&in.Call)
	case *ssa.Defer:
		set("defer")
		j["call"] = e.call(&in.Call)
	case *ssa.Go:
		set("go")
		j["call"] = e.call(&in.Call)
	case *ssa.BinOp:
		set("binop")
		j["bop"] = in.Op.String()
		j["x"] = e.val(in.X)
		j["y"] = e.val(in.Y)
	case *ssa.UnOp:
		set("unop")
		j["uop"] = in.Op.String()
		j["x"] = e.val(in.X)
		j["commaok"] = in.CommaOk
	case *ssa.ChangeType:
		set("changetype")
		j["x"] = e.val(in.X)
	case *ssa.Convert:
		set("convert")
		j["x"] = e.val(in.X)
	case *ssa.ChangeInterface:
		set("changeiface")
		j["x"] = e.val(in.X)
	case *ssa.MakeInterface:
		set("makeiface")
		j["x"] = e.val(in.X)
	case *ssa.MakeClosure:
		set("makeclosure")
		j["fn"] = e.val(in.Fn)
		j["bindings"] = e.vals(in.Bindings)
	case *ssa.MakeMap:
		set("makemap")
	case *ssa.MakeSlice:
		set("makeslice")
		j["len"] = e.val(in.Len)
		j["cap"] = e.val(in.Cap)
	case *ssa.Slice:
		set("slice")
		j["x"] = e.val(in.X)
		j["low"] = e.val(in.Low)
		j["high"] = e.val(in.High)
		j["max"] = e.val(in.Max)
	case *ssa.FieldAddr:
		set("fieldaddr")
		j["x"] = e.val(in.X)
		j["field"] = in.Field
	case *ssa.Field:
		set("field")
		j["x"] = e.val(in.X)
		j["field"] = in.Field
	case *ssa.IndexAddr:
		set("indexaddr")
		j["x"] = e.val(in.X)
		j["index"] = e.val(in.Index)
	case *ssa.Index:
		set("index")
		j["x"] = e.val(in.X)
		j["index"] = e.val(in.Index)
	case *ssa.Lookup:
		set("lookup")
		j["x"] = e.val(in.X)
		j["index"] = e.val(in.Index)
		j["commaok"] = in.CommaOk
	case *ssa.Range:
		set("range")
		j["x"] = e.val(in.X)
	case *ssa.Next:
		set("next")
		j["iter"] = e.val(in.Iter)
		j["isstring"] = in.IsString
	case *ssa.TypeAssert:
		set("typeassert")
		j["x"] = e.val(in.X)
		j["asserted"] = e.typ(in.AssertedType)
		j["commaok"] = in.CommaOk
		_, isIface := in.AssertedType.Underlying().(*types.Interface)
		j["toiface"] = isIface
		if isIface {
			// concrete exported types known to implement it are resolved by gvc
			it := in.AssertedType.Underlying().(*types.Interface)
			j["nmethods"] = it.NumMethods()
		}
	case *ssa.Extract:
		set("extract")
		j["x"] = e.val(in.Tuple)
		j["index"] = in.Index
	case *ssa.Jump:
		set("jump")
	case *ssa.If:
		set("if")
		j["cond"] = e.val(in.Cond)
	case *ssa.Return:
		set("return")
		j["results"] = e.vals(in.Results)
	case *ssa.RunDefers:
		set("rundefers")
	case *ssa.Panic:
		set("panic")
		j["x"] = e.val(in.X)
	case *ssa.Store:
		set("store")
		j["addr"] = e.val(in.Addr)
		j["val"] = e.val(in.Val)
	case *ssa.MapUpdate:
		set("mapupdate")
		j["map"] = e.val(in.Map)
		j["key"] = e.val(in.Key)
		j["val"] = e.val(in.Value)
	case *ssa.DebugRef:
		return nil
	default:
		set("unsupported")
		j["what"] = fmt.Sprintf("%T", in)
	}
	return j
}

func (e *exporter) function(f *ssa.Function) {
	name := e.fname(f)
	j := J{"name": name}
	if f.Pkg != nil {
		j["pkg"] = short(f.Pkg.Pkg.Path())
	}
	sig := f.Signature
	j["sig"] = e.typ(sig)
	j["synthetic"] = f.Synthetic
	if f.Pos().IsValid() {
		p := e.fset.Position(f.Pos())
		j["file"] = p.Filename
		j["line"] = p.Line
		if syn := f.Syntax(); syn != nil {
			j["endline"] = e.fset.Position(syn.End()).Line
		}
	}
	if sig.Recv() != nil {
		j["recv"] = e.typ(sig.Recv().Type())
	}
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"name": p.Name(), "t": e.typ(p.Type())})
	}
	j["params"] = ps
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"name": p.Name(), "t": e.typ(p.Type())})
	}
	j["freevars"] = fv
	rs := []J{}
	for k := 0; k < sig.Results().Len(); k++ {
		r := sig.Results().At(k)
		rs = append(rs, J{"name": r.Name(), "t": e.typ(r.Type())})
	}
	j["results"] = rs
	blocks := []J{}
	for _, b := range f.Blocks {
		bj := J{"i": b.Index, "comment": b.Comment}
		preds, succs := []int{}, []int{}
		for _, p := range b.Preds {
			preds = append(preds, p.Index)
		}
		for _, s := range b.Succs {
			succs = append(succs, s.Index)
		}
		bj["preds"], bj["succs"] = preds, succs
		ins := []J{}
		for _, in := range b.Instrs {
			if ij := e.instr(in); ij != nil {
				ins = append(ins, ij)
			}
		}
		bj["instrs"] = ins
		blocks = append(blocks, bj)
	}
	j["blocks"] = blocks
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	anons := []string{}
	for _, a := range f.AnonFuncs {
		anons = append(anons, e.fname(a))
		e.enqueue(a)
	}
	j["anons"] = anons
	if f.Parent() != nil {
		j["parent"] = e.fname(f.Parent())
	}
	e.funcs[name] = j
}

func main() {
	flag.Parse()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  *dir,
	}
	if *modfile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+*modfile)
	}
	if *overlay != "" {
		b, err := os.ReadFile(*overlay)
		if err != nil {
			log.Fatal(err)
		}
		var o struct{ Replace map[string]string }
		if err := json.Unmarshal(b, &o); err != nil {
			log.Fatal(err)
		}
		cfg.Overlay = map[string][]byte{}
		for k, v := range o.Replace {
			if cfg.Overlay[k], err = os.ReadFile(v); err != nil {
				log.Fatal(err)
			}
		}
	}
	pkgs, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		log.Fatal(err)
	}
	bad := false
	for _, p := range pkgs {
		for _, er := range p.Errors {
			fmt.Fprintln(os.Stderr, "load error:", p.PkgPath, er)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &exporter{fset: prog.Fset, tidx: map[string]int{}, funcs: map[string]J{}, seen: map[*ssa.Function]bool{}, pkgs: map[*ssa.Package]bool{}}
	globals := []J{}
	pkgj := []J{}
	methods := J{}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		e.pkgs[sp] = true
		pkgj = append(pkgj, J{"path": short(sp.Pkg.Path())})
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				e.enqueue(m)
			case *ssa.Global:
				globals = append(globals, J{"name": short(m.String()), "t": e.typ(m.Type())})
			case *ssa.Type:
				t := m.Type()
				e.typ(t)
				if _, isIface := t.Underlying().(*types.Interface); isIface {
					continue
				}
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					mm := J{}
					for k := 0; k < ms.Len(); k++ {
						f := prog.MethodValue(ms.At(k))
						if f != nil {
							e.enqueue(f)
							mm[ms.At(k).Obj().Name()] = e.fname(f)
						}
					}
					methods[fmt.Sprint(e.typ(tt))] = mm
				}
			}
		}
	}
	for len(e.queue) > 0 {
		f := e.queue[0]
		e.queue = e.queue[1:]
		e.function(f)
	}
	res := J{"types": e.types, "funcs": e.funcs, "globals": globals, "packages": pkgj, "methods": methods}
	b, err := json.Marshal(res)
	if err != nil {
		log.Fatal(err)
	}
	if *out == "" {
		os.Stdout.Write(b)
	} else if err := os.WriteFile(*out, b, 0644); err != nil {
		log.Fatal(err)
	}
}
