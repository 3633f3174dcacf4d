// Command emitcorpus runs the test and fuzz emitters on corpora and reports the
// source they produce and the functions it declares.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"

	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/tv"
)

type vector struct {
	Data        []byte                      `json:"data"`
	Constraints map[string]map[string]int64 `json:"constraints"`
}

type suite struct {
	Type    string   `json:"type"`
	Vectors []vector `json:"vectors"`
}

type corpus struct {
	ID     string  `json:"id"`
	Suites []suite `json:"suites"`
}

type file struct {
	Src   string   `json:"src"`
	Err   string   `json:"err"`
	Funcs []string `json:"funcs"`
	Pkg   string   `json:"pkg"`
}

type result struct {
	Tests file   `json:"tests"`
	Fuzz  file   `json:"fuzz"`
	Spoil string `json:"spoil"`
}

func emit(f func(string, *tv.Corpus) ([]byte, error), pkg string, c *tv.Corpus) (r file) {
	defer func() {
		if e := recover(); e != nil {
			r.Err = fmt.Sprintf("panic: %v", e)
		}
	}()
	b, err := f(pkg, c)
	if err != nil {
		r.Err = err.Error()
		return
	}
	r.Src = string(b)
	t, err := parser.ParseFile(token.NewFileSet(), "x.go", b, 0)
	if err != nil {
		r.Err = "the source is not valid: " + err.Error()
		return
	}
	r.Pkg = t.Name.Name
	for _, d := range t.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && ast.IsExported(fd.Name.Name) {
			r.Funcs = append(r.Funcs, fd.Name.Name)
		}
	}
	return
}

func build(c corpus) *tv.Corpus {
	r := &tv.Corpus{}
	for _, s := range c.Suites {
		t := tv.Suite{Type: s.Type}
		for _, v := range s.Vectors {
			w := tv.Vector{Data: v.Data}
			if v.Constraints != nil {
				w.Constraints = tv.Constraints{}
				for sc, m := range v.Constraints {
					for k, x := range m {
						if err := w.Constraints.Set(sc, k, x); err != nil {
							panic(err)
						}
					}
				}
			}
			t.Vectors = append(t.Vectors, w)
		}
		r.Suites = append(r.Suites, t)
	}
	return r
}

func main() {
	var cs []corpus
	if err := json.NewDecoder(os.Stdin).Decode(&cs); err != nil {
		panic(err)
	}
	out := os.Stdout
	os.Stdout = os.Stderr
	res := make([]result, len(cs))
	sem := make(chan bool, 6)
	done := make(chan bool)
	for i := range cs {
		go func(i int) {
			sem <- true
			c := build(cs[i])
			res[i].Tests = emit(gen.CorpusTests, cs[i].ID, c)
			res[i].Fuzz = emit(gen.Fuzzers, cs[i].ID, c)
			if fmt.Sprintf("%#v", c) != fmt.Sprintf("%#v", build(cs[i])) {
				res[i].Spoil = "the corpus was changed"
			}
			<-sem
			done <- true
		}(i)
	}
	for range cs {
		<-done
	}
	if err := json.NewEncoder(out).Encode(res); err != nil {
		panic(err)
	}
}
