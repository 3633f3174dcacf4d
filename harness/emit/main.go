// Command emit runs the parser generator on sets of definitions and reports
// the source it produces.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
)

type set struct {
	ID    string   `json:"id"`
	Texts []string `json:"texts"`
}

type result struct {
	ID  string `json:"id"`
	Src string `json:"src"`
	Err string `json:"err"`
}

func run(s set) (r result) {
	r.ID = s.ID
	defer func() {
		if e := recover(); e != nil {
			r.Err = fmt.Sprintf("panic: %v", e)
		}
	}()
	var fs []*ast.File
	for _, t := range s.Texts {
		f, err := parse.String(t)
		if err != nil {
			r.Err = "parse: " + err.Error()
			return
		}
		fs = append(fs, f)
	}
	b, err := gen.Marshallers(s.ID, fs)
	if err != nil {
		r.Err = err.Error()
		return
	}
	r.Src = string(b)
	return
}

func main() {
	var sets []set
	if err := json.NewDecoder(os.Stdin).Decode(&sets); err != nil {
		panic(err)
	}
	out := os.Stdout
	os.Stdout = os.Stderr
	// the sets are independent; four at a time
	res := make([]result, len(sets))
	sem := make(chan bool, 6)
	done := make(chan bool)
	for i := range sets {
		go func(i int) {
			sem <- true
			res[i] = run(sets[i])
			<-sem
			done <- true
		}(i)
	}
	for range sets {
		<-done
	}
	if err := json.NewEncoder(out).Encode(res); err != nil {
		panic(err)
	}
}
