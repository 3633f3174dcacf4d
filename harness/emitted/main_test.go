// Package emitted runs emitted corpus tests and fuzz entry points against
// parsers that record what they are given.
package emitted

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"testing"

	"github.com/mmcloughlin/trunnel/zzverif/lib"
	"github.com/mmcloughlin/trunnel/zzverif/rec"
)

type suite struct {
	Type    string `json:"type"`
	Vectors []struct {
		Data        []byte                      `json:"data"`
		Constraints map[string]map[string]int64 `json:"constraints"`
	} `json:"vectors"`
}

type corpus struct {
	ID     string  `json:"id"`
	Suites []suite `json:"suites"`
}

type pkg struct {
	tests map[string]func(*testing.T)
	fuzz  map[string]func([]byte) int
}

var registry = map[string]pkg{}

func constrained(s suite) bool {
	for _, v := range s.Vectors {
		if len(v.Constraints) > 0 {
			return true
		}
	}
	return false
}

// run runs one test with the given call made to fail and says whether the test passed and what was parsed.
func run(name string, f func(*testing.T), failat int) (bool, []rec.Call) {
	rec.Calls, rec.FailAt = nil, failat
	ok := top.Run(name, f)
	return ok, rec.Calls
}

func bag(cs [][]byte) string {
	var l []string
	for _, c := range cs {
		l = append(l, fmt.Sprintf("%x", c))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func data(cs []rec.Call) (r [][]byte) {
	for _, c := range cs {
		r = append(r, c.Data)
	}
	return
}

// top is the test all others are run in.
var top *testing.T

func TestAll(t *testing.T) {
	top = t
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cs []corpus
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	h := lib.New()
	for _, c := range cs {
		p, ok := registry[c.ID]
		if !ok || h.Expired() {
			continue
		}
		c := c
		in := func() interface{} { return c }
		key := func(n int) string { return fmt.Sprint(c.ID, n) }
		h.Case("one test per type whose vectors carry no context constraints, parsing each of its vectors once", key(0), in, func() (string, string) {
			seen := map[string]string{}
			for n, f := range p.tests {
				ok, calls := run(n, f, -1)
				if len(calls) == 0 {
					// a test of a type without vectors parses nothing
					seen["?"+n] = n
					continue
				}
				t := calls[0].Type
				for _, x := range calls {
					if x.Type != t {
						return fmt.Sprintf("%s parses %s and %s", n, t, x.Type), "one type per test"
					}
				}
				if seen[t] != "" {
					return fmt.Sprintf("%s and %s both test %s", n, seen[t], t), "one test per type"
				}
				seen[t] = n
				for _, s := range c.Suites {
					if s.Type != t {
						continue
					}
					if constrained(s) {
						return n + " tests " + t, "no test: its vectors carry context constraints"
					}
					var want [][]byte
					for _, v := range s.Vectors {
						want = append(want, v.Data)
					}
					if bag(data(calls)) != bag(want) {
						return fmt.Sprintf("%s parses %x", n, data(calls)), fmt.Sprintf("%x", want)
					}
				}
				if !ok {
					return n + " fails although nothing failed to parse", "passes"
				}
				for i := range calls {
					if ok, _ := run(n, f, i); ok {
						return fmt.Sprintf("%s passes although its parse %d of %d failed", n, i+1, len(calls)), "fails"
					}
				}
			}
			empty := 0
			for _, s := range c.Suites {
				if !constrained(s) && len(s.Vectors) == 0 {
					empty++
				} else if !constrained(s) && seen[s.Type] == "" {
					return "no test for " + s.Type, "one"
				}
			}
			for k, n := range seen {
				if k[0] == '?' {
					empty--
					_ = n
				}
			}
			if empty != 0 {
				return fmt.Sprintf("%d tests too few for types without vectors", empty), "one each"
			}
			return "", ""
		})
		h.Case("one fuzz entry point per type whose vectors carry no context constraints", key(1), in, func() (string, string) {
			seen := map[string]string{}
			for n, f := range p.fuzz {
				for _, d := range [][]byte{{}, {0}, []byte("some data")} {
					rec.Calls, rec.FailAt = nil, -1
					r := f(d)
					if len(rec.Calls) != 1 || string(rec.Calls[0].Data) != string(d) {
						return fmt.Sprintf("%s(%q) parses %v", n, d, rec.Calls), "its argument, once"
					}
					if r != 1 {
						return fmt.Sprintf("%s returns %d when parsing works", n, r), "1"
					}
					t := rec.Calls[0].Type
					if seen[t] != "" && seen[t] != n {
						return fmt.Sprintf("%s and %s both fuzz %s", n, seen[t], t), "one entry point per type"
					}
					seen[t] = n
					rec.Calls, rec.FailAt = nil, 0
					if r := f(d); r != 0 {
						return fmt.Sprintf("%s returns %d when parsing fails", n, r), "0"
					}
				}
			}
			for _, s := range c.Suites {
				if constrained(s) != (seen[s.Type] == "") {
					return fmt.Sprintf("entry point for %s: %q", s.Type, seen[s.Type]), fmt.Sprintf("constrained: %v", constrained(s))
				}
			}
			return "", ""
		})
	}
	h.Done()
	os.Exit(0)
}
