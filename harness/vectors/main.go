// Searches for test vectors that are not encodings of their type, and for
// vectors whose bytes change while others are made.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

// watcher keeps up to n vectors of what it is given and remembers the bytes of
// each vector it has seen.
type watcher struct {
	h    *lib.H
	n    int
	seen []snapshot
}

type snapshot struct {
	data, was []byte
}

func (w *watcher) SelectVectors(vs []tv.Vector) []tv.Vector {
	if len(vs) > w.n {
		p := w.h.Rand.Perm(len(vs))[:w.n]
		sort.Ints(p)
		kept := make([]tv.Vector, 0, w.n)
		for _, i := range p {
			kept = append(kept, vs[i])
		}
		vs = kept
	}
	for _, v := range vs {
		w.seen = append(w.seen, snapshot{v.Data, append([]byte{}, v.Data...)})
	}
	return vs
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	f, err := os.Open(os.Args[1])
	must(err)
	var sets []*set
	must(json.NewDecoder(f).Decode(&sets))
	h := lib.New()
	for _, s := range sets {
		s.index()
	}
	lost := map[string]bool{}
	for n := 0; !h.Expired(); n++ {
		for _, s := range sets {
			if h.Expired() {
				break
			}
			seed := h.Rand.Int63()
			keep := []int{4, 16, 40}[h.Rand.Intn(3)]
			in := map[string]interface{}{"definitions": strings.Join(s.Texts, "\n// ---- next file\n"), "seed": seed, "kept": keep}
			h.Case("vectors", fmt.Sprint(s.ID, seed), func() interface{} { return in }, func() (string, string) { return run(h, s, seed, keep, in, lost) })
		}
	}
	for id := range lost {
		h.Known("forgotten-tag", id)
	}
	h.Done()
}

func run(h *lib.H, s *set, seed int64, keep int, in map[string]interface{}, lost map[string]bool) (string, string) {
	var fs []*ast.File
	for _, t := range s.Texts {
		f, err := parse.String(t)
		must(err)
		fs = append(fs, f)
	}
	w := &watcher{h: h, n: keep}
	c, err := tv.GenerateFiles(fs, tv.WithSelector(w), tv.WithRandom(random.NewWithSeed(seed)))
	if err != nil {
		h.Count("unsupported")
		return "", ""
	}
	for _, x := range w.seen {
		if !bytes.Equal(x.data, x.was) {
			return fmt.Sprintf("the bytes %x of a vector became %x", x.was, x.data), "vectors made later do not alter it"
		}
	}
	types := 0
	for _, su := range c.Suites {
		st := s.structs[su.Type]
		if st == nil {
			return "vectors for " + su.Type, "vectors for the structs defined"
		}
		types++
		for _, v := range su.Vectors {
			in["type"], in["bytes"], in["constraints"] = su.Type, hex.EncodeToString(v.Data), v.Constraints
			cv := ctxvals{}
			for n, c := range s.contexts {
				for _, f := range c.Fields {
					x := h.Rand.Uint64() >> uint(h.Rand.Intn(64))
					if f.W < 64 {
						x &= uint64(1)<<f.W - 1
					}
					cv[n+"."+f.Name] = x
				}
			}
			for n, vals := range v.Constraints {
				for k, x := range vals {
					w := width(s, n, k)
					if w == 0 {
						return "recorded " + n + "." + k, "values of context fields only"
					}
					if w < 64 && (x < 0 || x>>w != 0) {
						return fmt.Sprintf("recorded %s.%s = %d", n, k, x), fmt.Sprintf("a value of %d bits", w)
					}
					cv[n+"."+k] = uint64(x)
				}
			}
			d := &decoder{set: s, data: v.Data, ctx: cv}
			_, next, ok := d.structure(su.Type, 0, len(v.Data))
			h.Count("vectors")
			if loses(s, su.Type) {
				if !ok || next != len(v.Data) {
					lost[s.ID] = true
				}
				continue
			}
			if !ok {
				return "not an encoding", "an encoding of its type"
			}
			if next != len(v.Data) {
				return fmt.Sprintf("%d bytes left over", len(v.Data)-next), "an encoding of its type in full"
			}
		}
	}
	delete(in, "type")
	if types != len(s.structs) {
		return fmt.Sprintf("%d types have vectors", types), fmt.Sprintf("%d types", len(s.structs))
	}
	return "", ""
}

func width(s *set, ctx, field string) uint {
	if c := s.contexts[ctx]; c != nil {
		for _, f := range c.Fields {
			if f.Name == field {
				return f.W
			}
		}
	}
	return 0
}

func loses(s *set, n string) bool {
	for _, x := range s.Loses {
		if x == n {
			return true
		}
	}
	return false
}
