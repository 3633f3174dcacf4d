// Searches for corpora whose copy on disk differs from them, and for failures
// to write that are not reported.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

type suite struct {
	Type string
	Data [][]byte
}

var types = []string{"a", "b", "Cell", "cell", "ext_or_pad", "x1", "corpus", "very_long_type_name_of_a_struct", "A"}

func data(r *rand.Rand, some [][]byte) []byte {
	if len(some) > 0 && r.Intn(5) == 0 {
		return append([]byte(nil), some[r.Intn(len(some))]...)
	}
	n := []int{0, 1, 2, 3, 8, 31, 32, 33, 64, 100}[r.Intn(10)]
	if r.Intn(200) == 0 {
		n = 70000
	}
	if n == 0 && r.Intn(2) == 0 {
		return nil
	}
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	}
	if r.Intn(4) == 0 {
		b = append(b, '\n')
	}
	return b
}

func random(r *rand.Rand) []suite {
	var ss []suite
	var all [][]byte
	for n := r.Intn(5); n > 0; n-- {
		s := suite{Type: types[r.Intn(len(types))]}
		for m := r.Intn(5); m > 0; m-- {
			d := data(r, all)
			all = append(all, d)
			s.Data = append(s.Data, d)
		}
		if r.Intn(100) == 0 {
			for m := 0; m < 400; m++ {
				s.Data = append(s.Data, []byte{byte(m), byte(m >> 8), 7})
			}
		}
		ss = append(ss, s)
	}
	return ss
}

func build(r *rand.Rand, ss []suite) *tv.Corpus {
	c := &tv.Corpus{}
	for i, s := range ss {
		var vs []tv.Vector
		for j, d := range s.Data {
			v := tv.NewVector(d)
			if (i+j)%3 == 0 {
				k := tv.NewConstraints()
				_ = k.Set("c", "x", int64(j))
				v.Constraints = k
			}
			vs = append(vs, v)
		}
		if r.Intn(2) == 0 {
			c.AddVectors(s.Type, vs)
		} else {
			c.AddSuite(tv.Suite{Type: s.Type, Vectors: vs})
		}
	}
	return c
}

func name(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b)) }

// tree lists the files below d with their contents.
func tree(d string) (map[string][]byte, map[string]bool, error) {
	files, dirs := map[string][]byte{}, map[string]bool{}
	err := filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(d, p)
		if e.IsDir() {
			dirs[rel] = true
			return nil
		}
		b, err := os.ReadFile(p)
		files[rel] = b
		return err
	})
	return files, dirs, err
}

func keys(m map[string][]byte) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func main() {
	h := lib.New()
	base, err := os.MkdirTemp(".", "corpus")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	for i := 0; !h.Expired(); i++ {
		ss := random(h.Rand)
		inp := func() interface{} {
			var out []string
			for _, s := range ss {
				out = append(out, fmt.Sprintf("%s: %d vectors %.60x", s.Type, len(s.Data), s.Data))
			}
			return out
		}
		key := ""
		if len(ss) > 0 {
			key = fmt.Sprint(i)
		}
		c := build(h.Rand, ss)
		h.Case("lookup by type", key, inp, func() (string, string) {
			for _, t := range append([]string{"", "nope"}, types...) {
				var want *suite
				for k := range ss {
					if ss[k].Type == t {
						want = &ss[k]
						break
					}
				}
				got := c.Vectors(t)
				if want == nil {
					if len(got) != 0 {
						return fmt.Sprintf("%d vectors for %q", len(got), t), "none"
					}
					continue
				}
				if len(got) != len(want.Data) {
					return fmt.Sprintf("%d vectors for %q", len(got), t), fmt.Sprint(len(want.Data))
				}
				for k := range got {
					if !bytes.Equal(got[k].Data, want.Data[k]) {
						return fmt.Sprintf("%q vector %d is %x", t, k, got[k].Data), fmt.Sprintf("%x", want.Data[k])
					}
				}
			}
			return "", ""
		})
		dir := filepath.Join(base, fmt.Sprint(i))
		if err := os.Mkdir(dir, 0755); err != nil {
			panic(err)
		}
		wantF, wantD := map[string][]byte{}, map[string]bool{".": true}
		for _, s := range ss {
			wantD[s.Type], wantD[filepath.Join(s.Type, "corpus")] = true, true
			for _, d := range s.Data {
				wantF[filepath.Join(s.Type, "corpus", name(d))] = d
			}
		}
		// something in the way: a file for a directory, a directory for a file, or an older file
		obstacle := ""
		if len(ss) > 0 && h.Rand.Intn(3) == 0 {
			s := ss[h.Rand.Intn(len(ss))]
			switch k := h.Rand.Intn(4); {
			case k == 0:
				obstacle = s.Type
				os.WriteFile(filepath.Join(dir, s.Type), []byte("x"), 0644)
			case k == 1:
				obstacle = s.Type + "/corpus"
				os.Mkdir(filepath.Join(dir, s.Type), 0755)
				os.WriteFile(filepath.Join(dir, s.Type, "corpus"), nil, 0644)
			case k == 2 && len(s.Data) > 0:
				d := s.Data[h.Rand.Intn(len(s.Data))]
				obstacle = s.Type + "/corpus/" + name(d)
				os.MkdirAll(filepath.Join(dir, s.Type, "corpus", name(d)), 0755)
			case k == 3 && len(s.Data) > 0:
				d := s.Data[h.Rand.Intn(len(s.Data))]
				os.MkdirAll(filepath.Join(dir, s.Type, "corpus"), 0755)
				os.WriteFile(filepath.Join(dir, s.Type, "corpus", name(d)), append(append([]byte(nil), d...), "older and longer"...), 0644)
			}
		}
		h.Case("corpus on disk", key, func() interface{} {
			return map[string]interface{}{"corpus": inp(), "obstacle": obstacle}
		}, func() (string, string) {
			err := tv.WriteCorpus(c, dir)
			if obstacle != "" {
				if err == nil {
					return "no error", "an error as " + obstacle + " is in the way"
				}
				return "", ""
			}
			if err != nil {
				return "error " + err.Error(), "no error"
			}
			gotF, gotD, err := tree(dir)
			if err != nil {
				return err.Error(), "a readable tree"
			}
			for p, d := range wantF {
				g, ok := gotF[p]
				if !ok {
					return "no file " + p, fmt.Sprintf("%x", d)
				}
				if !bytes.Equal(g, d) {
					return fmt.Sprintf("%s holds %.200x", p, g), fmt.Sprintf("%.200x", d)
				}
			}
			if len(gotF) != len(wantF) {
				return fmt.Sprint(keys(gotF)), fmt.Sprint(keys(wantF))
			}
			if fmt.Sprint(gotD) != fmt.Sprint(wantD) {
				return fmt.Sprint(gotD), fmt.Sprint(wantD)
			}
			return "", ""
		})
		os.RemoveAll(dir)
	}
	h.Done()
}
