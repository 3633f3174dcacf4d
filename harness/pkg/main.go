// Searches for sets of definitions and failing writes for which generating a
// package leaves other files than it should or does not report the failure.
package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/fault"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

type set struct {
	ID        string   `json:"id"`
	Texts     []string `json:"texts"`
	Supported *bool    `json:"supported"`
}

const parsers, tests, fuzzers = "gen-marshallers.go", "gen-marshallers_test.go", "gen-fuzz.go"

// obstacles are prepared in the output directory; each makes one write fail.
var obstacles = []struct {
	name string
	late bool // in the way only when there are vectors
	make func(dir string) error
}{
	{"none", false, nil},
	{"no directory", false, os.RemoveAll},
	{"directory in place of parsers", false, func(d string) error { return os.Mkdir(filepath.Join(d, parsers), 0o700) }},
	{"no room for parsers", false, func(d string) error { return os.Symlink("/dev/full", filepath.Join(d, parsers)) }},
	{"directory in place of tests", true, func(d string) error { return os.Mkdir(filepath.Join(d, tests), 0o700) }},
	{"no room for tests", true, func(d string) error { return os.Symlink("/dev/full", filepath.Join(d, tests)) }},
	{"directory in place of fuzzers", true, func(d string) error { return os.Mkdir(filepath.Join(d, fuzzers), 0o700) }},
	{"no room for fuzzers", true, func(d string) error { return os.Symlink("/dev/full", filepath.Join(d, fuzzers)) }},
	{"file in place of testdata", true, func(d string) error { return os.WriteFile(filepath.Join(d, "testdata"), nil, 0o600) }},
	{"file in place of the corpus", true, func(d string) error {
		if err := os.Mkdir(filepath.Join(d, "testdata"), 0o700); err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(d, "testdata", "fuzz"), nil, 0o600)
	}},
}

var testfn = regexp.MustCompile(`(?m)^func (Test\w+)\(`)

func names(src []byte) string {
	var out []string
	for _, m := range testfn.FindAllSubmatch(src, -1) {
		out = append(out, string(m[1]))
	}
	return strings.Join(out, " ")
}

func files(dir string) (out []string) {
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			r, _ := filepath.Rel(dir, p)
			out = append(out, r)
		}
		return nil
	})
	sort.Strings(out)
	return
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	f, err := os.Open(os.Args[1])
	must(err)
	var sets []set
	must(json.NewDecoder(f).Decode(&sets))
	h := lib.New()
	scratch := os.Args[2]
	for n := 0; !h.Expired(); n++ {
		for _, s := range sets {
			var fs []*ast.File
			for _, t := range s.Texts {
				f, err := parse.String(t)
				must(err)
				fs = append(fs, f)
			}
			for _, o := range obstacles {
				if h.Expired() {
					break
				}
				o := o
				seed := h.Rand.Int63()
				if n == 0 {
					seed = 1
				}
				in := func() interface{} {
					return map[string]interface{}{"definitions": strings.Join(s.Texts, "\n// ---- next file\n"), "obstacle": o.name, "seed": seed}
				}
				h.Case("package", fmt.Sprint(s.ID, o.name, seed), in, func() (string, string) { return run(s, fs, o.name, o.late, o.make, seed, scratch) })
			}
		}
		if n == 20 {
			break
		}
	}
	h.Done()
}

func run(s set, fs []*ast.File, name string, late bool, prepare func(string) error, seed int64, scratch string) (string, string) {
	dir, err := os.MkdirTemp(scratch, "pkg")
	must(err)
	defer os.RemoveAll(dir)
	if prepare != nil {
		must(prepare(dir))
	}
	pkg := "p" + s.ID
	src, merr := gen.Marshallers(pkg, fs)
	c, cerr := tv.GenerateFiles(fs, tv.WithRandom(random.NewWithSeed(seed)))
	supported := cerr != fault.ErrNotImplemented
	if s.Supported != nil && *s.Supported != supported {
		return fmt.Sprintf("vectors: %v", cerr), fmt.Sprintf("constructs supported: %v", *s.Supported)
	}
	bad := name != "none" && (supported || !late) || merr != nil || cerr != nil && supported
	err = gen.Package(gen.Config{Package: pkg, Dir: dir, Seed: seed}, fs)
	if bad != (err != nil) {
		if bad {
			return "no error", "an error: " + name
		}
		return "error: " + err.Error(), "no error"
	}
	if bad {
		return "", ""
	}
	want := map[string]bool{parsers: true}
	if supported {
		want[tests], want[fuzzers] = true, true
	}
	for _, n := range files(dir) {
		if strings.HasPrefix(n, "testdata") {
			if !supported && !late {
				return "wrote " + n, "no corpus"
			}
			continue
		}
		if !want[n] {
			return "wrote " + n, "only the files due"
		}
		delete(want, n)
	}
	for n := range want {
		return "no file " + n, "it is written"
	}
	got, err := os.ReadFile(filepath.Join(dir, parsers))
	must(err)
	if string(got) != string(src) {
		return "parsers differ from those of the definitions: " + string(got), string(src)
	}
	if !supported {
		return "", ""
	}
	t, terr := gen.CorpusTests(pkg, c)
	z, zerr := gen.Fuzzers(pkg, c)
	must(terr)
	must(zerr)
	got, err = os.ReadFile(filepath.Join(dir, tests))
	must(err)
	if names(got) != names(t) || !strings.Contains(string(got), "\npackage "+pkg+"\n") {
		return "tests " + names(got), names(t)
	}
	got, err = os.ReadFile(filepath.Join(dir, fuzzers))
	must(err)
	if string(got) != string(z) {
		return string(got), string(z)
	}
	return "", ""
}
