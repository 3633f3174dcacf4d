From 70eb411c329c2f9d7a7b9d8b1d58c003d6069ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:29 +0000
Subject: [PATCH 01/11] fix: complement of an empty interval list is the full
 range

Subtracting an empty set from a set used to give the empty set.
---
 internal/intervals/intervals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index a467908..7637b1b 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -131,7 +131,7 @@ func complement(is []Interval) []Interval {
 		}
 		s = i.hi + 1
 	}
-	if s != 0 {
+	if len(is) == 0 || s != 0 {
 		c = append(c, OpenRight(s))
 	}
 	return c
-- 
2.43.0


From f2ae199c657bcc50c2b0d2d0b3b4a3d98df2e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:27 +0000
Subject: [PATCH 02/11] fix: report reversed integer ranges as an error instead
 of panicking

---
 inspect/inspect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 4ab5937..7cb2165 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -222,6 +222,9 @@ func (r *Resolver) Intervals(l *ast.IntegerList) (*intervals.Set, error) {
 		if err != nil {
 			return nil, err
 		}
+		if uint64(hi) < uint64(lo) {
+			return nil, errors.New("range bounds out of order")
+		}
 		is[i] = intervals.Range(uint64(lo), uint64(hi)) // XXX cast
 	}
 	if intervals.Overlaps(is) {
-- 
2.43.0


From cfcabe1f0a23c5af514351555e5f5b962be6c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:16 +0000
Subject: [PATCH 03/11] fix: draw from the full 64-bit range instead of looping
 forever

---
 internal/intervals/intervals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 7637b1b..0bf2654 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -210,6 +210,9 @@ func (s Set) RandomWithGenerator(rnd random.Interface) uint64 {
 			delta: i.hi - cuml + 1,
 		})
 	}
+	if cuml == 0 { // full 64-bit range
+		return randuint64(rnd)
+	}
 	r := randuint64n(rnd, cuml)
 	for _, step := range steps {
 		if r < step.upper {
-- 
2.43.0


From 9d70128dee3c1623fd38f36cc7c432be36ea1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:23 +0000
Subject: [PATCH 04/11] fix: generate compiling code for strings in structs
 whose name starts with i

---
 gen/decl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index 77ec15e..9a6776d 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -167,9 +167,13 @@ func (g *generator) parseMember(m ast.Member) {
 func (g *generator) parseType(lhs string, t ast.Type) {
 	switch t := t.(type) {
 	case *ast.NulTermString:
-		g.printf("i := bytes.IndexByte(%s, 0)\n", g.data)
-		g.printf("if i < 0 { return nil, errors.New(\"could not parse nul-term string\") }\n")
-		g.printf("%s, %s = string(%s[:i]), %s[i+1:]\n", lhs, g.data, g.data, g.data)
+		i := "i"
+		if g.receiver == i {
+			i = "nul"
+		}
+		g.printf("%s := bytes.IndexByte(%s, 0)\n", i, g.data)
+		g.printf("if %s < 0 { return nil, errors.New(\"could not parse nul-term string\") }\n", i)
+		g.printf("%s, %s = string(%s[:%s]), %s[%s+1:]\n", lhs, g.data, g.data, i, g.data, i)
 
 	case *ast.IntType:
 		g.parseIntType(lhs, t)
-- 
2.43.0


From de41801dbe9c3cb2b2f8e262830184071e1f3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:23 +0000
Subject: [PATCH 05/11] fix: generated parsers reject lengths beyond the data
 instead of crashing

---
 gen/decl.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index 9a6776d..606fc23 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -23,8 +23,9 @@ type generator struct {
 
 	resolver *inspect.Resolver
 
-	receiver string // method receiver variable
-	data     string // data variable
+	current  *ast.Struct // struct being generated
+	receiver string      // method receiver variable
+	data     string      // data variable
 }
 
 func (g *generator) files(pkg string, fs []*ast.File) error {
@@ -73,12 +74,14 @@ func (g *generator) structure(s *ast.Struct) {
 		return
 	}
 
+	g.current = s
 	g.receiver = strings.ToLower(s.Name[:1])
 
 	g.structDecl(s)
 	g.parse(s)
 	g.parseConstructor(s)
 
+	g.current = nil
 	g.receiver = ""
 }
 
@@ -229,6 +232,16 @@ func (g *generator) parseArray(lhs string, base ast.Type, s ast.LengthConstraint
 		g.printf("}\n")
 
 	case *ast.IDRef:
+		if g.wide(s) {
+			// Not allocated upfront: the count may be far beyond the data.
+			g.printf("%s = make([]%s, 0)\n", lhs, g.tipe(base))
+			g.printf("for idx := uint64(0); idx < uint64(%s); idx++ {\n", g.ref(s))
+			g.printf("var tmp %s\n", g.tipe(base))
+			g.parseType("tmp", base)
+			g.printf("%s = append(%s, tmp)\n", lhs, lhs)
+			g.printf("}\n")
+			return
+		}
 		size := fmt.Sprintf("int(%s)", g.ref(s))
 		g.printf("%s = make([]%s, %s)\n", lhs, g.tipe(base), size)
 		g.printf("for idx := 0; idx < %s; idx++ {\n", size)
@@ -290,7 +303,11 @@ func (g *generator) constrained(c ast.LengthConstraint, f func()) {
 
 	case *ast.IDRef:
 		n = fmt.Sprintf("int(%s)", g.ref(c))
-		g.lengthCheck(n)
+		if g.wide(c) {
+			g.printf("if uint64(len(%s)) < uint64(%s) { return nil, errors.New(\"data too short\") }\n", g.data, g.ref(c))
+		} else {
+			g.lengthCheck(n)
+		}
 
 	default:
 		panic(unexpected(c))
@@ -311,6 +328,12 @@ func (g *generator) ref(r *ast.IDRef) string {
 	return r.Scope + "." + name(r.Name)
 }
 
+// wide reports whether the referenced integer may not fit in an int.
+func (g *generator) wide(r *ast.IDRef) bool {
+	t, err := g.resolver.IntType(r, g.current)
+	return err != nil || t.Size >= 32
+}
+
 func (g *generator) lengthCheck(min string) {
 	g.printf("if len(%s) < %s { return nil, errors.New(\"data too short\") }\n", g.data, min)
 }
-- 
2.43.0


From 2c83bc1a068914e46926ab1f86d5e7dc10011829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:34 +0000
Subject: [PATCH 06/11] fix: generated parsers reject remaining arrays of empty
 structs instead of looping forever

---
 gen/decl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gen/decl.go b/gen/decl.go
index 606fc23..717b72b 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -257,7 +257,14 @@ func (g *generator) parseArray(lhs string, base ast.Type, s ast.LengthConstraint
 		g.printf("%s = make([]%s, 0)\n", lhs, g.tipe(base))
 		g.printf("for len(%s) > 0 {\n", g.data)
 		g.printf("var tmp %s\n", g.tipe(base))
+		_, isstruct := base.(*ast.StructRef)
+		if isstruct {
+			g.printf("before := len(%s)\n", g.data)
+		}
 		g.parseType("tmp", base)
+		if isstruct {
+			g.printf("if len(%s) == before { return nil, errors.New(\"array element is empty\") }\n", g.data)
+		}
 		g.printf("%s = append(%s, tmp)\n", lhs, lhs)
 		g.printf("}\n")
 
-- 
2.43.0


From 0651b1d98dd394fc23ecc259f23223ba57b13179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:08 +0000
Subject: [PATCH 07/11] fix: keep context parameter names apart from other
 names in the emitted code

Contexts named like a Go keyword, a predeclared identifier, a local variable of
the emitted parser or its receiver gave code that does not compile.
---
 gen/decl.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index 717b72b..f044f53 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -2,6 +2,8 @@ package gen
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
 	"strconv"
 	"strings"
 
@@ -75,7 +77,7 @@ func (g *generator) structure(s *ast.Struct) {
 	}
 
 	g.current = s
-	g.receiver = strings.ToLower(s.Name[:1])
+	g.receiver = strings.ToLower(name(s.Name)[:1])
 
 	g.structDecl(s)
 	g.parse(s)
@@ -332,7 +334,7 @@ func (g *generator) ref(r *ast.IDRef) string {
 	if r.Scope == "" {
 		return g.receiver + "." + name(r.Name)
 	}
-	return r.Scope + "." + name(r.Name)
+	return param(r.Scope) + "." + name(r.Name)
 }
 
 // wide reports whether the referenced integer may not fit in an int.
@@ -394,7 +396,7 @@ func (g *generator) tipe(t interface{}) string {
 func contextSignature(names []string) string {
 	s := ""
 	for _, n := range names {
-		s += ", " + n + " " + name(n)
+		s += ", " + param(n) + " " + name(n)
 	}
 	return s
 }
@@ -402,11 +404,24 @@ func contextSignature(names []string) string {
 func contextArgs(names []string) string {
 	s := ""
 	for _, n := range names {
-		s += ", " + n
+		s += ", " + param(n)
 	}
 	return s
 }
 
+// param returns the parameter name for the named context, avoiding names that
+// are not available for it in generated functions.
+func param(n string) string {
+	if len(n) == 1 || token.Lookup(n).IsKeyword() || types.Universe.Lookup(n) != nil {
+		return n + "_"
+	}
+	switch n {
+	case "data", "cur", "err", "idx", "tmp", "nul", "before", "restore", "binary", "bytes", "errors":
+		return n + "_"
+	}
+	return n
+}
+
 func unexpected(t interface{}) string {
 	return fmt.Sprintf("unexpected type %T", t)
 }
-- 
2.43.0


From 620566c89585df9f3133665379e8d8dcf463c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:19 +0000
Subject: [PATCH 08/11] fix: compare with constants wider than the field in
 emitted code

A value list may hold numbers that do not fit in the field or tag compared with.
The emitted comparison did not compile.
---
 gen/decl.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index f044f53..a8ebc1d 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -219,7 +219,7 @@ func (g *generator) parseIntType(lhs string, t *ast.IntType) {
 		g.printf("%s = binary.BigEndian.Uint%d(%s)\n", lhs, t.Size, g.data)
 	}
 	if t.Constraint != nil {
-		g.printf("if !(%s) {\n", g.conditional(lhs, t.Constraint))
+		g.printf("if !(%s) {\n", g.conditional(lhs, t.Size, t.Constraint))
 		g.printf("return nil, errors.New(\"integer constraint violated\")\n")
 		g.printf("}\n")
 	}
@@ -287,13 +287,16 @@ func (g *generator) parseUnionMember(u *ast.UnionMember) {
 		return
 	}
 
-	tag := g.ref(u.Tag)
+	tag, size := g.ref(u.Tag), uint(64)
+	if t, err := g.resolver.IntType(u.Tag, g.current); err == nil {
+		size = t.Size
+	}
 	g.printf("switch {\n")
 	for _, c := range u.Cases {
 		if c.Case == nil {
 			g.printf("default:\n")
 		} else {
-			g.printf("case %s:\n", g.conditional(tag, c.Case))
+			g.printf("case %s:\n", g.conditional(tag, size, c.Case))
 		}
 		for _, m := range c.Members {
 			g.parseMember(m)
@@ -359,19 +362,30 @@ func (g *generator) integer(i ast.Integer) string {
 	return strconv.FormatInt(x, 10)
 }
 
-func (g *generator) conditional(v string, c *ast.IntegerList) string {
+// conditional builds a condition for membership of the size bits wide variable
+// v in the list.
+func (g *generator) conditional(v string, size uint, c *ast.IntegerList) string {
 	clauses := make([]string, len(c.Ranges))
 	for i, r := range c.Ranges {
 		// Single case
 		if r.High == nil {
-			clauses[i] = fmt.Sprintf("%s == %s", v, g.integer(r.Low))
+			clauses[i] = fmt.Sprintf("%s == %s", g.widen(v, size, r.Low), g.integer(r.Low))
 		} else {
-			clauses[i] = fmt.Sprintf("(%s <= %s && %s <= %s)", g.integer(r.Low), v, v, g.integer(r.High))
+			clauses[i] = fmt.Sprintf("(%s <= %s && %s <= %s)", g.integer(r.Low), g.widen(v, size, r.Low), g.widen(v, size, r.High), g.integer(r.High))
 		}
 	}
 	return strings.Join(clauses, " || ")
 }
 
+// widen builds an expression for v that can be compared with i, which may not
+// fit in the size bits of v.
+func (g *generator) widen(v string, size uint, i ast.Integer) string {
+	if x, err := g.resolver.Integer(i); err == nil && size < 63 && x>>size > 0 {
+		return fmt.Sprintf("uint64(%s)", v)
+	}
+	return v
+}
+
 func (g *generator) tipe(t interface{}) string {
 	switch t := t.(type) {
 	case *ast.NulTermString:
-- 
2.43.0


From c266bee77282037b2a6ba613c1d2a30bd0573bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:19 +0000
Subject: [PATCH 09/11] fix: do not share storage between products of test
 vectors

Appending to the bytes of the first factor overwrote products made earlier when
there was spare capacity.
---
 tv/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index ea0fb7d..fea26da 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -31,7 +31,7 @@ func cross(a, b []Vector) ([]Vector, error) {
 				return nil, err
 			}
 			v := Vector{
-				Data:        append(u.Data, w.Data...),
+				Data:        append(append([]byte{}, u.Data...), w.Data...),
 				Constraints: m,
 			}
 			p = append(p, v)
-- 
2.43.0


From ea151678c8112c53bbfc7eddfebf000b15760483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:19 +0000
Subject: [PATCH 10/11] fix: drop test vectors whose fields cannot hold the
 values asked of them

A tag, count or length forced by a later member was written although it did not
fit in the field or was not in the value list of the field.
---
 tv/generator.go | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index fea26da..a6c71a3 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -214,6 +214,10 @@ func (g *generator) intType(name string, t *ast.IntType) ([]Vector, error) {
 
 	switch x, ok := g.constraints.LookupLocal(name); {
 	case ok:
+		valid, err := g.valid(x, t)
+		if err != nil || !valid {
+			return []Vector{}, err
+		}
 		b = intbytes(x, t.Size)
 
 	case t.Constraint != nil:
@@ -293,7 +297,14 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 
 	for _, b := range options {
 		g.constraints = base.Clone()
-		g.constraints.LookupOrCreateRef(u.Tag, int64(b.Set.RandomWithGenerator(g.rnd))) // XXX cast
+		t := g.constraints.LookupOrCreateRef(u.Tag, int64(b.Set.RandomWithGenerator(g.rnd))) // XXX cast
+		valid, err := g.validContext(u.Tag, t)
+		if err != nil {
+			return nil, err
+		}
+		if !valid {
+			continue
+		}
 		vs, err := g.members([]Vector{g.empty()}, b.Case.Members)
 		if err != nil {
 			return nil, err
@@ -323,6 +334,13 @@ func (g *generator) lenconstrain(c ast.LengthConstraint, vs []Vector) ([]Vector,
 		if m != n {
 			continue
 		}
+		valid, err := g.validContext(r, n)
+		if err != nil {
+			return nil, err
+		}
+		if !valid {
+			continue
+		}
 		results = append(results, Vector{
 			Data:        v.Data,
 			Constraints: cst,
@@ -332,6 +350,34 @@ func (g *generator) lenconstrain(c ast.LengthConstraint, vs []Vector) ([]Vector,
 	return results, nil
 }
 
+// valid reports whether an integer field of type t can have the value x.
+func (g *generator) valid(x int64, t *ast.IntType) (bool, error) {
+	if t.Size < 64 && uint64(x)>>t.Size != 0 {
+		return false, nil
+	}
+	if t.Constraint == nil {
+		return true, nil
+	}
+	s, err := g.resolver.Intervals(t.Constraint)
+	if err != nil {
+		return false, err
+	}
+	return s.Contains(uint64(x)), nil
+}
+
+// validContext reports whether x is possible for the context field r refers to.
+// Fields of the struct itself are checked when they are generated.
+func (g *generator) validContext(r *ast.IDRef, x int64) (bool, error) {
+	if r.Scope == "" {
+		return true, nil
+	}
+	t, err := g.resolver.IntType(r, g.strct)
+	if err != nil {
+		return false, err
+	}
+	return g.valid(x, t)
+}
+
 // empty returns an empty Vector with current constraints.
 func (g *generator) empty() Vector {
 	return g.vector([]byte{})
-- 
2.43.0


From bb35739d59fa50065bd6005d62afce0f8ab6c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:19 +0000
Subject: [PATCH 11/11] fix: skip a default case that no tag value selects when
 making test vectors

Drawing a tag from the empty set of values crashed.
---
 internal/intervals/intervals.go | 5 +++++
 tv/generator.go                 | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 0bf2654..ad661e0 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -105,6 +105,11 @@ func (s Set) String() string {
 	return strings.Join(is, ",")
 }
 
+// Empty reports whether the set contains nothing.
+func (s Set) Empty() bool {
+	return len(s.intervals) == 0
+}
+
 // Contains returns whether x is contained in the set.
 func (s Set) Contains(x uint64) bool {
 	for _, i := range s.intervals {
diff --git a/tv/generator.go b/tv/generator.go
index a6c71a3..fab121c 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -296,6 +296,9 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 	results := []Vector{}
 
 	for _, b := range options {
+		if b.Set.Empty() {
+			continue
+		}
 		g.constraints = base.Clone()
 		t := g.constraints.LookupOrCreateRef(u.Tag, int64(b.Set.RandomWithGenerator(g.rnd))) // XXX cast
 		valid, err := g.validContext(u.Tag, t)
-- 
2.43.0

