package main

import (
	"fmt"
	"reflect"
	"strings"
)

// C19: the order of named entries and list elements.

// oplace is a collection somewhere in a document.
type oplace struct {
	name string
	d    *RootDef
	doc  func(entries []KV) *Val
	key  func(string) string
	val  func(i int) *Val
	get  []string // accessor path
	out  []string // path in the written tree
	list bool
}

func follow(t *Val, path []string) *Val {
	for _, p := range path {
		if t == nil {
			return nil
		}
		if t.K == KList {
			i := 0
			fmt.Sscan(p, &i)
			if i >= len(t.L) {
				return nil
			}
			t = t.L[i]
			continue
		}
		t = t.get(p)
	}
	return t
}

// orderIn lists those keys of a mapping that are among the names.
func orderIn(t *Val, names map[string]bool) (out []string) {
	if t == nil || t.K != KMap {
		return nil
	}
	for _, x := range t.M {
		if names[keyStr(x.K)] {
			out = append(out, keyStr(x.K))
		}
	}
	return
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func keyOf(k reflect.Value) string {
	for k.Kind() == reflect.Interface {
		k = k.Elem()
	}
	return fmt.Sprint(k.Interface())
}

// liveOrder asks a collection for its order in three ways.
func liveOrder(c reflect.Value, names map[string]bool) ([]string, string) {
	var keys []string
	var raw []reflect.Value
	snapKeys(c, func(k reflect.Value) {
		raw = append(raw, k)
		if s := keyOf(k); names[s] {
			keys = append(keys, s)
		}
	})
	if n := int(method(c, "Len").Call(nil)[0].Int()); n != len(raw) {
		return keys, fmt.Sprintf("Len() is %d, ForEach visits %d", n, len(raw))
	}
	for i, k := range raw {
		if n := int(method(c, "IndexOf").Call([]reflect.Value{k})[0].Int()); n != i {
			return keys, fmt.Sprintf("IndexOf(%v) is %d, ForEach visits it as number %d", k, n, i)
		}
		if a := method(c, "At").Call([]reflect.Value{reflect.ValueOf(i)})[0]; keyOf(a.Field(0)) != keyOf(k) {
			return keys, fmt.Sprintf("At(%d) is %v, ForEach visits %v", i, a.Field(0), k)
		}
	}
	return keys, ""
}

func (p oplace) check(t *T, keys []string) {
	ents := make([]KV, len(keys))
	names := map[string]bool{}
	want := make([]string, len(keys))
	for i, k := range keys {
		want[i] = p.key(k)
		ents[i] = kv(want[i], p.val(i))
		names[want[i]] = true
	}
	c := docCase{p.d, p.doc(ents), stDefault, true, p.name}
	docAssert(t, c, aParse|aRound)
	if t.bad() {
		t.Failf("")
		return
	}
	doc, err := parseDoc(p.d, c.text())
	if err != nil {
		t.Failf("reading failed: %v", err)
		return
	}
	live := func(x interface{}, what string) bool {
		got, bad := liveOrder(walk(reflect.ValueOf(x), p.get), names)
		if bad != "" {
			t.Failf("%s: %s", what, bad)
			return false
		}
		if !sameList(want, got) {
			t.Failf("%s: the entries of the text are %q, the document has %q", what, want, got)
			return false
		}
		return true
	}
	if !live(doc.x, "after reading") {
		return
	}
	for i := 0; i < 2; i++ {
		out, err := doc.write()
		if err != nil {
			t.Failf("writing failed: %v", err)
			return
		}
		tree, err := readYAML(out)
		if err != nil {
			t.Failf("written text unreadable: %v", err)
			return
		}
		if got := orderIn(follow(tree, p.out), names); !sameList(want, got) {
			t.Failf("the entries of the text are %q, the written text has %q\n%s", want, got, out)
			return
		}
		if doc, err = parseDoc(p.d, string(out)); err != nil {
			t.Failf("re-reading failed: %v", err)
			return
		}
		t.Trans(2)
		if !live(doc.x, "after re-reading") {
			return
		}
	}
}

type ohost struct {
	name string
	d    *RootDef
	f    func(*Val) *Val
	get  []string
	out  []string
}

var ohosts = []ohost{
	{"library type", nil, func(v *Val) *Val { return vM(kv("types", vM(kv("S", vS("string")), kv("T", v), kv("A", vS("nil"))))) }, []string{"Types", "T"}, []string{"types", "T"}},
	{"property", rootAPIref(), func(v *Val) *Val {
		return vM(kv("title", vS("t")), kv("schemas", vM(kv("O", vM(kv("properties", vM(kv("q", vS("any")), kv("p", v))))))))
	}, []string{"Types", "O", "Properties", "p"}, []string{"types", "O", "properties", "p"}},
	{"item", nil, func(v *Val) *Val { return vM(kv("types", vM(kv("L", vM(kv("items", v), kv("maxItems", vI(3))))))) }, []string{"Types", "L", "Items"}, []string{"types", "L", "items"}},
	{"facet definition", rootAPIref(), func(v *Val) *Val {
		return vM(kv("types", vM(kv("F", vM(kv("type", vS("number")), kv("facets", vM(kv("f", vM(kv("d", v))))))))))
	}, []string{"Types", "F", "FacetDefinitions", "f", "d"}, []string{"types", "F", "facets", "f", "d"}},
}

func (h ohost) def() *RootDef {
	if h.d == nil {
		return rootLib
	}
	return rootAPI
}

func cat(a []string, b ...string) []string { return append(append([]string(nil), a...), b...) }

// spread puts entries between other facets.
func spread(first KV, ents []KV, mid, last KV) []KV {
	out := []KV{}
	n := len(ents)
	for i, e := range ents {
		if i == n/3 {
			out = append(out, first)
		}
		if i == n/2 {
			out = append(out, mid)
		}
		out = append(out, e)
	}
	if n == 0 {
		out = append(out, first, mid)
	}
	return append(out, last)
}

func declVal(i int) *Val {
	switch i % 5 {
	case 0:
		return vS("string")
	case 1:
		return vM(kv("type", vS("integer")), kv("minimum", vI(int64(i))))
	case 2:
		return vM(kv("enum", vSL(fmt.Sprint("e", i))), kv("required", vB(false)))
	case 3:
		return vS("A | B")
	}
	return vM(kv("type", vS("object")), kv("properties", vM(kv("z", vS("nil")), kv("a", vM(kv("type", vS("number")), kv("maximum", vI(int64(i))))))))
}

func rawVal(i int) *Val {
	switch i % 4 {
	case 0:
		return vI(int64(i))
	case 1:
		return vM(kv("z", vI(int64(i))), kv("a", vS("b")))
	case 2:
		return vM(kv("z", vI(int64(i))), kv("a", vL(vS("e"), vI(1), vL(vS("d"), vM(kv("n", vNull()), kv("b", vB(true)))), vF(1.5), vS(""))), kv("m", vM()), kv("b", vL()))
	}
	return vL(vS(fmt.Sprint("v", i)), vI(1))
}

func annVal(i int) *Val { return vM(kv("z", vI(int64(i))), kv("a", vS("x"))) }

func oplaces() (out []oplace) {
	same := func(s string) string { return s }
	paren := func(s string) string { return "(" + s + ")" }
	for _, kind := range kindNames {
		for hi, h := range ohosts {
			h := h
			kind := kind
			typed := func(first string, v *Val) *Val {
				return h.f(vM(kv("description", vS("d")), kv("type", kindExpr(kind)), kv(first, v)))
			}
			ext := kinds[kind].ext
			if !ext {
				typed = func(first string, v *Val) *Val { return h.f(vM(kv("type", kindExpr(kind)), kv(first, v))) }
			}
			add := func(what, facet, getter string, key func(string) string, val func(int) *Val) {
				out = append(out, oplace{fmt.Sprintf("%s of a %s %s", what, kind, h.name), h.def(),
					func(e []KV) *Val { return typed(facet, vM(e...)) }, key, val, cat(h.get, getter), cat(h.out, facet), false})
			}
			emb := func(what, getter string, key func(string) string, val func(int) *Val) {
				last := kv("example", vNull())
				mid := kv("default", vNull())
				if ext {
					mid, last = kv("description", vS("m")), kv("required", vB(false))
				}
				out = append(out, oplace{fmt.Sprintf("%s of a %s %s", what, kind, h.name), h.def(),
					func(e []KV) *Val {
						return h.f(vM(spread(kv("type", kindExpr(kind)), e, mid, last)...))
					}, key, val, cat(h.get, getter), h.out, false})
			}
			emb("extra facets", "ExtraFacets", func(s string) string { return "x-" + s }, rawVal)
			if !ext {
				continue
			}
			emb("annotations", "Annotations", paren, annVal)
			add("facet definitions", "facets", "FacetDefinitions", same, func(i int) *Val { return vM(kv("y", declVal(i)), kv("b", vS("nil"))) })
			out = append(out, oplace{fmt.Sprintf("entries of a facet definition of a %s %s", kind, h.name), h.def(),
				func(e []KV) *Val { return typed("facets", vM(kv("q", vM(e...)))) }, same, declVal, cat(h.get, "FacetDefinitions", "q"), cat(h.out, "facets", "q"), false})
			reps := exValT(kind).rep()
			add("examples", "examples", "Examples", same, func(i int) *Val {
				if i%2 == 1 {
					return vM(kv("value", reps[i%len(reps)]), kv("displayName", vS(fmt.Sprint("n", i))))
				}
				return vM(kv("strict", vB(false)), kv("value", reps[i%len(reps)]), kv("description", vS(fmt.Sprint("d", i))))
			})
			if kind == "object" {
				add("properties", "properties", "Properties", same, declVal)
			}
			if hi > 1 {
				continue
			}
			ex := func(what, getter string, key func(string) string, val func(int) *Val) {
				out = append(out, oplace{fmt.Sprintf("%s of an example of a %s %s", what, kind, h.name), h.def(),
					func(e []KV) *Val {
						return typed("example", vM(spread(kv("value", reps[0]), e, kv("strict", vB(false)), kv("displayName", vS("n")))...))
					}, key, val, cat(h.get, "Example", getter), cat(h.out, "example"), false})
				out = append(out, oplace{fmt.Sprintf("%s of an entry of the examples of a %s %s", what, kind, h.name), h.def(),
					func(e []KV) *Val {
						return typed("examples", vM(kv("e", vM(spread(kv("description", vS("n")), e, kv("strict", vB(false)), kv("value", reps[0]))...))))
					}, key, val, cat(h.get, "Examples", "e", getter), cat(h.out, "examples", "e"), false})
			}
			ex("annotations", "Annotations", paren, annVal)
			ex("extra facets", "ExtraFacets", func(s string) string { return "x-" + s }, rawVal)
			// entries of one annotation
			out = append(out, oplace{fmt.Sprintf("entries of an annotation of a %s %s", kind, h.name), h.def(),
				func(e []KV) *Val { return typed("(q)", vM(e...)) }, same, rawVal, cat(h.get, "Annotations", "(q)"), cat(h.out, "(q)"), false})
		}
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		d := d
		root := func(what, facet, getter string, val func(int) *Val) {
			out = append(out, oplace{what + " of the " + d.name, d, func(e []KV) *Val {
				return vM(kv("x-b", vI(1)), kv(facet, vM(e...)), kv("x-a", vI(1)))
			}, same, val, []string{getter}, []string{strings.Replace(facet, "schemas", "types", 1)}, false})
		}
		root("types", "types", "Types", declVal)
		root("types (as schemas)", "schemas", "Schemas", declVal)
		for _, f := range []string{"traits/Traits", "resourceTypes/ResourceTypes", "annotationTypes/AnnotationTypes", "securitySchemes/SecuritySchemes"} {
			p := strings.Split(f, "/")
			root(p[0], p[0], p[1], rawVal)
		}
		root("uses", "uses", "Uses", func(i int) *Val { return vS(fmt.Sprintf("lib%d.raml", i)) })
		if d == rootAPI {
			root("base URI parameters", "baseUriParameters", "BaseURIParameters", rawVal)
		}
		emb := func(what, getter string, key func(string) string, val func(int) *Val) {
			out = append(out, oplace{what + " of the " + d.name, d, func(e []KV) *Val {
				return vM(spread(kv("types", vM(kv("T", vS("string")))), e, kv("traits", vM(kv("r", vI(1)))), kv("uses", vM(kv("u", vS("v")))))...)
			}, key, val, []string{getter}, nil, false})
		}
		emb("annotations", "Annotations", paren, annVal)
		emb("extra facets", "ExtraFacets", func(s string) string { return "x-" + s }, rawVal)
		if d == rootAPI {
			emb("resources", "Resources", func(s string) string { return "/" + s }, rawVal)
			out = append(out, oplace{"extra facets of a documentation item", d, func(e []KV) *Val {
				return vM(kv("documentation", vL(vM(kv("title", vS("first"))), vM(spread(kv("content", vS("c")), e, kv("title", vS("t")), kv("last", vI(1)))...))))
			}, func(s string) string { return "x-" + s }, rawVal, []string{"Documentation", "1", "ExtraFacets"}, []string{"documentation", "1"}, false})
		}
	}
	return
}

var nameSets = [][]string{
	{"a", "b", "c", "d", "e"},
	{"10", "9", "2", "01", "1"},
	{"Beta", "alpha", "_u", "Zed", "ALPHA"},
	{"x", "x y", "x.y", "xx", "\u00e9"},
	{"string", "object", "type", "properties", "items"},
	{"true", "null", "~", "1.5", "no"},
	{"k?", "k", "(k)", "/k", "k: v"},
}

// oddNames are names of many shapes.
var oddNames = func() (out []string) {
	for _, s := range []string{
		"a", "z", "A", "0", "_", "-", ".", "..", "a.b", "a.b.c", "a.b.c.d", "a-b", "a-b-c", "a_b_c", "-a", "_a", ".a", "$a", "@a", "a/b", "/a/b/c", "{x}", "/{x}/{y}", "a|b|c", "a[]", "[a]", "(a)", "((a))", "(a", "a)", "a,b", "a:b:c", "a: b", "a b c", " a", "a ", "a?", "a??", "?", "//", "/^a$/", "#a", "a#b", "a #b", "&a", "*a", "!a", "%a", "'a'", "it's", "\"a\"", "a\\b",
		"\u00c4", "\u65e5\u672c", "\U0001F600", "a\tb", "a\nb", "null", "yes", "1.0", "1e3", "0x1", "2020-01-01", "", "~", "<<", "=", "type", "value", "displayName", "strict", "example", "title", "items", "x-a", "X-A", "longer than all the others and with several words in it", strings.Repeat("k", 127), strings.Repeat("k", 128), strings.Repeat("k", 129), strings.Repeat("k.", 70)} {
		out = append(out, s)
	}
	return
}()

func permsOf(n int, f func(p []int)) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		f(p)
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p[:len(p):len(p)], i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
}

// ordersOf are the orders that larger collections are tried in.
func ordersOf(n int) (out [][]string) {
	mk := func(f func(i int) int, format string) {
		l := make([]string, n)
		for i := range l {
			l[i] = fmt.Sprintf(format, f(i))
		}
		out = append(out, l)
	}
	up := func(i int) int { return i }
	mk(up, "n%d")
	mk(func(i int) int { return n - 1 - i }, "n%d")
	mk(func(i int) int { return (i + n/3 + 1) % n }, "%04d")
	mk(func(i int) int {
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	}, "%d")
	// a stride that is coprime with n
	s := n/2 + 1
	for gcd(s, n) != 1 {
		s++
	}
	mk(func(i int) int { return i * s % n }, "k%03d")
	return
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func c19(r *R) {
	for pi, p := range oplaces() {
		pi, p := pi, p
		for si, set := range nameSets {
			if si > 0 && (pi+si)%6 != 0 && !r.thorough() {
				continue
			}
			set := set
			permsOf(5, func(pm []int) {
				if si > 0 && len(pm) < 5 && !r.thorough() {
					return
				}
				keys := make([]string, len(pm))
				for i, x := range pm {
					keys[i] = set[x]
				}
				r.Case(func() string { return fmt.Sprintf("%s named %q in this order", p.name, keys) }, func(t *T) {
					p.check(t, keys)
					t.State(fmt.Sprint(pi, keys))
				})
			})
		}
		// each of many names before and after an ordinary one and its neighbours
		for ni, name := range oddNames {
			if (ni+pi)%4 != 0 && !r.thorough() {
				continue
			}
			for _, keys := range [][]string{{"m", name}, {name, "m"}, {"m", name, oddNames[(ni+1)%len(oddNames)], "n"}, {oddNames[(ni+1)%len(oddNames)], "m", name}} {
				keys := keys
				r.Case(func() string { return fmt.Sprintf("%s named %q in this order", p.name, keys) }, func(t *T) {
					p.check(t, keys)
					t.State(fmt.Sprint(pi, keys))
				})
			}
		}
		sizes := []int{6, 7, 8, 9, 11, 16, 17, 20, 33}
		if r.thorough() || pi%9 == 0 {
			sizes = append(sizes, 10, 12, 15, 31, 32, 40, 63, 64, 65, 100, 128, 129)
		}
		if r.thorough() || !strings.Contains(p.name, " of a ") {
			sizes = append(sizes, 257, 300)
			if r.thorough() {
				sizes = append(sizes, 512, 513, 1000)
			}
		}
		for ni, n := range sizes {
			for oi, keys := range ordersOf(n) {
				if (pi+ni+oi)%2 == 1 && !r.thorough() {
					continue
				}
				n, keys, oi := n, keys, oi
				r.Case(func() string { return fmt.Sprintf("%s: %d entries in the order %q...", p.name, n, firstK(keys, 12)) }, func(t *T) {
					p.check(t, keys)
					t.State(fmt.Sprint(pi, n, oi))
				})
			}
		}
	}
	// lists
	for _, l := range olists() {
		l := l
		max := 4
		var rec func(w []int)
		rec = func(w []int) {
			w = append([]int(nil), w...)
			if len(w) > 0 {
				r.Case(func() string { return fmt.Sprintf("%s with elements %v of %s", l.name, w, short(vL(l.vals...))) }, func(t *T) {
					l.check(t, w)
					t.State(fmt.Sprint(l.name, w))
				})
			}
			if len(w) < max {
				for i := range l.vals {
					rec(append(w, i))
				}
			}
		}
		rec(nil)
		for n := 5; n <= 70; n += 1 + n/8 {
			n := n
			for v := 0; v < 3; v++ {
				v := v
				r.Case(func() string { return fmt.Sprintf("%s: %d elements, variant %d", l.name, n, v) }, func(t *T) {
					var w []int
					for i := 0; i < n; i++ {
						w = append(w, (i*i*(v+1)+i/3)%len(l.vals))
					}
					l.check(t, w)
					t.State(fmt.Sprint(l.name, n, v))
				})
			}
		}
	}
}

func firstK(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

type olist struct {
	name string
	d    *RootDef
	doc  func(l *Val) *Val
	vals []*Val
	get  []string
	out  []string
}

func (l olist) check(t *T, w []int) {
	v := vL()
	for _, i := range w {
		v.L = append(v.L, l.vals[i])
	}
	c := docCase{l.d, l.doc(v), stDefault, true, l.name}
	docAssert(t, c, aParse|aRound)
	if t.bad() {
		return
	}
	doc, err := parseDoc(l.d, c.text())
	if err != nil {
		t.Failf("reading failed: %v", err)
		return
	}
	s := walk(reflect.ValueOf(doc.x), l.get)
	if s.Len() != len(w) {
		t.Failf("the text has %d elements, the document %d", len(w), s.Len())
		return
	}
	out, err := doc.write()
	if err != nil {
		t.Failf("writing failed: %v", err)
		return
	}
	tree, err := readYAML(out)
	if err != nil {
		t.Failf("written text unreadable: %v", err)
		return
	}
	got := follow(tree, l.out)
	if got == nil || got.K != KList || len(got.L) != len(w) {
		t.Failf("the text has %d elements, the written text %s\n%s", len(w), short(got), out)
	}
}

// olists are the list facets, with four elements each.
func olists() (out []olist) {
	pick := func(f *FT) (vals []*Val) {
		seen := map[string]bool{}
		for _, x := range append(f.rep(), f.full()...) {
			if x.K != KList {
				continue
			}
			for _, e := range x.L {
				if k := e.String(); !seen[k] && len(vals) < 4 && e.K != KNull {
					seen[k] = true
					vals = append(vals, e)
				}
			}
		}
		return
	}
	isList := func(f *FT) bool {
		for _, x := range f.full() {
			if s := f.parse(x); s == nil || s.K != KList {
				return false
			}
		}
		return f.absent != nil
	}
	for _, kind := range kindNames {
		kind := kind
		for i, f := range kinds[kind].facets {
			f := f
			if !isList(f.T) {
				continue
			}
			for j, h := range ohosts {
				h := h
				if j > 0 && j != 1+i%3 {
					continue
				}
				out = append(out, olist{fmt.Sprintf("%s of a %s %s", f.Key, kind, h.name), h.def(),
					func(l *Val) *Val {
						return h.f(vM(kv("type", kindExpr(kind)), kv(f.Key, l), kv("description", vS("d"))))
					},
					pick(f.T), cat(h.get, f.Getter), cat(h.out, f.Key)})
			}
		}
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		d := d
		for _, f := range d.facets {
			f := f
			if !isList(f.T) && f.Key != "mediaType" {
				continue
			}
			vals := pick(f.T)
			if f.Key == "documentation" {
				vals = nil
				for i := 0; i < 4; i++ {
					vals = append(vals, vM(kv("title", vS(fmt.Sprint("t", i%3))), kv("content", vS(fmt.Sprint("c", i)))))
				}
			}
			out = append(out, olist{f.Key + " of the " + d.name, d, func(l *Val) *Val { return vM(kv("x-1", vI(1)), kv(f.Key, l), kv("types", vM(kv("T", vS("nil"))))) },
				vals, []string{f.Getter}, []string{f.Key}})
		}
	}
	return
}

func init() {
	reg(&checkDef{id: "C19", level: "model_checking", fn: c19, stateIs: "place and order of names, or list and its elements",
		rule:   "every named collection of every element in several places of a document: all permutations of all subsets of five names (seven name sets), and larger collections in ascending, descending, rotated, zigzag and strided order; every list facet with all words of up to four elements over four values; the order after reading, in the written text and after re-reading is compared with the text, together with all values",
		assume: docAssume[:1]})
}
