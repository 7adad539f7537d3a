package main

import "strings"

// C08: classification of type expressions.

var wrapPaths = [][]string{
	{"Types", "T"}, {"Types", "T"}, {"Types", "T", "Properties", "p"}, {"Types", "T", "Items"},
	{"Types", "T", "FacetDefinitions", "f", "inner"}, {"Types", "T", "Properties", "l1", "Items", "Properties", "l3"},
	{"Types", "A"}, {"Types", "T"},
}

func classAssert(t *T, c docCase, path []string) {
	ref := c.d.ref(c.tree)
	if ref == nil {
		panic("the model rejects " + c.what)
	}
	text := c.text()
	t.State(text)
	t.Trans(1)
	doc, err := parseDoc(c.d, text)
	if err != nil {
		t.Failf("reading failed: %v", err)
		return
	}
	want, got := at(ref, path), at(doc.snap(), path)
	if got == nil {
		t.Failf("the declaration is missing")
		return
	}
	for _, g := range []string{"Kind", "Type", "Schema"} {
		if d := diff(want.get(g), got.get(g), g); d != "" {
			t.Failf("%s", d)
		}
	}
}

// expressions are all texts the classification is exercised with.
func expressions(thorough bool) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	var names []string
	for _, k := range kindNames {
		if builtin[k] {
			names = append(names, k)
		}
	}
	for _, s := range exprAlpha {
		add(s)
	}
	for _, s := range strAlpha {
		add(s)
	}
	// near misses of every name
	for _, n := range names {
		add(n)
		add(strings.ToUpper(n))
		add(strings.ToUpper(n[:1]) + n[1:])
		for i := range n {
			add(n[:i] + n[i+1:])
			add(n[:i] + n[i:i+1] + n[i:])
			add(n[:i] + strings.ToUpper(n[i:i+1]) + n[i+1:])
			for _, x := range []string{" ", "-", "_", "|", "."} {
				add(n[:i] + x + n[i:])
				add(n[:i] + x + n[i+1:])
			}
		}
		for _, x := range []string{" ", "s", "[]", "?", "|", "-only", ".x", "\n", "\t", "|nil", " | nil", "1", "!", "!include x"} {
			add(n + x)
			add(x + n)
		}
		for _, m := range names {
			add(n + "|" + m)
			add(n + " | " + m)
			add(n + m)
			add(n + " " + m)
			add("(" + n + " | " + m + ")[]")
		}
	}
	// all short token sequences
	tokens := []string{"string", "array", "nil", "any", "object", "file", "integer", "date-only", "A", "x.B", " ", "|", "[]", "?", "!include ", "(", ")", "datetime"}
	max := 3
	if thorough {
		max = 4
	}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if n > 0 {
			add(s)
		}
		if n < max {
			for _, t := range tokens {
				rec(s+t, n+1)
			}
		}
	}
	rec("", 0)
	return out
}

func c08(r *R) {
	put := func(wi int, decl *Val, st style, what string) {
		w := wraps[wi]
		c := docCase{w.def(), w.f(decl), st, true, what + " as " + w.name}
		r.Case(c.desc, func(t *T) { classAssert(t, c, wrapPaths[wi]) })
	}
	forms := []func(e *Val) *Val{
		func(e *Val) *Val { return e },
		func(e *Val) *Val { return vM(kv("type", e)) },
		func(e *Val) *Val { return vM(kv("schema", e)) },
		func(e *Val) *Val { return vM(kv("description", vS("d")), kv("type", e), kv("extra", vI(1))) },
		func(e *Val) *Val { return vM(kv("displayName", vS("d")), kv("required", vB(false)), kv("schema", e)) },
	}
	exprs := expressions(r.thorough())
	var vals []*Val
	for _, e := range exprs {
		vals = append(vals, vS(e))
	}
	for _, s := range []string{"x.raml", "", "a b", "a|b", "string", "dir/x.json", "nil"} {
		vals = append(vals, vInc(s))
	}
	for i, v := range vals {
		all := r.thorough() || i < 400 || v.K == KTag
		for fi, f := range forms {
			for wi := range wraps {
				if all || (i+fi)%len(wraps) == wi || (i*3+fi*5+1)%len(wraps) == wi {
					st := stDefault
					if v.K == KStr && (i+wi)%3 == 1 {
						st = styles[2]
					}
					put(wi, f(v), st, "expression")
				}
			}
		}
	}
	for wi := range wraps {
		put(wi, vNull(), stDefault, "empty declaration")
		put(wi, vM(), stDefault, "empty declaration")
	}
	// the type facet at every place among the other facets
	for _, kind := range kindNames {
		var sl []slot
		for _, s := range declSlots(kind) {
			if s.rep != nil {
				sl = append(sl, s)
			}
		}
		n := 0
		p := func(s slot, x int) KV { v := s.rep(); return KV{K: s.key, V: v[x%len(v)]} }
		place := func(kvs []KV, what string) {
			for pos := 0; pos <= len(kvs); pos++ {
				for _, key := range []string{"type", "schema"} {
					n++
					o := append(append(append([]KV(nil), kvs[:pos]...), kv(key, kindExpr(kind))), kvs[pos:]...)
					put(n%len(wraps), vM(o...), styles[n%2], kind+" "+what)
				}
			}
		}
		var all []KV
		for i, a := range sl {
			all = addKV(all, a.key, p(a, i).V)
			place([]KV{p(a, 0)}, "one facet")
			for j, b := range sl {
				if i != j && keyText(a.key).S != keyText(b.key).S {
					place([]KV{p(a, i+j), p(b, i)}, "two facets")
				}
			}
		}
		place(all, "all facets")
		rev := make([]KV, len(all))
		for i := range all {
			rev[len(all)-1-i] = all[i]
		}
		place(rev, "all facets reversed")
	}
	// no type facet: properties, items, both, neither, among other facets
	props, items := kv("properties", vM(kv("q", vS("integer")))), []KV{kv("items", vS("Custom")), kv("items", vM(kv("type", vS("nil"))))}
	props0 := kv("properties", vM())
	others := []KV{kv("description", vS("d")), kv("required", vB(false)), kv("displayName", vS("array")), kv("x-type", vS("array")), kv("Type", vS("nil")), kv("types", vS("nil")), kv("enum", vL()), kv("facets", vM()), kv("(a)", vM()), kv("minItems", vI(1)), kv("minProperties", vI(1)), kv("pattern", vS("items")), kv("Items", vS("nil")), kv("Properties", vM())}
	n := 0
	for _, lead := range [][]KV{{props}, {props0}, {items[0]}, {items[1]}, {props, items[0]}, {items[0], props}, {items[1], props0}, {}} {
		ok := func(kvs []KV) bool { return wraps[0].def().ref(wraps[0].f(vM(kvs...))) != nil }
		for i, a := range others {
			for j, b := range others {
				rest := []KV{a}
				if i != j {
					rest = append(rest, b)
				}
				for _, perm := range perms(append(append([]KV(nil), lead...), rest...)) {
					n++
					if ok(perm) {
						put(n%len(wraps), vM(perm...), styles[n%2], "implied kind")
					}
				}
			}
		}
	}
}

func perms(kvs []KV) (out [][]KV) {
	if len(kvs) < 2 {
		return [][]KV{append([]KV(nil), kvs...)}
	}
	for i := range kvs {
		rest := append(append([]KV(nil), kvs[:i]...), kvs[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]KV{kvs[i]}, p...))
		}
	}
	return
}

func init() {
	reg(&checkDef{id: "C08", level: "model_checking", fn: c08, stateIs: "a distinct document text",
		rule:   "every type expression (all sequences of up to three tokens, near misses of every built-in name, pairs) in five syntactic forms and eight positions, and the type or schema facet at every place among the other facets of every kind; kind, dynamic type and retained text are compared with the reference classification; a transition is one read",
		assume: docAssume[:1]})
}
