package main

import (
	"fmt"
	"reflect"
	"strings"
)

// C16: separate elements and documents never share state.

// inst is an instance with its model state.
type inst struct {
	spec elemSpec
	x    interface{}
	m    *Val
}

func (s elemSpec) inst() *inst { return &inst{s, s.mk(), s.state} }

func (n *inst) ok() string { return diff(n.m, snap(n.x), n.spec.name) }

func (n *inst) apply(e edit) string {
	if d := e.apply(n.x); d != "" {
		return d
	}
	n.m = e.applyModel(n.m)
	return ""
}

// pokes write into the slices an element hands out, as far as they have room.
func pokes(typ reflect.Type) (out []edit) {
	for i := 0; i < typ.NumMethod(); i++ {
		m := typ.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 || m.Type.Out(0).Kind() != reflect.Slice || isMutator(m.Name) || strings.HasPrefix(m.Name, "Marshal") {
			continue
		}
		name := m.Name
		out = append(out, edit{name: "write into the slice " + name + "()", do: func(e reflect.Value) string {
			s := method(e, name).Call(nil)[0]
			z := reflect.Zero(s.Type().Elem())
			if s.Cap() > 0 {
				full := s.Slice(0, s.Cap())
				for i := 0; i < full.Len(); i++ {
					full.Index(i).Set(z)
				}
			}
			return ""
		}})
	}
	return
}

// interleavings calls f with every order of n steps of instance 0 and m of 1.
func interleavings(n, m int, f func(order []int) bool) bool {
	var rec func(o []int, a, b int) bool
	rec = func(o []int, a, b int) bool {
		if a == n && b == m {
			return f(o)
		}
		if a < n && !rec(append(o[:len(o):len(o)], 0), a+1, b) {
			return false
		}
		return b == m || rec(append(o[:len(o):len(o)], 1), a, b+1)
	}
	return rec(nil, 0, 0)
}

func sepElements(r *R) {
	specs := append(freshElems(), fullElems()...)
	for _, spec := range specs {
		spec := spec
		typ := reflect.TypeOf(spec.mk())
		wide := append(setters(spec.ek, typ, nil, true), mapEdits(spec.ek, typ, nil)...)
		ops := coreOps(append(setters(spec.ek, typ, nil, false), mapEdits(spec.ek, typ, nil)...))
		if r.thorough() {
			ops = append(setters(spec.ek, typ, nil, false), mapEdits(spec.ek, typ, nil)...)
		}
		run := func(t *T, late bool, order []int, h [2][]edit) bool {
			in := [2]*inst{spec.inst(), nil}
			if !late {
				in[1] = spec.inst()
			}
			n := [2]int{}
			for step, w := range order {
				if in[w] == nil {
					in[w] = spec.inst()
				}
				e := h[w][n[w]]
				n[w]++
				d := in[w].apply(e)
				for i, x := range in {
					if d == "" && x != nil && (step == len(order)-1 || r.thorough() && i != w) {
						if d = x.ok(); d != "" {
							d = fmt.Sprintf("instance %d: %s", i, d)
						}
					}
				}
				if d != "" {
					t.Failf("%s\ntwo instances of %s, steps by instance %v (the second made late: %v)\n0: %v\n1: %v", d, spec.name, order[:step+1], late, h[0], h[1])
					return false
				}
			}
			t.Trans(len(order))
			t.Count("interleavings", 1)
			return true
		}
		for i := range wide {
			r.Case(func() string { return fmt.Sprintf("%s: one instance %s, the others untouched", spec.name, wide[i]) }, func(t *T) {
				before := spec.inst()
				x := spec.inst()
				after := spec.inst()
				if d := x.apply(wide[i]); d != "" {
					t.Failf("%s", d)
				}
				late := spec.inst()
				for j, y := range []*inst{before, x, after, late} {
					if d := y.ok(); d != "" {
						t.Failf("instance %d of four, where the second had %s: %s", j+1, wide[i], d)
					}
				}
				// what is set in one can be set in another, alone
				if d := late.apply(wide[i]); d != "" {
					t.Failf("%s", d)
				}
				if d := late.ok(); d != "" {
					t.Failf("second instance with %s: %s", wide[i], d)
				}
				t.Trans(2)
				t.State(spec.name + wide[i].name)
			})
		}
		for _, p := range pokes(typ) {
			p := p
			r.Case(func() string { return spec.name + ": " + p.name }, func(t *T) {
				y := spec.inst()
				x := spec.mk()
				p.apply(x)
				z := spec.inst()
				for _, n := range []*inst{y, z} {
					if d := n.ok(); d != "" {
						t.Failf("after another instance had %s: %s", p.name, d)
					}
				}
				t.Trans(1)
			})
		}
		for i := range ops {
			r.Case(func() string {
				return fmt.Sprintf("two instances of %s: all orders of %s on one and every operation on the other", spec.name, ops[i])
			}, func(t *T) {
				for j := range ops {
					for _, late := range []bool{false, true} {
						if !run(t, late, []int{0, 1}, [2][]edit{{ops[i]}, {ops[j]}}) {
							return
						}
					}
					if facetOf(ops[i]) != facetOf(ops[j]) && !r.thorough() {
						continue
					}
					for k := range ops {
						if facetOf(ops[k]) != facetOf(ops[i]) || facetOf(ops[k]) != facetOf(ops[j]) {
							continue
						}
						if !interleavings(2, 1, func(o []int) bool { return run(t, false, o, [2][]edit{{ops[i], ops[j]}, {ops[k]}}) }) {
							return
						}
						if !r.thorough() {
							continue
						}
						for l := range ops {
							if facetOf(ops[l]) == facetOf(ops[i]) && !interleavings(2, 2, func(o []int) bool { return run(t, l%2 == 0, o, [2][]edit{{ops[i], ops[j]}, {ops[k], ops[l]}}) }) {
								return
							}
						}
					}
				}
			})
		}
		// beside one instance of every other kind
		for i := range ops {
			if i > 0 && facetOf(ops[i]) == facetOf(ops[i-1]) && i%3 != 0 && !r.thorough() {
				continue
			}
			r.Case(func() string {
				return fmt.Sprintf("%s: %s beside one instance of everything else, made before and after", spec.name, ops[i])
			}, func(t *T) {
				var others []*inst
				for k, s := range specs {
					if (i+k)%2 == 0 || r.thorough() {
						others = append(others, s.inst())
					}
				}
				x := spec.inst()
				if d := x.apply(ops[i]); d != "" {
					t.Failf("%s", d)
				}
				for _, o := range others {
					if d := o.ok(); d != "" {
						t.Failf("%s of %s changed another element: %s", ops[i], spec.name, d)
						return
					}
				}
				for k, s := range specs {
					if (i+k)%2 == 0 && !r.thorough() {
						continue
					}
					if d := s.inst().ok(); d != "" {
						t.Failf("after %s of %s, a new element: %s", ops[i], spec.name, d)
						return
					}
				}
				if d := x.ok(); d != "" {
					t.Failf("%s of %s: %s", ops[i], spec.name, d)
				}
				t.Trans(1)
				t.Count("bystanders", int64(len(specs)))
			})
		}
		// many instances, each with its own content
		r.Case(func() string { return "seventy instances of " + spec.name + " with different content" }, func(t *T) {
			var in []*inst
			for i := 0; i < 70; i++ {
				n := spec.inst()
				if d := n.apply(wide[i%len(wide)]); d != "" {
					t.Failf("%s", d)
				}
				in = append(in, n)
			}
			t.Trans(len(in))
			for i, n := range in {
				if d := n.ok(); d != "" {
					t.Failf("instance %d: %s", i, d)
					return
				}
			}
		})
	}
}

func sepMaps(r *R) {
	fails := func(t *T, u mapUT, m *mmodel, o *mop) string {
		if o != nil {
			if d := u.do(*o); d != "" {
				return d
			}
			m.apply(*o)
		}
		return u.observe(m, 4)
	}
	for _, mk := range mapMakers {
		mk := mk
		u, v := mk(), mk()
		ops := shortOps([]int{0, 1}, 1, true)
		run := func(t *T, c int, order []int, h [2][]mop) bool {
			us := [2]mapUT{u, v}
			ms := [2]*mmodel{{ordered: true}, {ordered: true}}
			u.fresh(c)
			v.fresh(c)
			n := [2]int{}
			for _, w := range order {
				o := h[w][n[w]]
				n[w]++
				d := fails(t, us[w], ms[w], &o)
				if d == "" {
					d = fails(t, us[1-w], ms[1-w], nil)
				}
				if d != "" {
					t.Failf("%s\ntwo maps, steps by map %v\n0: %s\n1: %s", d, order, opsDesc(u, c, h[0]), opsDesc(v, c, h[1]))
					return false
				}
			}
			t.Trans(len(order))
			t.Count("interleavings", 1)
			return true
		}
		for i := range ops {
			for _, c := range []int{0, 8} {
				r.Case(func() string {
					return fmt.Sprintf("two maps: all interleavings of histories beginning with %s", opsDesc(u, c, ops[i:i+1]))
				}, func(t *T) {
					t.State(fmt.Sprint(u.name(), i, c))
					for j := range ops {
						if c == 0 {
							run(t, c, []int{0, 1}, [2][]mop{{ops[i]}, {ops[j]}})
						}
						for k := range ops {
							if !interleavings(2, 1, func(o []int) bool { return run(t, c, o, [2][]mop{{ops[i], ops[j]}, {ops[k]}}) }) {
								return
							}
							if !r.thorough() {
								continue
							}
							for l := range ops {
								if !interleavings(2, 2, func(o []int) bool { return run(t, c, o, [2][]mop{{ops[i], ops[j]}, {ops[k], ops[l]}}) }) {
									return
								}
							}
						}
					}
				})
			}
		}
		for _, mk2 := range mapMakers {
			mk2 := mk2
			r.Case(func() string { return fmt.Sprintf("a %s beside a %s", u.name(), mk2().name()) }, func(t *T) {
				w := mk2()
				for i := range ops {
					for j := range ops {
						m, n := &mmodel{ordered: true}, &mmodel{ordered: true}
						u.fresh(0)
						w.fresh(0)
						d := fails(t, u, m, &ops[i])
						if d == "" {
							d = fails(t, w, n, &ops[j])
						}
						if d == "" {
							d = fails(t, u, m, nil)
						}
						if d != "" {
							t.Failf("%s\n%s beside %s", d, opsDesc(u, 0, ops[i:i+1]), opsDesc(w, 0, ops[j:j+1]))
							return
						}
						t.Trans(2)
					}
				}
			})
		}
	}
}

// sepHanded hands collections to elements and compares them with what they
// were after the element got another one, lost it, or was used otherwise.
func sepHanded(r *R) {
	for _, spec := range append(freshElems(), fullElems()...) {
		spec := spec
		typ := reflect.TypeOf(spec.mk())
		kind := ""
		if i := strings.IndexByte(spec.ek, '/'); i >= 0 {
			kind = spec.ek[i+1:]
		}
		wide := setters(spec.ek, typ, nil, true)
		ops := append(setters(spec.ek, typ, nil, false), mapEdits(spec.ek, typ, nil)...)
		for wi, w := range wide {
			if w.tree == nil || (mapTypes[w.param] == nil && w.param.Kind() != reflect.Slice) {
				continue
			}
			w, wi := w, wi
			r.Case(func() string { return "what was handed over by " + histDesc(spec.name, []edit{w}) }, func(t *T) {
				for _, o := range append(ops, edit{}) {
					if len(o.path) > 0 && facetKey(o.path[0]) == facetKey(w.facet) {
						continue // this is an edit of the very collection
					}
					if wi%13 > 0 && o.do != nil && facetOf(o) != facetKey(w.facet) && !r.thorough() {
						continue
					}
					x := spec.mk()
					v := goVal(w.param, w.tree, kind)
					before := handed(v)
					method(reflect.ValueOf(x), "Set"+w.facet).Call([]reflect.Value{v})
					h := []edit{w}
					if o.do != nil {
						h = append(h, o)
						if d := o.apply(x); d != "" {
							return // judged by C10
						}
					}
					if d := diff(before, handed(v), "collection"); d != "" {
						t.Failf("the collection handed over first has changed: %s\nafter %s", d, histDesc(spec.name, h))
						return
					}
					t.Trans(len(h))
				}
				t.State(spec.name + w.name)
			})
		}
	}
}

// handed is the state of a value made for a setter.
func handed(v reflect.Value) *Val {
	if v.Kind() == reflect.Slice {
		l := vL()
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			l.L = append(l.L, vS(fmt.Sprintf("%d %v", i, full.Index(i).Interface())))
		}
		return l
	}
	return snap(v.Interface())
}

// seqDoc is a document of the alphabet that sequences are made of.
type seqDoc struct {
	name string
	d    *RootDef
	text string
	want *Val // nil when the document is to be rejected
}

func seqDocs() (out []seqDoc) {
	put := func(name string, d *RootDef, tree *Val) {
		want := d.ref(tree)
		if want == nil {
			panic("model rejects " + name)
		}
		out = append(out, seqDoc{name, d, render(d.header, tree, stDefault), want})
	}
	bad := func(name string, d *RootDef, text string) {
		out = append(out, seqDoc{name, d, text, nil})
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		put("empty "+d.name, d, vM())
		put("full "+d.name, d, fullRoot(d, 0))
		put("other full "+d.name, d, fullRoot(d, 1))
	}
	for i := 0; i < 3; i++ {
		full, bare, exs := vM(), vM(), vM()
		for j, k := range kindNames {
			if j%3 != i {
				continue
			}
			full.M = append(full.M, kv("T-"+k, fullDecl(k, i)))
			bare.M = append(bare.M, kv("T-"+k, kindExpr(k)))
			if kinds[k].ext {
				exs.M = append(exs.M, kv("T-"+k, vM(kv("type", kindExpr(k)), kv("example", fullEx(k)))))
			}
		}
		put(fmt.Sprintf("full types %d", i), rootLib, vM(kv("types", full)))
		put(fmt.Sprintf("bare types %d", i), rootAPI, vM(kv("title", vS("t")), kv("schemas", bare)))
		put(fmt.Sprintf("examples %d", i), rootLib, vM(kv("types", exs)))
	}
	bad("scalar document", rootLib, "#%RAML 1.0 Library\njust text\n")
	bad("list document", rootAPI, "#%RAML 1.0\n- title: x\n")
	bad("broken YAML", rootAPI, "#%RAML 1.0\ntitle: x\ntypes:\n  A: {type: string\n")
	bad("list for types", rootLib, "#%RAML 1.0 Library\nusage: u\ntypes:\n  - a\n")
	bad("bad facet late", rootLib, "#%RAML 1.0 Library\ntypes:\n  A: {type: string, pattern: p, example: e}\n  B: {type: integer, minimum: 3, maximum: [x]}\n")
	bad("bad example", rootLib, "#%RAML 1.0 Library\ntypes:\n  A:\n    type: boolean\n    required: false\n    (z): {k: 1}\n    example: {value: true, strict: [1]}\n")
	bad("bad property", rootAPI, "#%RAML 1.0\ntitle: t\nversion: v\ntypes:\n  O:\n    type: object\n    properties:\n      a: string\n      b: {type: number, minimum: [x]}\n")
	bad("bad tail", rootAPI, "#%RAML 1.0\ntitle: t\nprotocols: [HTTP]\nx-z: 1\n(z): {k: v}\n/r: {get: }\nbaseUriParameters: [1]\n")
	return
}

func sepDocs(r *R) {
	docs := seqDocs()
	check := func(t *T, seq []int, write bool) bool {
		var live []*Doc
		for _, i := range seq {
			doc, err := parseDoc(docs[i].d, docs[i].text)
			if (err != nil) != (docs[i].want == nil) {
				names := []string{}
				for _, j := range seq {
					names = append(names, docs[j].name)
				}
				t.Failf("reading %q in the sequence %v: error %v, expected a document: %v\n%s", docs[i].name, names, err, docs[i].want != nil, docs[i].text)
				return false
			}
			if write && doc != nil {
				if _, err := doc.write(); err != nil {
					t.Failf("writing failed: %v", err)
				}
			}
			live = append(live, doc)
		}
		t.Trans(len(seq))
		for n, i := range seq {
			if live[n] == nil {
				continue
			}
			if d := diff(docs[i].want, live[n].snap(), "doc"); d != "" {
				names := []string{}
				for _, j := range seq {
					names = append(names, docs[j].name)
				}
				t.Failf("document %d of the sequence %v: %s\n%s", n+1, names, d, docs[i].text)
				return false
			}
		}
		t.Count("sequences", 1)
		return true
	}
	for i := range docs {
		r.Case(func() string { return "sequences of a document alone and with itself: " + docs[i].name }, func(t *T) {
			check(t, []int{i}, false)
			check(t, []int{i, i, i, i, i, i, i, i}, false)
			check(t, []int{i, i, i}, true)
			t.State(docs[i].name)
		})
		for j := range docs {
			r.Case(func() string {
				return fmt.Sprintf("all sequences of three documents beginning %q, %q", docs[i].name, docs[j].name)
			}, func(t *T) {
				for k := range docs {
					for _, w := range []bool{false, true} {
						if !check(t, []int{i, j, k}, w) {
							return
						}
						if !r.thorough() {
							continue
						}
						for l := range docs {
							if !check(t, []int{i, j, k, l}, w) {
								return
							}
						}
					}
				}
				t.State(docs[i].name + docs[j].name)
			})
		}
	}
	// a document after many others
	var others []string
	n := 0
	declDocs(false, func(c docCase) {
		if n++; n%37 == 0 && len(others) < 3000 {
			others = append(others, c.text())
		}
	})
	for part := 0; part < 8; part++ {
		part := part
		r.Case(func() string {
			return fmt.Sprintf("every document again and again among %d others (%d)", len(others), part)
		}, func(t *T) {
			for i := part; i < len(others); i += 8 {
				parseDoc(rootLib, others[i])
				if i%5 == 0 && !check(t, []int{i / 5 % len(docs)}, i%10 == 0) {
					return
				}
				t.Trans(1)
			}
		})
	}
	// two documents of the same text, one of them edited
	n = 0
	editedCases(r, func(c hcase) {
		if n++; len(c.hist) != 1 || n%8 != 0 && !r.thorough() {
			return
		}
		r.Case(func() string { return "an edited document beside unedited ones: " + c.String() }, func(t *T) {
			before := c.mk()
			x, m := c.run(t)
			if x == nil {
				return
			}
			after := c.mk()
			for i, y := range []interface{}{before, after} {
				if d := diff(c.state, snap(y), "doc"); d != "" {
					t.Failf("the document read from the same text %s: %s", []string{"before", "after"}[i], d)
				}
			}
			if d := diff(m, snap(x), "doc"); d != "" {
				t.Failf("the edited document: %s", d)
			}
			t.Count("documents beside an edited one", 2)
		})
	})
}

// sepTwins reads documents in which the same text occurs as several elements,
// edits one of them, and compares the others and documents read before and
// after with the reference.
func sepTwins(r *R) {
	places := [][]string{{"Types", "A"}, {"Types", "B"}, {"Types", "O", "Properties", "p"}, {"Types", "O", "Properties", "q"}, {"Types", "L", "Items"}}
	each := func(name string, decl *Val, exts bool) {
		types := vM(kv("A", decl), kv("B", decl), kv("O", vM(kv("properties", vM(kv("p", decl), kv("q", decl))))), kv("L", vM(kv("items", decl))))
		if !exts { // facets which only top level declarations have are not alike below
			types = vM(kv("A", decl), kv("B", decl))
		}
		b := parsedBase{name, rootLib, vM(kv("types", types)), nil}
		state := b.d.ref(b.tree)
		if state == nil {
			return
		}
		x, err := parseDoc(b.d, render(b.d.header, b.tree, stDefault))
		if err != nil {
			return // judged elsewhere
		}
		here := places
		if !exts {
			here = places[:2]
		}
		var all []edit
		n := 0
		spots(b.d.name, state, nil, func(sek string, p []string) {
			for i, q := range here {
				if len(p) < len(q) || strings.Join(p[:len(q)], "/") != strings.Join(q, "/") {
					continue
				}
				t2 := sub(x.x, p)
				es := append(setters(sek, t2, nil, false), mapEdits(sek, t2, nil)...)
				if !r.thorough() {
					es = coreOps(es)
				}
				for _, e := range atPath(es, p) {
					if n++; r.thorough() || n%len(here) == i || i == 0 && len(p) > len(q) {
						all = append(all, e)
					}
				}
			}
		})
		r.Case(func() string {
			return "elements of the same text, every edit of one of them: " + name + "\n" + render(b.d.header, b.tree, stDefault)
		}, func(t *T) {
			var before []interface{}
			for i := 0; i < 2; i++ {
				before = append(before, b.mk())
			}
			for i, e := range all {
				c := hcase{d: b.d, name: b.name, mk: b.mk, state: state, hist: []edit{e}}
				t.touch = i%2 == 1
				x, m := c.run(t)
				t.touch = false
				if x == nil {
					return
				}
				if d := diff(m, snap(x), "doc"); d != "" {
					t.Failf("after %s: the edited document: %s", e, d)
					return
				}
				if i%16 == 0 || i == len(all)-1 {
					before = append(before, b.mk())
					for j, y := range before {
						if d := diff(state, snap(y), "doc"); d != "" {
							t.Failf("after edits up to %s: document %d of the same text: %s", e, j, d)
							return
						}
					}
					before = before[:2]
				}
				t.Count("edits beside elements of the same text", 1)
			}
			t.State(name)
		})
	}
	seen := map[string]bool{}
	var exprs []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			exprs = append(exprs, s)
		}
	}
	for _, s := range exprAlpha {
		add(s)
	}
	for _, s := range strAlpha {
		add(s)
	}
	for _, k := range kindNames {
		for _, x := range []string{"", "[]", "?", " | nil", "[][]"} {
			add(k + x)
		}
	}
	if r.thorough() {
		for i, s := range expressions(false) {
			if i%8 == 0 {
				add(s)
			}
		}
	}
	for _, s := range exprs {
		each("expression "+s, vS(s), true)
		each("type "+s, vM(kv("type", vS(s))), true)
	}
	for _, k := range kindNames {
		for v := 0; v < 3; v++ {
			each(fmt.Sprintf("full %s %d", k, v), fullDecl(k, v), false)
		}
		if kinds[k].ext {
			each("example of "+k, vM(kv("type", kindExpr(k)), kv("example", fullEx(k))), true)
		}
	}
}

func init() {
	reg(&checkDef{id: "C16", level: "model_checking", fn: func(r *R) {
		sepElements(r)
		sepHanded(r)
		sepMaps(r)
		sepDocs(r)
		sepTwins(r)
	}, stateIs: "element kind and call, map type and first call, or document pair",
		rule:   "two instances of every element kind and map type: every single call, all ordered pairs of calls (the second instance made before or after), all interleavings of two calls with one on the same facet, each compared with the independent models; calls on every facet beside one instance of every other kind; all sequences of three documents from an alphabet of valid and rejected ones, each document compared with the reference after the whole sequence; edits of every parsed document beside unedited twins; documents with several elements of the same text (every type expression of the alphabet, full declarations), every edit of one of them, the others and further documents compared with the reference",
		assume: []string{"values handed to setters are not shared between the instances"}})
}
