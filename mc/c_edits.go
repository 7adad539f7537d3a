package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
)

// C11, C12 and C18: documents built or changed through the public interface.

// noValue reports whether a state holds an example without a value, which has
// no readable written form.
func noValue(s *Val) bool {
	switch s.K {
	case KMap:
		if v := s.get("Value"); v != nil && s.get("Strict") != nil && s.get("DisplayName") != nil {
			if v.K == KNone || (v.K == KList && len(v.L) == 0) {
				return true
			}
		}
		for _, x := range s.M {
			if noValue(x.V) {
				return true
			}
		}
	case KList:
		for _, x := range s.L {
			if noValue(x) {
				return true
			}
		}
	}
	return false
}

// reveal makes the hidden entries of a state comparable.
func reveal(s *Val) *Val {
	out := *s
	switch s.K {
	case KMap:
		out.M = nil
		for _, x := range s.M {
			k := x.K
			if isHidden(k) {
				k = vS(k.S[2:])
			}
			out.M = append(out.M, KV{K: k, V: reveal(x.V), Opt: x.Opt})
		}
	case KList:
		out.L = nil
		for _, x := range s.L {
			out.L = append(out.L, reveal(x))
		}
	}
	return &out
}

// builtAssert writes a built or edited document with model state m.
// aRound: it reads back, by the reference reader and by the library, as m.
// aMin: the text is minimal.
func builtAssert(t *T, d *RootDef, x interface{}, m *Val, want int) {
	doc := &Doc{d, x.(writer)}
	out, err := doc.write()
	t.Trans(1)
	if err != nil {
		t.Failf("writing failed: %v", err)
		return
	}
	tree, err := readYAML(out)
	if err != nil {
		t.Failf("the written text is not readable YAML: %v\n%s", err, out)
		return
	}
	if tree.K == KNull {
		tree = vM()
	}
	exp := d.out(m)
	if want&aMin != 0 {
		if s := isPlainOut(tree, "out"); s != "" {
			t.Failf("written text is not plain YAML: %s\n%s", s, out)
		}
		if s := diff(exp, tree, "out"); s != "" {
			t.Failf("written text is not the minimal form of the content: %s\n%s", s, out)
		}
	}
	if want&aRound == 0 || noValue(m) {
		return
	}
	norm := d.ref(exp)
	if norm == nil {
		panic("the model cannot read its own output: " + short(exp))
	}
	byText := d.ref(tree)
	if byText == nil {
		t.Failf("the written text is not a well-formed document\n%s", out)
		return
	}
	if s := diff(reveal(norm), reveal(byText), "text"); s != "" {
		t.Failf("the written text differs from the document: %s\n%s", s, out)
		return
	}
	if s := residue(exp, tree, "text"); s != "" {
		t.Failf("a part the document does not have is written: %s\n%s", s, out)
		return
	}
	doc2, err := parseDoc(d, string(out))
	t.Trans(1)
	if err != nil {
		t.Failf("reading the written text failed: %v\n%s", err, out)
		return
	}
	if s := diff(norm, doc2.snap(), "re-read"); s != "" {
		t.Failf("the re-read document differs from the one written: %s\n%s", s, out)
	}
}

// residue finds an entry without content in the written text that belongs to
// no part of the document: it reads back as nothing, but is not gone.
func residue(exp, got *Val, path string) string {
	s := residue1(exp, got, path)
	if s != "" && exp.Alt != nil && residue1(exp.Alt, got, path) == "" {
		return ""
	}
	return s
}

func residue1(exp, got *Val, path string) string {
	if got.K == KList {
		if exp.K == KList && len(exp.L) == len(got.L) {
			for i := range got.L {
				if s := residue(exp.L[i], got.L[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
					return s
				}
			}
		}
		return ""
	}
	if got.K != KMap {
		return ""
	}
	for _, g := range got.M {
		var e *KV
		if exp.K == KMap {
			for i := range exp.M {
				if !isHidden(exp.M[i].K) && diff(exp.M[i].K, g.K, "") == "" {
					e = &exp.M[i]
					break
				}
			}
		}
		p := path + "." + keyStr(g.K)
		if e != nil {
			if s := residue(e.V, g.V, p); s != "" {
				return s
			}
		} else if g.V.K == KNull || g.V.K == KList && len(g.V.L) == 0 || g.V.K == KMap && len(g.V.M) == 0 {
			return p + ": " + short(g.V)
		}
	}
	return ""
}

type writer interface {
	WriteRAML(io.Writer) error
}

// placement puts an element into a new document.
type placement struct {
	name string
	d    *RootDef
	mk   func(e interface{}) interface{}
	st   func(s *Val) *Val
	path []string
}

func call1(x interface{}, name string, args ...interface{}) interface{} {
	m := method(reflect.ValueOf(x), name)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	out := m.Call(in)
	if len(out) == 0 {
		return nil
	}
	return out[0].Interface()
}

func typesState(d *RootDef, kvs ...KV) *Val {
	m := vM(kvs...)
	return d.fresh().with("Types", m).with("Schemas", m)
}

func placements(ek string) (out []placement) {
	inType := func(name string, mkType func(e interface{}) raml.DataType, st func(s *Val) *Val, path ...string) {
		out = append(out, placement{name, rootLib, func(e interface{}) interface{} {
			l := rbuild.NewLibrary()
			l.Types().Put("A", rbuild.NewAnyDataType()).Put("T", mkType(e)).Put("Z", rbuild.NewStringDataType())
			return l
		}, func(s *Val) *Val {
			return typesState(rootLib, kv("A", freshDecl("any", "any")), kv("T", st(s)), kv("Z", freshDecl("string", "string")))
		}, append([]string{"Types", "T"}, path...)})
	}
	switch {
	case strings.HasPrefix(ek, "decl/"):
		out = append(out, placement{"API types", rootAPI, func(e interface{}) interface{} {
			m := raml.NewDataTypeMap(1).SerializeOrdered(false)
			m.Put("T", e.(raml.DataType))
			return rbuild.NewAPISpec().SetTitle("t").SetTypes(m)
		}, func(s *Val) *Val { return typesState(rootAPI, kv("T", s)).with("Title", vS("t")) }, []string{"Types", "T"}})
		inType("library types", func(e interface{}) raml.DataType { return e.(raml.DataType) }, ident)
		inType("items", func(e interface{}) raml.DataType { return rbuild.NewArrayDataType().SetItems(e.(raml.DataType)) },
			func(s *Val) *Val { return freshDecl("array", "array").with("Items", s) }, "Items")
		inType("property", func(e interface{}) raml.DataType {
			o := newDecl(vS("object")).(raml.ObjectType)
			o.Properties().Put("p0", rbuild.NewBoolDataType().(raml.Property)).Put("p", e.(raml.Property))
			return o
		}, func(s *Val) *Val {
			return freshDecl("object", "object").with("Properties", vM(kv("p0", freshDecl("boolean", "boolean")), kv("p", s)))
		}, "Properties", "p")
		inType("facet definition", func(e interface{}) raml.DataType {
			f := raml.NewDataTypeMap(1).SerializeOrdered(false)
			f.Put("d", e.(raml.DataType))
			o := rbuild.NewIntegerDataType()
			o.FacetDefinitions().Put("f", raml.Facet(f))
			return o
		}, func(s *Val) *Val {
			return freshDecl("integer", "integer").with("FacetDefinitions", vM(kv("f", vM(kv("d", s)))))
		}, "FacetDefinitions", "f", "d")
	case strings.HasPrefix(ek, "ex/"):
		kind := ek[3:]
		e0 := kindExpr(kind)
		inType("example", func(e interface{}) raml.DataType {
			t := newDecl(e0)
			call1(t, "SetExample", e)
			return t
		}, func(s *Val) *Val { return refDecl(e0).with("Example", s) }, "Example")
		inType("examples entry", func(e interface{}) raml.DataType {
			t := newDecl(e0)
			call1(call1(t, "Examples"), "Put", "x", e)
			return t
		}, func(s *Val) *Val { return refDecl(e0).with("Examples", vM(kv("x", s))) }, "Examples", "x")
		out = append(out, placement{"example set through a map", rootAPI, func(e interface{}) interface{} {
			t := newDecl(e0)
			m, _ := reflect.TypeOf(t).MethodByName("SetExamples")
			mp := mapTypes[m.Type.In(1)]()
			call1(mp, "Put", "y", e)
			call1(t, "SetExamples", mp)
			a := rbuild.NewAPISpec()
			a.Schemas().Put("T", t)
			return a
		}, func(s *Val) *Val { return typesState(rootAPI, kv("T", refDecl(e0).with("Examples", vM(kv("y", s))))) }, []string{"Types", "T", "Examples", "y"}})
	case ek == "xml":
		inType("xml", func(e interface{}) raml.DataType { return rbuild.NewNumberDataType().SetXML(e.(raml.XML)) },
			func(s *Val) *Val { return freshDecl("number", "number").with("XML", s) }, "XML")
	case ek == "doc":
		out = append(out, placement{"documentation", rootAPI, func(e interface{}) interface{} {
			return rbuild.NewAPISpec().SetDocumentation([]raml.Documentation{newDocItem(vM(kv("title", vS("first")))), e.(raml.Documentation)})
		}, func(s *Val) *Val {
			return rootAPI.fresh().with("Documentation", vL(refDoc(vM(kv("title", vS("first")))), s))
		}, []string{"Documentation", "1"}})
	}
	return
}

// applicable reports whether every step of a history still finds its element.
func applicable(s *Val, h []edit) bool {
	for i, e := range h {
		c := at(s, e.path)
		if c == nil || c.K == KNull || c.K == KNone {
			return false
		}
		if i+1 < len(h) {
			s = e.applyModel(s)
		}
	}
	return true
}

// hcase is a history on a document.
type hcase struct {
	d     *RootDef
	name  string
	mk    func() interface{}
	state *Val
	hist  []edit
	// an element that is edited first and then placed
	elem  *elemSpec
	ehist []edit
	place *placement
}

func (c hcase) String() string {
	s := c.name
	if c.elem != nil {
		s = histDesc(c.elem.name, c.ehist) + "\n placed as " + c.place.name
	}
	return histDesc(s, c.hist)
}

// run gives the document and its model state, nil after a failure.
func (c hcase) run(t *T) (interface{}, *Val) {
	spec := elemSpec{c.d.name, c.name, c.mk, c.state}
	if c.elem != nil {
		e, m := runHist(t, *c.elem, c.ehist)
		if e == nil {
			return nil, nil
		}
		spec = elemSpec{c.d.name, c.String(), func() interface{} { return c.place.mk(e) }, c.place.st(m)}
	}
	return runHist(t, spec, c.hist)
}

func atPath(es []edit, path []string) []edit {
	out := make([]edit, len(es))
	for i, e := range es {
		out[i] = e
		out[i].path = append(append([]string(nil), path...), e.path...)
	}
	return out
}

// coreOps reduces edits to a few of each facet: the first two values set, the
// unset, and one of every collection operation.
func coreOps(es []edit) (out []edit) {
	n := map[string]int{}
	for _, e := range es {
		op := e.name
		if i := strings.IndexByte(op, '('); i >= 0 {
			op = op[:i]
		}
		if strings.HasSuffix(e.name, "(nil)") {
			op += "nil"
		}
		k := strings.Join(e.path, ".") + op
		lim := 1
		if strings.HasPrefix(op, "Set") {
			lim = 2
		}
		if n[k] < lim {
			n[k]++
			out = append(out, e)
		}
	}
	return
}

// builtCases enumerates histories on documents made through constructors.
func builtCases(r *R, emit func(hcase)) {
	thorough := r.thorough()
	for _, d := range []*RootDef{rootAPI, rootLib} {
		d := d
		mk := func() interface{} {
			if d == rootAPI {
				return rbuild.NewAPISpec()
			}
			return rbuild.NewLibrary()
		}
		typ := reflect.TypeOf(mk())
		put := func(h ...edit) { emit(hcase{d: d, name: "new " + d.name, mk: mk, state: d.fresh(), hist: h}) }
		put()
		wide := append(setters(d.name, typ, nil, true), mapEdits(d.name, typ, nil)...)
		ops := append(setters(d.name, typ, nil, false), mapEdits(d.name, typ, nil)...)
		for i, w := range wide {
			put(w)
			put(ops[i%len(ops)], w)
		}
		for _, h := range related(wide) {
			put(h...)
		}
		for _, a := range ops {
			for _, b := range ops {
				put(a, b)
			}
		}
		for _, a := range ops {
			for _, b := range ops {
				if facetOf(a) != facetOf(b) {
					continue
				}
				for _, c := range ops {
					if facetOf(c) == facetOf(a) {
						put(a, b, c)
					}
				}
			}
		}
		if thorough {
			core := coreOps(ops)
			for _, a := range core {
				for _, b := range core {
					for _, c := range core {
						put(a, b, c)
					}
				}
			}
		}
	}
	for _, spec := range freshElems() {
		if ctorTwin[spec.name] || spec.ek == "api" || spec.ek == "library" {
			continue
		}
		spec := spec
		typ := reflect.TypeOf(spec.mk())
		pl := placements(spec.ek)
		wide := append(setters(spec.ek, typ, nil, true), mapEdits(spec.ek, typ, nil)...)
		ops := append(setters(spec.ek, typ, nil, false), mapEdits(spec.ek, typ, nil)...)
		n := 0
		put := func(split int, p *placement, h ...edit) {
			emit(hcase{d: p.d, elem: &spec, ehist: h[:split], place: p, hist: atPath(h[split:], p.path)})
		}
		for i := range pl {
			p := &pl[i]
			put(0, p)
			for wi, w := range wide {
				if thorough || len(pl) < 3 || wi%len(pl) == i || len(w.name)%len(pl) == i {
					put(0, p, w)
					put(1, p, w)
				}
			}
		}
		for hi, h := range related(wide) {
			put(hi%3, &pl[hi%len(pl)], h...)
		}
		for _, a := range ops {
			for _, b := range ops {
				same := facetOf(a) == facetOf(b)
				n++
				for i := range pl {
					if thorough || n%len(pl) == i {
						put(n%3, &pl[i], a, b)
					}
				}
				if same {
					for _, c := range ops {
						if facetOf(c) == facetOf(a) {
							n++
							put(n%4, &pl[n%len(pl)], a, b, c)
						}
					}
				}
			}
		}
	}
	// every constructor in every place of a nest of constructors
	for _, a := range freshElems() {
		for _, b := range freshElems() {
			if !strings.HasPrefix(a.ek, "decl/") || !strings.HasPrefix(b.ek, "decl/") {
				continue
			}
			a, b := a, b
			emit(hcase{d: rootAPI, name: "API of " + a.name + " and " + b.name, mk: func() interface{} {
				x := rbuild.NewAPISpec()
				o := newDecl(vS("object")).(raml.ObjectType)
				o.Properties().Put("a", a.mk().(raml.Property)).Put("b", b.mk().(raml.Property))
				x.Types().Put("O", o).Put("A", a.mk().(raml.DataType)).Put("L", rbuild.NewArrayDataType().SetItems(b.mk().(raml.DataType)))
				return x
			}, state: typesState(rootAPI, kv("O", freshDecl("object", "object").with("Properties", vM(kv("a", a.state), kv("b", b.state)))),
				kv("A", a.state), kv("L", freshDecl("array", "array").with("Items", b.state)))})
		}
	}
}

// spots lists the editable elements below a state, with their kinds.
func spots(ek string, s *Val, path []string, f func(ek string, path []string)) {
	f(ek, path)
	at := func(p ...string) []string { return append(append([]string(nil), path...), p...) }
	for _, fc := range elemFacets(ek) {
		if fc.Getter == "Schemas" {
			continue
		}
		c := s.get(fc.Getter)
		if c == nil || c.K == KNone || c.K == KNull {
			continue
		}
		decl := func(v *Val, p []string) { spots("decl/"+v.get("Kind").S, v, p, f) }
		kind := strings.TrimPrefix(ek, "decl/")
		switch {
		case fc.Getter == "Types" || fc.Getter == "Properties":
			for _, x := range c.M {
				decl(x.V, at(fc.Getter, x.K.S))
			}
		case fc.Getter == "Items":
			decl(c, at(fc.Getter))
		case fc.Getter == "FacetDefinitions":
			for _, x := range c.M {
				for _, y := range x.V.M {
					decl(y.V, at(fc.Getter, x.K.S, y.K.S))
				}
			}
		case fc.Getter == "Example":
			f("ex/"+kind, at(fc.Getter))
		case fc.Getter == "Examples":
			for _, x := range c.M {
				f("ex/"+kind, at(fc.Getter, x.K.S))
			}
		case fc.Getter == "XML":
			f("xml", at(fc.Getter))
		case fc.Getter == "Documentation":
			for i := range c.L {
				f("doc", at(fc.Getter, fmt.Sprint(i)))
			}
		}
	}
}

// parsedBase is a document that edits start from.
type parsedBase struct {
	name string
	d    *RootDef
	tree *Val
	path []string // the element in focus
}

func focusBases(kind string) (out []parsedBase) {
	decl := fullDecl(kind, 0)
	bare := kindExpr(kind)
	around := func(x *Val) *Val {
		return vM(kv("types", vM(kv("B", vM(kv("type", vS("string")), kv("example", vS("e")), kv("pattern", vS("p")))), kv("T", x), kv("A", vS("Custom")))), kv("x-z", vI(1)))
	}
	out = append(out,
		parsedBase{"full " + kind + " in a library", rootLib, around(decl), []string{"Types", "T"}},
		parsedBase{"bare " + kind + " in a library", rootLib, around(bare), []string{"Types", "T"}},
		parsedBase{"full " + kind + " property in an API", rootAPI, vM(kv("title", vS("t")), kv("types", vM(kv("O", vM(kv("description", vS("d")), kv("properties", vM(kv("b", vS("string")), kv("T", fullDecl(kind, 2)), kv("a", vS("A | B"))))))))), []string{"Types", "O", "Properties", "T"}},
		parsedBase{"bare " + kind + " items in a library", rootLib, vM(kv("schemas", vM(kv("L", vM(kv("minItems", vI(1)), kv("items", vM(kv("type", bare)))))))), []string{"Types", "L", "Items"}},
		parsedBase{"full " + kind + " facet definition", rootAPI, vM(kv("types", vM(kv("F", vM(kv("type", vS("file")), kv("facets", vM(kv("f", vM(kv("T", decl), kv("u", vS("nil")))))))))), kv("title", vS("t"))), []string{"Types", "F", "FacetDefinitions", "f", "T"}},
	)
	return
}

func (b parsedBase) mk() interface{} {
	doc, err := parseDoc(b.d, rendered(b.d.header, b.tree, func() *Val { return b.tree }))
	if err != nil {
		panic(err)
	}
	return doc.x
}

func sub(x interface{}, path []string) reflect.Type { return walk(reflect.ValueOf(x), path).Type() }

// editedCases enumerates histories on documents that were read.
func editedCases(r *R, emit func(hcase)) {
	thorough := r.thorough()
	for _, kind := range kindNames {
		for bi, b := range focusBases(kind) {
			b := b
			state := b.d.ref(b.tree)
			x := b.mk()
			put := func(h ...edit) {
				emit(hcase{d: b.d, name: b.name, mk: b.mk, state: state, hist: h})
			}
			put()
			typ := sub(x, b.path)
			ek := "decl/" + kind
			wide := atPath(append(setters(ek, typ, nil, true), mapEdits(ek, typ, nil)...), b.path)
			for i, w := range wide {
				if thorough || bi < 2 || i%4 == bi {
					put(w)
				}
			}
			if bi == 1 || thorough {
				for _, h := range related(wide) {
					put(h...)
				}
			}
			// what lies below and above it
			var below []edit
			spots(b.d.name, state, nil, func(sek string, p []string) {
				if len(p) == len(b.path) && strings.Join(p, "/") == strings.Join(b.path, "/") {
					return
				}
				t2 := sub(x, p)
				es := atPath(append(setters(sek, t2, nil, false), mapEdits(sek, t2, nil)...), p)
				below = append(below, es...)
			})
			for i, e := range below {
				if thorough || bi == 0 || i%5 == bi {
					put(e)
				}
			}
			if bi > 1 && !thorough {
				continue
			}
			core := coreOps(atPath(append(setters(ek, typ, nil, false), mapEdits(ek, typ, nil)...), b.path))
			for i, a := range core {
				for j, c := range core {
					if thorough || bi == 1 || (i+j)%3 == 0 || facetOf(a) == facetOf(c) {
						put(a, c)
					}
				}
				// together with an edit elsewhere
				for k := 0; k < 3 && len(below) > 0; k++ {
					put(below[(i*31+k*17)%len(below)], a)
					put(a, below[(i*13+k*41)%len(below)])
				}
			}
		}
	}
	// whole documents
	for _, d := range []*RootDef{rootAPI, rootLib} {
		types := vM()
		for i, kind := range kindNames {
			types.M = append(types.M, kv("T-"+kind, fullDecl(kind, i)))
		}
		rich := fullRoot(d, 0).with("types", types)
		if d == rootLib {
			rich = rich.with("types", rich.get("types"))
		}
		for bi, tree := range []*Val{fullRoot(d, 0), fullRoot(d, 1), rich, vM()} {
			b := parsedBase{fmt.Sprintf("%s base %d", d.name, bi), d, tree, nil}
			state := d.ref(tree)
			x := b.mk()
			put := func(h ...edit) {
				emit(hcase{d: d, name: b.name, mk: b.mk, state: state, hist: h})
			}
			put()
			typ := reflect.TypeOf(x)
			ops := append(setters(d.name, typ, nil, false), mapEdits(d.name, typ, nil)...)
			wide := append(setters(d.name, typ, nil, true), mapEdits(d.name, typ, nil)...)
			if bi == 2 && !thorough {
				wide = ops
			}
			for _, w := range wide {
				put(w)
			}
			if bi != 2 {
				core := ops
				if !thorough {
					core = coreOps(ops)
				}
				for _, a := range core {
					for _, c := range core {
						put(a, c)
					}
				}
				continue
			}
			spots(d.name, state, nil, func(sek string, p []string) {
				if len(p) == 0 {
					return
				}
				t2 := sub(x, p)
				es := coreOps(append(setters(sek, t2, nil, false), mapEdits(sek, t2, nil)...))
				for i, e := range atPath(es, p) {
					if thorough || i%6 == len(p[len(p)-1])%6 {
						put(e)
					}
				}
			})
		}
	}
}

// overrideCases are type texts that do not fit the kind of the element.
func overrideCases(r *R, emit func(hcase)) {
	for _, kind := range kindNames {
		for _, b := range focusBases(kind)[:2] {
			b := b
			typ := sub(b.mk(), b.path)
			for _, x := range []string{"Custom", "", "string", "object", "array", "A|B", "any", "integer", "x y: z"} {
				for _, e := range atPath(typeEdits(typ, nil, x), b.path) {
					emit(hcase{d: b.d, name: b.name, mk: b.mk, state: b.d.ref(b.tree), hist: []edit{e}})
				}
			}
		}
	}
}

func histCheck(space func(r *R, emit func(hcase)), want int) func(r *R) {
	return func(r *R) {
		n := 0
		space(r, func(c hcase) {
			n++
			n := n
			r.Case(c.String, func(t *T) {
				if c.elem == nil && len(c.hist) > 1 && len(c.hist[1].path) > 0 && !applicable(c.state, c.hist) {
					t.Count("histories whose second step has no target", 1)
					return
				}
				x, m := c.run(t)
				if x == nil {
					return
				}
				t.State(c.String())
				t.Count("histories", 1)
				builtAssert(t, c.d, x, m, want)
				if want&aRound != 0 && !t.bad() && (r.thorough() || len(c.hist)+len(c.ehist) == 1 || n%3 == 0) {
					t.touch = true
					if x, m := c.run(t); x != nil {
						t.Count("histories with inspection and writing before every step", 1)
						builtAssert(t, c.d, x, m, want)
					}
				}
			})
		})
	}
}

func init() {
	h := func(id string, f func(r *R), rule string) {
		reg(&checkDef{id: id, level: "model_checking", fn: f, rule: rule, stateIs: "document and history of calls", assume: []string{
			"yaml.v3 as pinned by the repository reads and writes YAML correctly",
			"maps passed to setters are in unordered serialization mode, and type texts fit the kind of the element",
			"histories that end with an example without a value are written but not read back",
		}})
	}
	h("C11", histCheck(builtCases, aRound), "documents built by constructors with histories of up to three mutator calls on the root or on a type, example, xml or documentation element before or after it is placed; each is written, read by the reference reader and by the library and compared with the model")
	h("C18", histCheck(editedCases, aRound), "documents read from text, changed by one or two mutator calls at any element, written, read back and compared with the edited model")
	docs := checks["C12d"].fn
	h("C12", func(r *R) {
		docs(r)
		histCheck(builtCases, aMin)(r)
		histCheck(editedCases, aMin)(r)
		histCheck(overrideCases, aMin)(r)
	}, "the documents of C03-C05 and the histories of C11 and C18, with the written text compared with the minimal form of the model state")
	delete(checks, "C12d")
}
