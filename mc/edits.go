package main

import (
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// Edits of live elements and of their model states, used by C10, C11, C12 and
// C18.

// edit changes the element found at a path.
type edit struct {
	name  string
	path  []string
	do    func(elem reflect.Value) string // "" or what is wrong with the return value
	model func(elem *Val) *Val

	// of setters: what is set
	facet string
	param reflect.Type
	tree  *Val
}

func (e edit) String() string {
	if len(e.path) == 0 {
		return e.name
	}
	return strings.Join(e.path, ".") + "." + e.name
}

// walk follows a path of accessor names, map keys and list indexes.
func walk(x reflect.Value, path []string) reflect.Value {
	for _, s := range path {
		for x.Kind() == reflect.Interface {
			x = x.Elem()
		}
		if x.Kind() == reflect.Slice {
			i, _ := strconv.Atoi(s)
			x = x.Index(i)
			continue
		}
		if _, ok := x.Type().MethodByName("ForEach"); ok {
			x = method(x, "Get").Call([]reflect.Value{reflect.ValueOf(s)})[0]
			continue
		}
		x = method(x, s).Call(nil)[0]
	}
	for x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	return x
}

// upd updates the part of a state at a path.
func upd(s *Val, path []string, f func(*Val) *Val) *Val {
	if len(path) == 0 {
		return f(s)
	}
	out := *s
	if s.K == KList {
		i, _ := strconv.Atoi(path[0])
		out.L = append([]*Val(nil), s.L...)
		out.L[i] = upd(s.L[i], path[1:], f)
		return &out
	}
	c := s.get(path[0])
	if c == nil {
		panic("model has no " + path[0] + " in " + short(s))
	}
	return s.with(path[0], upd(c, path[1:], f))
}

func at(s *Val, path []string) *Val {
	for _, p := range path {
		if s.K == KList {
			i, _ := strconv.Atoi(p)
			if i >= len(s.L) {
				return nil
			}
			s = s.L[i]
			continue
		}
		s = s.get(p)
		if s == nil {
			return nil
		}
	}
	return s
}

func (e edit) apply(root interface{}) string {
	return e.do(walk(reflect.ValueOf(root), e.path))
}

func (e edit) applyModel(s *Val) *Val {
	out := upd(s, e.path, e.model)
	if len(e.path) > 0 && e.path[0] == "Types" && s.get("Schemas") != nil {
		out = out.with("Schemas", out.get("Types"))
	}
	return out
}

// ---------------------------------------------------------------- values

var renderCache = map[*Val]string{}
var renderMu sync.Mutex

// rendered renders the document made from a tree, once per tree.
func rendered(hdr string, tree *Val, mk func() *Val) string {
	renderMu.Lock()
	defer renderMu.Unlock()
	s, ok := renderCache[tree]
	if !ok {
		if len(renderCache) > 20000 {
			renderCache = map[*Val]string{}
		}
		s = render(hdr, mk(), stDefault)
		renderCache[tree] = s
	}
	return s
}

// newDecl makes a data type from its tree.
func newDecl(tree *Val) raml.DataType {
	doc, err := parseDoc(rootLib, rendered(hdrLib, tree, func() *Val { return vM(kv("types", vM(kv("T", tree)))) }))
	if err != nil {
		panic(fmt.Sprintf("cannot make a type from %s: %v", tree, err))
	}
	t, _ := doc.x.(raml.Library).Types().Get("T")
	return t
}

func newFormat(kind, text string) interface{} {
	t := newDecl(vM(kv("type", vS(kind)), kv("format", vS(text))))
	return method(reflect.ValueOf(t), "Format").Call(nil)[0].Interface()
}

func newDocItem(tree *Val) raml.Documentation {
	doc, err := parseDoc(rootAPI, render(hdrAPI, vM(kv("documentation", vL(tree))), stDefault))
	if err != nil {
		panic(err)
	}
	return doc.x.(raml.APISpec).Documentation()[0]
}

func newExample(kind string, tree *Val) reflect.Value {
	t := newDecl(vM(kv("type", kindExpr(kind)), kv("example", tree)))
	return method(reflect.ValueOf(t), "Example").Call(nil)[0]
}

type mapType struct {
	mk func() interface{}
}

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var mapTypes = map[reflect.Type]func() interface{}{
	rt[raml.StringMap]():              func() interface{} { return raml.NewStringMap(1).SerializeOrdered(false) },
	rt[raml.UntypedMap]():             func() interface{} { return raml.NewUntypedMap(1).SerializeOrdered(false) },
	rt[raml.Annotation]():             func() interface{} { return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false)) },
	rt[raml.AnyMap]():                 func() interface{} { return raml.NewAnyMap(1).SerializeOrdered(false) },
	rt[raml.AnnotationMap]():          func() interface{} { return raml.NewAnnotationMap(1).SerializeOrdered(false) },
	rt[raml.DataTypeMap]():            func() interface{} { return raml.NewDataTypeMap(1).SerializeOrdered(false) },
	rt[raml.Facet]():                  func() interface{} { return raml.Facet(raml.NewDataTypeMap(1).SerializeOrdered(false)) },
	rt[raml.FacetMap]():               func() interface{} { return raml.NewFacetMap(1).SerializeOrdered(false) },
	rt[raml.PropertyMap]():            func() interface{} { return raml.NewPropertyMap(1).SerializeOrdered(false) },
	rt[raml.AnyExampleMap]():          func() interface{} { return raml.NewAnyExampleMap(1).SerializeOrdered(false) },
	rt[raml.ArrayExampleMap]():        func() interface{} { return raml.NewArrayExampleMap(1).SerializeOrdered(false) },
	rt[raml.BoolExampleMap]():         func() interface{} { return raml.NewBoolExampleMap(1).SerializeOrdered(false) },
	rt[raml.CustomExampleMap]():       func() interface{} { return raml.NewCustomExampleMap(1).SerializeOrdered(false) },
	rt[raml.DateOnlyExampleMap]():     func() interface{} { return raml.NewDateOnlyExampleMap(1).SerializeOrdered(false) },
	rt[raml.DatetimeExampleMap]():     func() interface{} { return raml.NewDatetimeExampleMap(1).SerializeOrdered(false) },
	rt[raml.DatetimeOnlyExampleMap](): func() interface{} { return raml.NewDatetimeOnlyExampleMap(1).SerializeOrdered(false) },
	rt[raml.FileExampleMap]():         func() interface{} { return raml.NewFileExampleMap(1).SerializeOrdered(false) },
	rt[raml.IntegerExampleMap]():      func() interface{} { return raml.NewIntegerExampleMap(1).SerializeOrdered(false) },
	rt[raml.NumberExampleMap]():       func() interface{} { return raml.NewNumberExampleMap(1).SerializeOrdered(false) },
	rt[raml.ObjectExampleMap]():       func() interface{} { return raml.NewObjectExampleMap(1).SerializeOrdered(false) },
	rt[raml.StringExampleMap]():       func() interface{} { return raml.NewStringExampleMap(1).SerializeOrdered(false) },
	rt[raml.TimeOnlyExampleMap]():     func() interface{} { return raml.NewTimeOnlyExampleMap(1).SerializeOrdered(false) },
	rt[raml.UnionExampleMap]():        func() interface{} { return raml.NewUnionExampleMap(1).SerializeOrdered(false) },
}

var tAny = rt[interface{}]()

// native makes a plain Go value from a tree; what has no plain form becomes a
// YAML node.
func native(t *Val) interface{} {
	switch t.K {
	case KNull:
		return nil
	case KStr:
		return t.S
	case KBool:
		return t.S == "true"
	case KInt:
		if i, err := strconv.ParseInt(t.S, 10, 64); err == nil {
			return int(i)
		}
		u, _ := strconv.ParseUint(t.S, 10, 64)
		return u
	case KFloat:
		f, _ := strconv.ParseFloat(t.S, 64)
		return f
	case KList:
		out := make([]interface{}, 0, len(t.L))
		for _, x := range t.L {
			out = append(out, native(x))
		}
		return out
	}
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(render("", t, style{})), &n); err != nil {
		panic(err)
	}
	return n.Content[0]
}

// st is the state of a value that was set from Go: floats have no textual form.
func st(t *Val) *Val {
	switch t.K {
	case KFloat:
		f, _ := strconv.ParseFloat(t.S, 64)
		return vNum(f)
	case KList:
		out := &Val{K: KList, S: t.S}
		for _, x := range t.L {
			out.L = append(out.L, st(x))
		}
		return out
	case KMap:
		out := *t
		out.M = nil
		for _, x := range t.M {
			out.M = append(out.M, KV{K: x.K, V: st(x.V), Opt: x.Opt})
		}
		return &out
	}
	return t
}

// goVal makes the Go value of a parameter type from a tree.
func goVal(t reflect.Type, tree *Val, kind string) reflect.Value {
	if mk, ok := mapTypes[t]; ok {
		m := reflect.ValueOf(mk())
		put := method(m, "Put")
		for _, x := range tree.M {
			put.Call([]reflect.Value{goKey(put.Type().In(0), x.K), goVal(put.Type().In(1), x.V, mapElemKind(t, kind))})
		}
		return m
	}
	switch t {
	case tAny:
		if strings.HasPrefix(kind, "ex/") {
			return newExample(kind[3:], tree)
		}
		v := native(tree)
		if v == nil {
			return reflect.Zero(tAny)
		}
		return reflect.ValueOf(v)
	case rt[raml.DataType](), rt[raml.Property]():
		return reflect.ValueOf(newDecl(tree))
	case rt[raml.XML]():
		d := newDecl(vM(kv("type", vS("string")), kv("xml", tree)))
		return reflect.ValueOf(d.(raml.StringType).XML())
	case rt[raml.Documentation]():
		return reflect.ValueOf(newDocItem(tree))
	case rt[raml.DateFormat]():
		return reflect.ValueOf(newFormat("datetime", tree.S))
	case rt[raml.IntegerFormat]():
		return reflect.ValueOf(newFormat("integer", tree.S))
	case rt[raml.NumberFormat]():
		return reflect.ValueOf(newFormat("number", tree.S))
	}
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(tree.S).Convert(t)
	case reflect.Bool:
		return reflect.ValueOf(tree.S == "true")
	case reflect.Int64:
		i, err := strconv.ParseInt(tree.S, 10, 64)
		if err != nil {
			panic(err)
		}
		return reflect.ValueOf(i)
	case reflect.Uint:
		i, err := strconv.ParseUint(tree.S, 10, 64)
		if err != nil {
			panic(err)
		}
		return reflect.ValueOf(uint(i))
	case reflect.Float64:
		f, err := strconv.ParseFloat(tree.S, 64)
		if err != nil {
			panic(err)
		}
		return reflect.ValueOf(f)
	case reflect.Slice:
		out := reflect.MakeSlice(t, 0, len(tree.L))
		for _, x := range tree.L {
			v := goVal(t.Elem(), x, kind)
			out = reflect.Append(out, v)
		}
		return out
	case reflect.Interface:
		if strings.HasSuffix(t.Name(), "Example") {
			k := strings.TrimPrefix(kind, "ex/")
			return newExample(k, tree)
		}
	}
	panic(fmt.Sprintf("cannot make a %s from %s", t, tree))
}

func mapElemKind(t reflect.Type, kind string) string {
	if strings.HasSuffix(t.Name(), "ExampleMap") {
		return "ex/" + strings.TrimPrefix(kind, "ex/")
	}
	return ""
}

func goKey(t reflect.Type, k *Val) reflect.Value {
	if t == tAny && k.K != KStr {
		return reflect.ValueOf(native(k))
	}
	return reflect.ValueOf(k.S)
}

// ---------------------------------------------------------------- facet tables

var tAnnMap, tExtraMap *FT

func init() {
	tAnnMap = mapT("annotations", func(t *Val) *Val { return tAnnVal.parse(t) }, ident, nil,
		func() []*Val {
			return []*Val{vM(kv("(z)", vM(kv("k", vI(1)))), kv("(a)", vM())), vM(kv("(one)", vM(kv("b", vNull()), kv("a", vS("x")))))}
		})
	tExtraMap = mapT("extra facets", rawParse, ident, nil,
		func() []*Val {
			return []*Val{vM(kv("x-z", vI(1)), kv("x-a", vS("v"))), vM(kv("x-one", vL(vI(1), vS("q"))))}
		})
}

// elemFacets lists the accessor/facet pairs of an element kind: "api",
// "library", "doc", "xml", "decl/KIND", "ex/KIND".
func elemFacets(ek string) []Facet {
	switch {
	case ek == "api", ek == "library":
		d := rootAPI
		if ek == "library" {
			d = rootLib
		}
		out := append([]Facet{}, d.facets...)
		out = append(out, Facet{"schemas", "Schemas", tTypes}, Facet{"", "Annotations", tAnnMap}, Facet{"", "ExtraFacets", tExtraMap})
		if d.res {
			res := mapT("resources", rawParse, ident, nil, func() []*Val { return []*Val{vM(kv("/z", vM(kv("get", vM()))), kv("/a", vI(1)))} })
			out = append(out, Facet{"", "Resources", res})
		}
		return out
	case ek == "doc":
		return []Facet{{"title", "Title", tStrPlain}, {"content", "Content", tStrPlain}, {"", "ExtraFacets", tExtraMap}}
	case ek == "xml":
		return []Facet{{"attribute", "IsAttribute", tBoolOpt}, {"wrapped", "IsWrapped", tBoolOpt}, {"name", "Name", tStr}, {"namespace", "Namespace", tStr}, {"prefix", "Prefix", tStr}}
	case strings.HasPrefix(ek, "ex/"):
		return []Facet{{"displayName", "DisplayName", tStr}, {"description", "Description", tStr}, {"strict", "Strict", tBoolT}, {"value", "Value", exValT(ek[3:])}, {"", "Annotations", tAnnMap}, {"", "ExtraFacets", tExtraMap}}
	case strings.HasPrefix(ek, "decl/"):
		k := kinds[ek[5:]]
		out := append([]Facet{}, k.facets...)
		if k.ext {
			out = append(out, Facet{"", "Annotations", tAnnMap})
		}
		return append(out, Facet{"", "ExtraFacets", tExtraMap})
	}
	panic(ek)
}

var exValTs = map[string]*FT{}

func exValT(kind string) *FT {
	k := kinds[kind]
	return k.facets[k.byKey["example"]].T.val
}

// setTrees are the values a setter is exercised with.
func setTrees(f Facet, wide bool) []*Val {
	var out []*Val
	seen := map[string]bool{}
	put := func(v *Val) {
		if v == nil || f.T.parse(v) == nil || !settable(v, 0) {
			return
		}
		k := v.String()
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, v)
	}
	if wide && f.T.full != nil {
		for _, v := range f.T.full() {
			put(v)
		}
	}
	for _, v := range f.T.rep() {
		put(v)
	}
	switch f.T.absent.K {
	case KInt, KBool, KStr, KList, KMap:
		put(f.T.absent)
	}
	return out
}

// settable trees have a Go form: text keys, no null as a whole.
func settable(v *Val, depth int) bool {
	if depth == 0 && (v.K == KNull || v.K == KTag) {
		return false
	}
	return true
}

func setState(f Facet, tree *Val) *Val {
	s := f.T.parse(tree)
	if s == nil {
		panic("model rejects " + tree.String() + " for " + f.Getter)
	}
	if s.K == KStr && tree.K == KTS {
		return s
	}
	return st(s)
}

func retCheck(name string, out []reflect.Value, elem reflect.Value) string {
	if len(out) != 1 {
		return name + " returns nothing"
	}
	r := out[0]
	for r.Kind() == reflect.Interface {
		r = r.Elem()
	}
	if r.Type() != elem.Type() || r.Interface() != elem.Interface() {
		return name + " returned something other than the element it was called on"
	}
	return ""
}

func hasMethod(t reflect.Type, n string) bool { _, ok := t.MethodByName(n); return ok }

// setters lists the setter and unsetter edits of an element.
func setters(ek string, typ reflect.Type, path []string, wide bool) (out []edit) {
	kind := ""
	if i := strings.IndexByte(ek, '/'); i >= 0 {
		kind = ek[i+1:]
	}
	for _, f := range elemFacets(ek) {
		f := f
		set := func(s, v *Val) *Val {
			s = s.with(f.Getter, v)
			if f.Getter == "Types" {
				s = s.with("Schemas", v)
			}
			if f.Getter == "Schemas" {
				s = s.with("Types", v)
			}
			return s
		}
		if hasMethod(typ, "Set"+f.Getter) {
			m, _ := typ.MethodByName("Set" + f.Getter)
			pt := m.Type.In(m.Type.NumIn() - 1)
			for _, tree := range setTrees(f, wide) {
				tree := tree
				if pt.Kind() == reflect.Slice && tree.K != KList {
					continue
				}
				if pt.Kind() == reflect.Slice && pt.Elem() == tAny {
					skip := false
					for _, x := range tree.L {
						skip = skip || x.K == KTag
					}
					if skip {
						continue
					}
				}
				v := setState(f, tree)
				out = append(out, edit{name: fmt.Sprintf("Set%s(%s)", f.Getter, short(tree)), path: path,
					do: func(e reflect.Value) string {
						return retCheck("Set"+f.Getter, method(e, "Set"+f.Getter).Call([]reflect.Value{goVal(pt, tree, kind)}), e)
					},
					model: func(s *Val) *Val { return set(s, v) }, facet: f.Getter, param: pt, tree: tree})
			}
			if pt.Kind() == reflect.Slice || mapTypes[pt] != nil {
				out = append(out, edit{name: "Set" + f.Getter + "(nil)", path: path,
					do: func(e reflect.Value) string {
						return retCheck("Set"+f.Getter, method(e, "Set"+f.Getter).Call([]reflect.Value{reflect.Zero(pt)}), e)
					},
					model: func(s *Val) *Val { return set(s, f.T.absent) }})
			}
		}
		if hasMethod(typ, "Unset"+f.Getter) {
			out = append(out, edit{name: "Unset" + f.Getter + "()", path: path,
				do: func(e reflect.Value) string {
					return retCheck("Unset"+f.Getter, method(e, "Unset"+f.Getter).Call(nil), e)
				},
				model: func(s *Val) *Val { return set(s, f.T.absent) }})
		}
	}
	if hasMethod(typ, "OverrideType") {
		for _, x := range typeTexts(kind) {
			out = append(out, typeEdits(typ, path, x)...)
		}
	}
	return
}

func typeEdits(typ reflect.Type, path []string, x string) (out []edit) {
	model := func(s *Val) *Val { return s.with("Type", vS(x)).with("Schema", vS(x)) }
	if hasMethod(typ, "SetType") {
		out = append(out, edit{name: fmt.Sprintf("SetType(%q)", x), path: path,
			do: func(e reflect.Value) string {
				return retCheck("SetType", method(e, "SetType").Call([]reflect.Value{reflect.ValueOf(x)}), e)
			}, model: model})
	}
	return append(out, edit{name: fmt.Sprintf("OverrideType(%q)", x), path: path,
		do: func(e reflect.Value) string {
			method(e, "OverrideType").Call([]reflect.Value{reflect.ValueOf(x)})
			return ""
		}, model: model})
}

func typeTexts(kind string) []string {
	switch kind {
	case "custom":
		return []string{"Other", "Custom"}
	case "union":
		return []string{"X | Y", "A | B"}
	case "include":
		return []string{"other.raml", "t.raml"}
	}
	return []string{kind}
}

// mapEdits lists mutations of the collections an element exposes.
func mapEdits(ek string, typ reflect.Type, path []string) (out []edit) {
	kind := ""
	if i := strings.IndexByte(ek, '/'); i >= 0 {
		kind = ek[i+1:]
	}
	for _, f := range elemFacets(ek) {
		f := f
		m, ok := typ.MethodByName(f.Getter)
		if !ok {
			continue
		}
		rt := m.Type.Out(0)
		mk, isMap := mapTypes[rt]
		if !isMap || f.Getter == "Schemas" {
			continue
		}
		mt := reflect.TypeOf(mk())
		putM, _ := mt.MethodByName("Put")
		et := putM.Type.In(2)
		ekind := mapElemKind(rt, kind)
		reps := f.T.rep()
		keys := []*Val{}
		elems := []*Val{}
		for _, r := range reps {
			for _, x := range r.M {
				keys = append(keys, x.K)
				elems = append(elems, x.V)
			}
		}
		nk := vS("new")
		switch f.Getter {
		case "Annotations":
			nk = vS("(new)")
		case "Resources":
			nk = vS("/new")
		}
		p := append(path[:len(path):len(path)], f.Getter)
		state := func(tree *Val) *Val { return st(f.T.parse(vM(KV{K: vS("k"), V: tree})).M[0].V) }
		put := func(name string, k *Val, tree *Val, fn func(s *Val, k, v *Val) *Val) {
			v := state(tree)
			out = append(out, edit{name: fmt.Sprintf("%s(%s, %s)", name, k, short(tree)), path: p,
				do: func(e reflect.Value) string {
					mm := method(e, name)
					return retCheck(name, mm.Call([]reflect.Value{goKey(mm.Type().In(0), k), goVal(et, tree, ekind)}), e)
				},
				model: func(s *Val) *Val { return fn(s, k, v) }})
		}
		mput := func(s, k, v *Val) *Val { return s.without(k.S).add(KV{K: k, V: v}) }
		mrop := func(s, k, v *Val) *Val { return s.with(k.S, v) }
		mrie := func(s, k, v *Val) *Val {
			if s.get(k.S) == nil {
				return s
			}
			return s.with(k.S, v)
		}
		put("Put", nk, elems[0], mput)
		put("Put", keys[0], elems[len(elems)-1], mput)
		put("ReplaceOrPut", keys[0], elems[len(elems)-1], mrop)
		put("ReplaceOrPut", nk, elems[0], mrop)
		put("ReplaceIfExists", keys[0], elems[len(elems)-1], mrie)
		put("ReplaceIfExists", nk, elems[0], mrie)
		for _, k := range []*Val{keys[0], keys[len(keys)-1], nk} {
			k := k
			out = append(out, edit{name: fmt.Sprintf("Delete(%s)", k), path: p,
				do: func(e reflect.Value) string {
					mm := method(e, "Delete")
					return retCheck("Delete", mm.Call([]reflect.Value{goKey(mm.Type().In(0), k)}), e)
				},
				model: func(s *Val) *Val { return s.without(k.S) }})
		}
	}
	return
}

// ---------------------------------------------------------------- elements to edit

type elemSpec struct {
	ek    string
	name  string
	mk    func() interface{}
	state *Val
}

func snapElem(ek string, x interface{}) *Val { return snap(x) }

// ctorTwin names parsed elements for which there is a constructor as well.
var ctorTwin = map[string]bool{}

// freshElems are newly made elements of every kind.
func freshElems() (out []elemSpec) {
	out = append(out,
		elemSpec{"api", "new API spec", func() interface{} { return rbuild.NewAPISpec() }, rootAPI.fresh()},
		elemSpec{"library", "new library", func() interface{} { return rbuild.NewLibrary() }, rootLib.fresh()})
	ctors := map[string]func() interface{}{
		"any": func() interface{} { return rbuild.NewAnyDataType() }, "array": func() interface{} { return rbuild.NewArrayDataType() },
		"boolean": func() interface{} { return rbuild.NewBoolDataType() }, "integer": func() interface{} { return rbuild.NewIntegerDataType() },
		"number": func() interface{} { return rbuild.NewNumberDataType() }, "string": func() interface{} { return rbuild.NewStringDataType() },
	}
	for _, kind := range kindNames {
		kind := kind
		e := kindExpr(kind)
		if c, ok := ctors[kind]; ok {
			ctorTwin["parsed "+kind+" type"] = true
			out = append(out, elemSpec{"decl/" + kind, "new " + kind + " type", c, refDecl(e)})
		}
		out = append(out, elemSpec{"decl/" + kind, "parsed " + kind + " type", func() interface{} { return newDecl(e) }, refDecl(e)})
		if !kinds[kind].ext {
			continue
		}
		v := exValT(kind).rep()[0]
		out = append(out, elemSpec{"ex/" + kind, "parsed " + kind + " example", func() interface{} { return newExample(kind, v).Interface() }, refEx(kind, exValT(kind))(v)})
	}
	x := vM()
	out = append(out, elemSpec{"xml", "parsed xml", func() interface{} { return goVal(rt[raml.XML](), x, "").Interface() }, refXML(x)},
		elemSpec{"doc", "parsed documentation", func() interface{} { return newDocItem(vM()) }, refDoc(vM())})
	return
}

// fullDecl is a declaration of a kind with every facet given.
func fullDecl(kind string, variant int) *Val {
	out := vM(kv("type", kindExpr(kind)))
	if variant%2 == 1 {
		out = vM()
	}
	for i, s := range declSlots(kind) {
		if s.rep == nil {
			continue
		}
		r := s.rep()
		out.M = addKV(out.M, s.key, r[(variant+i)%len(r)])
	}
	if variant%2 == 1 {
		out.M = append(out.M, kv("type", kindExpr(kind)))
	}
	return out
}

func fullEx(kind string) *Val {
	r := exValT(kind).rep()
	return vM(kv("displayName", vS("dn")), kv("x-z", vI(1)), kv("value", r[0]), kv("(z)", vM(kv("k", vI(1)))), kv("strict", vB(false)), kv("description", vS("de")), kv("(a)", vM()), kv("x-a", vNull()))
}

func fullRoot(d *RootDef, variant int) *Val {
	out := vM()
	for i, s := range rootSlots(d) {
		if s.rep == nil {
			continue
		}
		r := s.rep()
		if k := keyStr(s.key); strings.HasPrefix(k, "x-") || k == "Aextra" {
			continue
		}
		out.M = addKV(out.M, s.key, r[(variant+i)%len(r)])
	}
	out.M = append(out.M, kv("x-z", vI(1)), kv("x-a", vS("e")))
	return out
}

func fullElems() (out []elemSpec) {
	for _, d := range []*RootDef{rootAPI, rootLib} {
		d := d
		tree := fullRoot(d, 0)
		out = append(out, elemSpec{d.name, "full parsed " + d.name, func() interface{} {
			doc, err := parseDoc(d, rendered(d.header, tree, func() *Val { return tree }))
			if err != nil {
				panic(err)
			}
			return doc.x
		}, d.ref(tree)})
	}
	for _, kind := range kindNames {
		kind := kind
		tree := fullDecl(kind, 0)
		out = append(out, elemSpec{"decl/" + kind, "full parsed " + kind + " type", func() interface{} { return newDecl(tree) }, refDecl(tree)})
		if kinds[kind].ext {
			t := fullEx(kind)
			out = append(out, elemSpec{"ex/" + kind, "full parsed " + kind + " example", func() interface{} { return newExample(kind, t).Interface() }, refEx(kind, exValT(kind))(t)})
		}
	}
	x := vM(kv("attribute", vB(true)), kv("wrapped", vB(false)), kv("name", vS("n")), kv("namespace", vS("ns")), kv("prefix", vS("p")), kv("x", vI(1)))
	d := vM(kv("title", vS("t")), kv("content", vS("c")), kv("x-z", vI(1)), kv("x-a", vI(2)))
	return append(out, elemSpec{"xml", "full parsed xml", func() interface{} { return goVal(rt[raml.XML](), x, "").Interface() }, refXML(x)},
		elemSpec{"doc", "full parsed documentation", func() interface{} { return newDocItem(d) }, refDoc(d)})
}

func histDesc(name string, h []edit) string {
	var b strings.Builder
	b.WriteString(name)
	for _, e := range h {
		b.WriteString("\n  " + e.String())
	}
	return b.String()
}

// runHist applies a history to a fresh instance; it returns the instance and
// its model state, or nil after a failure.
func runHist(t *T, s elemSpec, h []edit) (interface{}, *Val) {
	x := s.mk()
	m := s.state
	if t.touch {
		touch(x)
	}
	for i, e := range h {
		if d := e.apply(x); d != "" {
			t.Failf("%s\n%s", d, histDesc(s.name, h))
			return nil, nil
		}
		m = e.applyModel(m)
		if t.touch && (i < len(h)-1 || !isWriter(x)) {
			touch(x)
		}
	}
	t.Trans(len(h))
	return x, m
}

func isWriter(x interface{}) bool { _, ok := x.(writer); return ok }

// touch looks at everything an element has and writes it, for histories in
// which that happens between the steps.
func touch(x interface{}) {
	snap(x)
	if w, ok := x.(writer); ok {
		w.WriteRAML(io.Discard)
	}
	if w, ok := x.(interface{ ToRAML() (string, error) }); ok {
		w.ToRAML()
	}
	if w, ok := x.(interface{ ToYAML() (*yaml.Node, error) }); ok {
		w.ToYAML()
	}
	if w, ok := x.(interface {
		MarshalRAML(raml.AnyMap) (bool, error)
	}); ok {
		w.MarshalRAML(raml.NewAnyMap(4).SerializeOrdered(false))
	}
}

// related pairs setters of different facets of the same type: the same value in
// both, and values that are next to each other in the alphabet.
func related(wide []edit) (out [][]edit) {
	by := map[string][]edit{}
	var facets []string
	for _, e := range wide {
		if e.tree == nil || mapTypes[e.param] != nil {
			continue
		}
		if by[e.facet] == nil {
			facets = append(facets, e.facet)
		}
		by[e.facet] = append(by[e.facet], e)
	}
	for i, f := range facets {
		for _, g := range facets[i+1:] {
			if by[f][0].param != by[g][0].param {
				continue
			}
			at := map[string]int{}
			for n, b := range by[g] {
				at[b.tree.String()] = n
			}
			numeric := by[f][0].param.Kind() != reflect.String && by[f][0].param.Kind() != reflect.Slice && by[f][0].param != tAny
			for n, a := range by[f] {
				m, ok := at[a.tree.String()]
				if !ok {
					continue
				}
				out = append(out, []edit{a, by[g][m]})
				if numeric && m+1 < len(by[g]) {
					out = append(out, []edit{a, by[g][m+1]})
				}
				if numeric && m > 0 {
					out = append(out, []edit{by[g][m-1], by[f][n]})
				}
			}
		}
	}
	return
}

// ---------------------------------------------------------------- C10

func c10(r *R) {
	for _, spec := range append(freshElems(), fullElems()...) {
		spec := spec
		typ := reflect.TypeOf(spec.mk())
		r.Case(func() string { return "defaults of a " + spec.name }, func(t *T) {
			x, m := runHist(t, spec, nil)
			if d := diff(m, snap(x), "element"); d != "" {
				t.Failf("%s", d)
			}
			t.State(spec.name)
		})
		check := func(t *T, h []edit) bool {
			x, m := runHist(t, spec, h)
			if x == nil {
				return false
			}
			t.Count("histories", 1)
			if d := diff(m, snap(x), "element"); d != "" {
				t.Failf("%s\nafter %s", d, histDesc(spec.name, h))
				return false
			}
			if !t.touch && (len(h) < 2 || r.thorough() || facetOf(h[0]) == facetOf(h[len(h)-1])) {
				t.touch = true
				x, m := runHist(t, spec, h)
				t.touch = false
				if x == nil {
					return false
				}
				t.Count("histories", 1)
				if d := diff(m, snap(x), "element"); d != "" {
					t.Failf("%s\nafter %s, having looked at the element and written it before every step", d, histDesc(spec.name, h))
					return false
				}
			}
			return true
		}
		wide := append(setters(spec.ek, typ, nil, true), mapEdits(spec.ek, typ, nil)...)
		if strings.HasPrefix(spec.ek, "decl/") {
			for _, x := range []string{"Any Thing", "", "string", "A|B", "include", "!include x"} {
				wide = append(wide, typeEdits(typ, nil, x)...)
			}
		}
		ops := append(setters(spec.ek, typ, nil, false), mapEdits(spec.ek, typ, nil)...)
		for i := range wide {
			r.Case(func() string { return histDesc(spec.name, wide[i:i+1]) }, func(t *T) {
				if check(t, wide[i:i+1]) {
					t.State(spec.name + wide[i].name)
				}
				// and set again after everything else of the same facet
				for _, o := range ops {
					if facetOf(o) == facetOf(wide[i]) && !check(t, []edit{o, wide[i]}) {
						return
					}
				}
			})
		}
		for _, h := range related(wide) {
			h := h
			r.Case(func() string { return histDesc(spec.name, h) }, func(t *T) {
				if check(t, h) && check(t, []edit{h[1], h[0]}) {
					t.State(spec.name + h[0].name + h[1].name)
				}
			})
		}
		core := make([]bool, len(ops))
		seen := map[string]bool{}
		for i, o := range ops {
			key := facetOf(o) + o.name[:3]
			core[i] = !seen[key] && (strings.HasPrefix(o.name, "Set") || strings.HasPrefix(o.name, "Unset"))
			seen[key] = true
		}
		if ctorTwin[spec.name] && !r.thorough() {
			continue
		}
		for i := range ops {
			for j := range ops {
				r.Case(func() string {
					return histDesc(spec.name, []edit{ops[i], ops[j]}) + "\n and one more step of each kind"
				}, func(t *T) {
					h := []edit{ops[i], ops[j]}
					x, m := runHist(t, spec, h)
					if x == nil {
						return
					}
					t.Count("histories", 1)
					if d := diff(m, snap(x), "element"); d != "" {
						t.Failf("%s\nafter %s", d, histDesc(spec.name, h))
						return
					}
					t.State(spec.name + ops[i].String() + ops[j].String())
					if (facetOf(ops[i]) == facetOf(ops[j]) || (i+j)%14 == 0) && !check(t, h) {
						return
					}
					for k := range ops {
						// a third step: all of them when thorough, else back to the
						// first facet, and a share of the rest
						if !r.thorough() && !(core[k] && facetOf(ops[k]) == facetOf(ops[i]) && facetOf(ops[j]) != facetOf(ops[i])) && (i*7+j*3+k)%211 != 0 {
							continue
						}
						h3 := []edit{ops[i], ops[j], ops[k]}
						if x == nil {
							if !check(t, h3) {
								return
							}
							continue
						}
						// the first of them continues with the element at hand
						if d := ops[k].apply(x); d != "" {
							t.Failf("%s\n%s", d, histDesc(spec.name, h3))
							return
						}
						t.Trans(1)
						t.Count("histories", 1)
						if d := diff(ops[k].applyModel(m), snap(x), "element"); d != "" {
							t.Failf("%s\nafter %s", d, histDesc(spec.name, h3))
							return
						}
						x = nil
						if !r.thorough() {
							break
						}
					}
				})
			}
		}
	}
}

// facetOf names the facet an edit touches.
func facetOf(e edit) string {
	if len(e.path) > 0 {
		return e.path[len(e.path)-1]
	}
	n := strings.TrimPrefix(strings.TrimPrefix(e.name, "Uns"), "S")
	n = strings.TrimPrefix(n, "et")
	if i := strings.IndexByte(n, '('); i >= 0 {
		n = n[:i]
	}
	return facetKey(n)
}

// facetKey is the same for synonyms.
func facetKey(n string) string {
	if n == "Schemas" {
		return "Types"
	}
	return n
}

var _ = math.Pi

func init() {
	reg(&checkDef{id: "C10", level: "model_checking", fn: c10,
		rule:    "histories of setters, unsetters and collection mutations on every buildable element, new and fully populated, executed in lock step with a record model; after each history every accessor is compared; states are distinct (element, history of up to two steps); transitions are mutator calls",
		assume:  []string{"elements without a public constructor are obtained by reading a minimal document", "setter arguments are not modified by the caller afterwards"},
		stateIs: "element and history"})
}
