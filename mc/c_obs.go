package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// C15: inspecting and writing change nothing, and output is deterministic.

// observer is one inspecting or writing operation.
type observer struct {
	name string
	do   func(x reflect.Value) *Val // the result as a tree
}

func resultVal(out []reflect.Value) *Val {
	l := vL()
	for _, o := range out {
		x := o.Interface()
		switch v := x.(type) {
		case nil:
			l.L = append(l.L, vNull())
			continue
		case error:
			l.L = append(l.L, vS("error: "+v.Error()))
			continue
		case []byte:
			l.L = append(l.L, vS(string(v)))
			continue
		}
		if o.Kind() == reflect.Struct && o.Type().NumField() == 2 { // map entries
			l.L = append(l.L, vL(snapR(o.Field(0)), snapR(o.Field(1))))
			continue
		}
		l.L = append(l.L, snapR(o))
	}
	return l
}

func isMutator(n string) bool {
	for _, p := range []string{"Set", "Unset", "Put", "Delete", "Replace", "Override", "SerializeOrdered", "Unmarshal"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// observers lists what can be asked of an element.
func observers(x reflect.Value) (out []observer) {
	t := x.Type()
	isMap := hasMethod(t, "ForEach")
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		n := m.Name
		if isMutator(n) {
			continue
		}
		add := func(name string, args ...interface{}) {
			out = append(out, observer{name, func(x reflect.Value) *Val {
				mv := method(x, n)
				in := make([]reflect.Value, len(args))
				for i, a := range args {
					if a == nil {
						in[i] = reflect.Zero(mv.Type().In(i))
					} else {
						in[i] = reflect.ValueOf(a)
					}
				}
				return resultVal(mv.Call(in))
			}})
		}
		switch {
		case m.Type.NumIn() == 1:
			add(n)
		case n == "WriteRAML":
			out = append(out, observer{n, func(x reflect.Value) *Val {
				var b bytes.Buffer
				if err := x.Interface().(writer).WriteRAML(&b); err != nil {
					return vS("error: " + err.Error())
				}
				return vS(b.String())
			}})
		case n == "MarshalRAML":
			out = append(out, observer{n, func(x reflect.Value) *Val {
				o := raml.NewAnyMap(0).SerializeOrdered(false)
				res := resultVal(method(x, n).Call([]reflect.Value{reflect.ValueOf(o)}))
				b, err := yaml.Marshal(o)
				return vL(res, vS(fmt.Sprint(string(b), err)))
			}})
		case isMap && (n == "Get" || n == "GetOpt" || n == "Has" || n == "IndexOf"):
			var keys []reflect.Value
			snapKeys(x, func(k reflect.Value) { keys = append(keys, k) })
			for _, k := range append(keys, reflect.ValueOf("no such key")) {
				k := k
				out = append(out, observer{fmt.Sprintf("%s(%v)", n, k), func(x reflect.Value) *Val { return resultVal(method(x, n).Call([]reflect.Value{k})) }})
			}
		case isMap && n == "At":
			for i := 0; i < int(method(x, "Len").Call(nil)[0].Int()); i++ {
				add(fmt.Sprintf("At(%d)", i), i)
			}
		case isMap && n == "ForEach":
			out = append(out, observer{n, func(x reflect.Value) *Val { return snapOrderedMap(x) }})
		}
	}
	out = append(out, observer{"yaml.Marshal", func(x reflect.Value) *Val {
		b, err := yaml.Marshal(x.Interface())
		return vS(fmt.Sprint(string(b), err))
	}})
	return
}

func snapKeys(x reflect.Value, f func(k reflect.Value)) {
	fe := method(x, "ForEach")
	fe.Call([]reflect.Value{reflect.MakeFunc(fe.Type().In(0), func(a []reflect.Value) []reflect.Value { f(a[0]); return nil })})
}

// obsSpots lists the elements and collections of a document.
func obsSpots(ek string, s *Val, root interface{}, f func(path []string)) {
	seen := map[string]bool{}
	put := func(p []string) {
		k := strings.Join(p, "/")
		if !seen[k] {
			seen[k] = true
			f(p)
		}
	}
	spots(ek, s, nil, func(sek string, p []string) {
		put(p)
		for _, fc := range elemFacets(sek) {
			v := at(s, p)
			if v == nil {
				continue
			}
			if c := v.get(fc.Getter); c != nil && c.K == KMap {
				q := append(append([]string(nil), p...), fc.Getter)
				x := walk(reflect.ValueOf(root), q)
				if hasMethod(x.Type(), "ForEach") {
					put(q)
					for _, e := range c.M {
						if e.V.K != KMap || e.K.K != KStr {
							continue
						}
						ev, _ := tryWalk(root, append(append([]string(nil), q...), e.K.S))
						if ev.IsValid() && hasMethod(ev.Type(), "ForEach") {
							put(append(append([]string(nil), q...), e.K.S))
						}
					}
				}
			}
		}
	})
}

func tryWalk(root interface{}, p []string) (v reflect.Value, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return walk(reflect.ValueOf(root), p), nil
}

type obsBase struct {
	name  string
	d     *RootDef
	mk    func() interface{}
	state *Val
	brief bool // only whole histories
}

// collections lists the paths of all collections of a document.
func collections(d *RootDef, state *Val, probe interface{}) (out [][]string) {
	obsSpots(d.name, state, probe, func(p []string) {
		if v, err := tryWalk(probe, p); err == nil && v.IsValid() && hasMethod(v.Type(), "SerializeOrdered") {
			out = append(out, p)
		}
	})
	// inner ones first: serializing an outer one serializes them, too
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) > len(out[j]) })
	return
}

// modes is how every collection of a document is serialized on its own.
func modes(x interface{}, colls [][]string) string {
	var b strings.Builder
	for _, p := range colls {
		m := walk(reflect.ValueOf(x), p).Interface()
		j, err := m.(interface{ MarshalJSON() ([]byte, error) }).MarshalJSON()
		n, err2 := m.(interface{ ToYAML() (*yaml.Node, error) }).ToYAML()
		kind, tag := yaml.Kind(0), ""
		if n != nil {
			kind, tag = n.Kind, n.Tag
		}
		fmt.Fprintln(&b, strings.Join(p, "."), string(j), err, kind, tag, err2)
	}
	return b.String()
}

// inMode makes the collections of a document serialize in one way.
func inMode(b obsBase, name string, pick func(i int) bool) obsBase {
	mk, d, state := b.mk, b.d, b.state
	colls := collections(d, state, mk())
	b.name += name
	b.mk = func() interface{} {
		x := mk()
		for i, p := range colls {
			method(walk(reflect.ValueOf(x), p), "SerializeOrdered").Call([]reflect.Value{reflect.ValueOf(pick(i))})
		}
		return x
	}
	return b
}

func obsBases() (out []obsBase) {
	for _, kind := range kindNames {
		for i, b := range focusBases(kind) {
			b := b
			if i == 0 || i == 1 || i == 2 {
				o := obsBase{b.name, b.d, b.mk, b.d.ref(b.tree), false}
				out = append(out, o)
				if i == 0 {
					out = append(out, inMode(o, ", ordered collections", func(int) bool { return true }))
				}
			}
		}
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		for v := 0; v < 2; v++ {
			b := parsedBase{fmt.Sprintf("full %s %d", d.name, v), d, fullRoot(d, v), nil}
			o := obsBase{b.name, b.d, b.mk, d.ref(b.tree), false}
			out = append(out, o)
			if v == 0 {
				out = append(out, inMode(o, ", ordered collections", func(int) bool { return true }), inMode(o, ", every second collection ordered", func(i int) bool { return i%2 == 0 }))
			}
		}
		d := d
		out = append(out, obsBase{"new " + d.name, d, func() interface{} {
			if d == rootAPI {
				return rbuild.NewAPISpec()
			}
			return rbuild.NewLibrary()
		}, d.fresh(), false})
	}
	// the same content in other spellings, and collections with many entries
	styled := func(name string, d *RootDef, tree *Val, st style) {
		out = append(out, obsBase{fmt.Sprintf("%s in the style %+v", name, st), d, func() interface{} {
			doc, err := parseDoc(d, render(d.header, tree, st))
			if err != nil {
				panic(err)
			}
			return doc.x
		}, d.ref(tree), true})
	}
	for _, st := range obsStyles {
		for v := 0; v < 3; v++ {
			styled(fmt.Sprintf("full API spec %d", v), rootAPI, fullRoot(rootAPI, v), st)
			styled(fmt.Sprintf("full library %d", v), rootLib, fullRoot(rootLib, v), st)
		}
		for _, kind := range kindNames {
			for i, b := range focusBases(kind)[:3] {
				if i != 1 {
					styled(b.name, b.d, b.tree, st)
				}
			}
		}
	}
	// built from Go values
	out = append(out, obsBase{"built from Go values", rootLib, func() interface{} { return goMapDoc(8) }, nil, false})
	return
}

var obsStyles = []style{{flow: true}, {quote: 'd'}, {quote: 's'}, {quote: 'l'}, {indent: 4}, {flow: true, quote: 's'}}

func writeBytes(x interface{}) string {
	var b bytes.Buffer
	if err := x.(writer).WriteRAML(&b); err != nil {
		return "error: " + err.Error()
	}
	return b.String()
}

func c15(r *R) {
	for _, b := range obsBases() {
		b := b
		text := writeBytes(b.mk()) // of an instance nobody has looked at
		state := b.state
		probe := b.mk()
		if state == nil {
			state = snap(b.mk())
		}
		exact := snapExact(b.mk()).String()
		colls := collections(b.d, state, probe)
		mode := modes(b.mk(), colls)
		unchanged := func(t *T, x interface{}, what func() string) bool {
			t.Trans(1)
			if got := modes(x, colls); got != mode {
				t.Failf("what collections are serialized as changed after %s:\n--- untouched\n%s\n--- then\n%s", what(), firstDiff(mode, got), firstDiff(got, mode))
				return false
			}
			if got := writeBytes(x); got != text {
				t.Failf("the written text changed after %s:\n--- untouched\n%s\n--- then\n%s", what(), firstN(text, 3000), firstN(got, 3000))
				return false
			}
			if d := diff(state, snap(x), "doc"); d != "" {
				t.Failf("the document changed after %s: %s", what(), d)
				return false
			}
			if got := snapExact(x).String(); got != exact {
				t.Failf("the document's untyped values are no longer written as they were after %s:\n--- untouched\n%s\n--- then\n%s", what(), exact, got)
				return false
			}
			if got := writeBytes(x); got != text {
				t.Failf("the written text changed after calling every accessor (%s)", what())
				return false
			}
			return true
		}
		type op struct {
			path []string
			o    observer
		}
		var all []op
		obsSpots(b.d.name, state, probe, func(p []string) {
			obs := observers(walk(reflect.ValueOf(probe), p))
			for _, o := range obs {
				all = append(all, op{p, o})
			}
			for i := range obs {
				if b.brief {
					break
				}
				i := i
				r.Case(func() string {
					return fmt.Sprintf("%s: %s.%s, followed by every other operation on the same element", b.name, strings.Join(p, "."), obs[i].name)
				}, func(t *T) {
					x := b.mk()
					e := walk(reflect.ValueOf(x), p)
					first := obs[i].do(e)
					again := obs[i].do(e)
					t.Trans(2)
					if d := diff(first, again, obs[i].name); d != "" {
						t.Failf("calling %s twice gives different results: %s", obs[i].name, d)
						return
					}
					if !unchanged(t, x, func() string { return strings.Join(p, ".") + "." + obs[i].name }) {
						return
					}
					t.State(b.name + strings.Join(p, "/") + obs[i].name)
					y := b.mk()
					for j := range obs {
						if len(all) > 1200 && (i+j)%3 != 0 && !r.thorough() {
							continue
						}
						x := b.mk()
						e := walk(reflect.ValueOf(x), p)
						obs[i].do(e)
						got := obs[j].do(e)
						want := obs[j].do(walk(reflect.ValueOf(y), p))
						t.Trans(2)
						t.Count("ordered pairs", 1)
						if d := diff(want, got, obs[j].name); d != "" {
							t.Failf("%s gives a different result after %s: %s", obs[j].name, obs[i].name, d)
							return
						}
						if j%8 == i%8 || r.thorough() {
							if !unchanged(t, x, func() string { return strings.Join(p, ".") + "." + obs[i].name + ", " + obs[j].name }) {
								return
							}
						}
					}
				})
			}
		})
		// everything in one history, in both orders
		for _, back := range []bool{false, true} {
			r.Case(func() string { return fmt.Sprintf("%s: all operations in a row (backwards %v)", b.name, back) }, func(t *T) {
				x := b.mk()
				for i := range all {
					o := all[i]
					if back {
						o = all[len(all)-1-i]
					}
					o.o.do(walk(reflect.ValueOf(x), o.path))
					t.Trans(1)
					if i%50 == 49 && !unchanged(t, x, func() string { return fmt.Sprintf("%d operations", i+1) }) {
						return
					}
				}
				unchanged(t, x, func() string { return "all operations" })
				t.State(b.name + fmt.Sprint("all", back))
			})
		}
		r.Case(func() string { return b.name + ": read and written many times" }, func(t *T) {
			x := b.mk()
			for i := 0; i < 40; i++ {
				t.Trans(2)
				if got := writeBytes(x); got != text {
					t.Failf("write %d differs:\n--- first\n%s\n--- then\n%s", i+1, text, got)
					return
				}
				if got := writeBytes(b.mk()); got != text {
					t.Failf("write of instance %d differs:\n--- first\n%s\n--- then\n%s", i+1, text, got)
					return
				}
			}
			t.State(b.name + "many")
		})
	}
	// collections with many entries, everywhere
	for _, p := range oplaces() {
		p := p
		for _, n := range []int{4, 9, 24} {
			r.Case(func() string { return fmt.Sprintf("%s with %d entries, written again and again", p.name, n) }, func(t *T) {
				var ents []KV
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("k%02d", (i*7)%n)
					if p.list {
						k = fmt.Sprint(i)
					}
					ents = append(ents, kv(p.key(k), p.val(i)))
				}
				src := render(p.d.header, p.doc(ents), style{flow: n != 9})
				first, exact := "", ""
				var x interface{}
				for i := 0; i < 12; i++ {
					if i%2 == 0 {
						doc, err := parseDoc(p.d, src)
						if err != nil {
							t.Failf("reading failed: %v\n%s", err, src)
							return
						}
						x = doc.x
					}
					t.Trans(2)
					was := snapExact(x).String()
					got := writeBytes(x)
					if i == 0 {
						first, exact = got, was
					}
					if got != first {
						t.Failf("write %d of the same text differs:\n%s--- first\n%s\n--- then\n%s", i+1, src, first, got)
						return
					}
					if was != exact || snapExact(x).String() != exact {
						t.Failf("what the document contains changed with write %d:\n%s", i+1, src)
						return
					}
				}
				t.State(fmt.Sprint(p.name, n))
			})
		}
	}
	// maps on their own
	for mi, mk := range sampleMaps() {
		mk, mi := mk, mi
		probe := mk.mk()
		obs := observers(reflect.ValueOf(probe))
		base := snap(mk.mk())
		for i := range obs {
			for j := range obs {
				r.Case(func() string { return fmt.Sprintf("%s: %s then %s", mk.name, obs[i].name, obs[j].name) }, func(t *T) {
					x := reflect.ValueOf(mk.mk())
					obs[i].do(x)
					got := obs[j].do(x)
					want := obs[j].do(reflect.ValueOf(mk.mk()))
					t.Trans(3)
					if d := diff(want, got, obs[j].name); d != "" {
						t.Failf("%s gives a different result after %s: %s", obs[j].name, obs[i].name, d)
					}
					if d := diff(base, snap(x.Interface()), "map"); d != "" {
						t.Failf("the map changed: %s", d)
					}
					t.State(fmt.Sprint(mi, obs[i].name, obs[j].name))
				})
			}
		}
	}
	// Go values with their own iteration order
	for _, g := range goValues() {
		g := g
		for _, place := range goPlaces() {
			place := place
			r.Case(func() string { return fmt.Sprintf("Go value %s as %s, written 60 times", g.name, place.name) }, func(t *T) {
				x := place.mk(g.mk())
				first := writeBytes(x)
				if strings.HasPrefix(first, "error: ") {
					t.Failf("writing failed: %s", first)
					return
				}
				for i := 0; i < 30; i++ {
					t.Trans(2)
					if got := writeBytes(x); got != first {
						t.Failf("write %d differs:\n--- first\n%s\n--- then\n%s", i+2, first, got)
						return
					}
					if got := writeBytes(place.mk(g.mk())); got != first {
						t.Failf("write of equal instance %d differs:\n--- first\n%s\n--- then\n%s", i+2, first, got)
						return
					}
				}
				t.State(g.name + place.name)
			})
		}
	}
	// other processes
	for part := 0; part < 8; part++ {
		part := part
		r.Case(func() string { return fmt.Sprintf("part %d of the documents written in six processes", part) }, func(t *T) {
			want := digests(part)
			t.State(fmt.Sprint("process", part))
			for i, env := range [][]string{{}, {"TZ=Asia/Tokyo", "LANG=de_DE.UTF-8", "LC_ALL=de_DE.UTF-8"}, {"GOMAXPROCS=1", "TZ=America/New_York"}, {"GODEBUG=asyncpreemptoff=1", "GOGC=20"}, {"GOMAXPROCS=3", "HOME=/nonexistent", "USER=x"}, {"NO_COLOR=1", "TERM=dumb", "TMPDIR=/nonexistent"}} {
				cmd := exec.Command(os.Args[0], "digests", strconv.Itoa(part))
				cmd.Env = append(os.Environ(), env...)
				if i%2 == 1 {
					cmd.Dir = "/"
				}
				out, err := cmd.Output()
				if err != nil {
					panic(fmt.Sprintf("helper process: %v", err))
				}
				got := strings.Split(strings.TrimSpace(string(out)), "\n")
				if len(got) != len(want) {
					t.Failf("another process wrote %d documents instead of %d", len(got), len(want))
					return
				}
				t.Trans(len(got))
				t.Count("documents compared across processes", int64(len(got)))
				for j := range got {
					if got[j] != want[j] {
						t.Failf("another process (%v) wrote different text for document %d of part %d:\n%s", env, j, part, digestDoc(part, j))
						return
					}
				}
			}
		})
	}
}

// firstDiff is the first line of a that b does not have in its place.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return firstN(x[i], 1500)
		}
	}
	return ""
}

type sampleMap struct {
	name string
	mk   func() interface{}
}

func sampleMaps() (out []sampleMap) {
	for _, ordered := range []bool{true, false} {
		ordered := ordered
		out = append(out,
			sampleMap{fmt.Sprint("string map ", ordered), func() interface{} {
				return raml.NewStringMap(2).Put("z", "1").Put("a", "").Put("m", "true").SerializeOrdered(ordered)
			}},
			sampleMap{fmt.Sprint("untyped map ", ordered), func() interface{} {
				return raml.NewUntypedMap(2).Put("z", 1.5).Put("a", nil).Put("m", []interface{}{1, "x", map[string]interface{}{"q": 1}}).SerializeOrdered(ordered)
			}},
			sampleMap{fmt.Sprint("any map ", ordered), func() interface{} {
				return raml.NewAnyMap(2).Put("z", 1.5).Put(5, "five").Put(true, nil).SerializeOrdered(ordered)
			}},
			sampleMap{fmt.Sprint("type map ", ordered), func() interface{} {
				return raml.NewDataTypeMap(2).Put("T", newDecl(fullDecl("string", 0))).Put("A", rbuild.NewAnyDataType()).SerializeOrdered(ordered)
			}},
			sampleMap{fmt.Sprint("annotation map ", ordered), func() interface{} {
				return raml.NewAnnotationMap(2).Put("(z)", raml.NewUntypedMap(1).Put("k", 1).SerializeOrdered(false)).Put("(a)", raml.NewUntypedMap(0).SerializeOrdered(false)).SerializeOrdered(ordered)
			}},
			sampleMap{fmt.Sprint("facet map ", ordered), func() interface{} {
				return raml.NewFacetMap(2).Put("f", raml.NewDataTypeMap(1).Put("d", rbuild.NewStringDataType()).SerializeOrdered(false)).SerializeOrdered(ordered)
			}})
	}
	return
}

type goValue struct {
	name string
	mk   func() interface{}
}

func goValues() []goValue {
	big := func(n int) map[string]interface{} {
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("k%02d", (i*7)%n)] = i
		}
		return m
	}
	return []goValue{
		{"map of 2", func() interface{} { return big(2) }}, {"map of 8", func() interface{} { return big(8) }}, {"map of 9", func() interface{} { return big(9) }}, {"map of 40", func() interface{} { return big(40) }},
		{"string map", func() interface{} {
			m := map[string]string{}
			for i := 0; i < 12; i++ {
				m[fmt.Sprintf("k%d", i)] = "v"
			}
			return m
		}},
		{"int keys", func() interface{} {
			m := map[int]string{}
			for i := 0; i < 12; i++ {
				m[i*3-5] = "v"
			}
			return m
		}},
		{"mixed keys", func() interface{} {
			m := map[interface{}]interface{}{1: "a", "1x": "b", true: "c", 2.5: "d", "z": 1, "y": 2, "x": 3, "w": 4, 7: 5}
			return m
		}},
		{"nested maps", func() interface{} {
			return map[string]interface{}{"z": big(10), "a": []interface{}{big(9), 1, big(3)}, "m": map[string]interface{}{"i": big(8)}}
		}},
		{"list of maps", func() interface{} { return []interface{}{big(10), big(8), "x"} }},
		{"typed list of maps", func() interface{} { return []map[string]interface{}{big(10), big(8)} }},
		{"bool keys", func() interface{} { return map[bool]int{true: 1, false: 0} }},
		{"float keys", func() interface{} {
			m := map[float64]int{}
			for i := 0; i < 10; i++ {
				m[float64(i)+0.5] = i
			}
			return m
		}},
		{"map to lists", func() interface{} {
			m := map[string][]int{}
			for i := 0; i < 10; i++ {
				m[fmt.Sprint("n", i)] = []int{i}
			}
			return m
		}},
	}
}

type goPlace struct {
	name string
	mk   func(v interface{}) interface{}
}

func libOf(t raml.DataType) interface{} {
	l := rbuild.NewLibrary()
	l.Types().Put("T", t)
	return l
}

func goPlaces() []goPlace {
	anyEx := func() raml.AnyExample {
		return newExample("any", vM(kv("value", vI(1)))).Interface().(raml.AnyExample)
	}
	return []goPlace{
		{"default", func(v interface{}) interface{} { return libOf(rbuild.NewAnyDataType().SetDefault(v)) }},
		{"enum", func(v interface{}) interface{} {
			t := rbuild.NewAnyDataType()
			call1(t, "SetEnum", []interface{}{v, 1})
			return libOf(t)
		}},
		{"extra facet", func(v interface{}) interface{} {
			t := rbuild.NewStringDataType()
			t.ExtraFacets().Put("x", v)
			return libOf(t)
		}},
		{"annotation value", func(v interface{}) interface{} {
			t := rbuild.NewNumberDataType()
			t.Annotations().Put("(a)", raml.NewUntypedMap(1).Put("v", v).SerializeOrdered(false))
			return libOf(t)
		}},
		{"example value", func(v interface{}) interface{} {
			t := rbuild.NewAnyDataType()
			call1(t, "SetExample", call1(anyEx(), "SetValue", v))
			return libOf(t)
		}},
		{"examples entry", func(v interface{}) interface{} {
			t := rbuild.NewAnyDataType()
			call1(call1(t, "Examples"), "Put", "e", call1(call1(anyEx(), "SetValue", v), "SetStrict", false))
			return libOf(t)
		}},
		{"array default", func(v interface{}) interface{} {
			t := rbuild.NewArrayDataType()
			call1(t, "SetDefault", []interface{}{v, v})
			return libOf(t)
		}},
		{"trait", func(v interface{}) interface{} {
			l := rbuild.NewLibrary()
			l.Traits().Put("t", v)
			return l
		}},
		{"root extra facet", func(v interface{}) interface{} {
			l := rbuild.NewLibrary()
			l.ExtraFacets().Put("t", v)
			return l
		}},
		{"resource", func(v interface{}) interface{} {
			a := rbuild.NewAPISpec().SetTitle("t")
			call1(call1(a, "Resources"), "Put", "/r", v)
			return a
		}},
	}
}

func goMapDoc(n int) interface{} {
	l := rbuild.NewLibrary()
	for i, g := range goValues() {
		t := rbuild.NewAnyDataType().SetDefault(g.mk())
		if i < n {
			l.Types().Put(fmt.Sprint("T", i), t)
		}
	}
	return l
}

// digestDocs are the documents written in several processes.
func digestDocs(part int, f func(c docCase)) {
	n := 0
	emit := func(c docCase) {
		n++
		if n%101 == 0 || strings.Contains(c.what, "full") {
			if n%8 == part {
				f(c)
			}
		}
	}
	declDocs(false, emit)
	rootDocs(rootAPI, false, emit)
	rootDocs(rootLib, false, emit)
}

func digests(part int) (out []string) {
	h := func(s string) string { x := fnv.New64a(); x.Write([]byte(s)); return fmt.Sprintf("%016x", x.Sum64()) }
	digestDocs(part, func(c docCase) {
		doc, err := parseDoc(c.d, c.text())
		if err != nil {
			out = append(out, h(err.Error()))
			return
		}
		b, err := doc.write()
		out = append(out, h(string(b)+fmt.Sprint(err)))
	})
	for i, g := range goValues() {
		for j, p := range goPlaces() {
			if (i+j)%8 == part {
				out = append(out, h(writeBytes(p.mk(g.mk()))))
			}
		}
	}
	return
}

func digestDoc(part, j int) (s string) {
	n := 0
	s = "a Go value"
	digestDocs(part, func(c docCase) {
		if n == j {
			s = c.desc()
		}
		n++
	})
	return
}

func init() {
	helpers["digests"] = func(a []string) {
		p, _ := strconv.Atoi(a[0])
		fmt.Println(strings.Join(digests(p), "\n"))
	}
	reg(&checkDef{id: "C15", level: "model_checking", fn: c15, stateIs: "element and first operation (or document, or Go value and place)",
		rule: "on every element and collection of full and bare documents of every kind: every inspecting or writing operation, repeated, and every ordered pair on the same element, each on a new instance, then all operations in one history; results, every accessor and the written bytes are compared with an untouched instance; documents and Go values written 40 to 60 times and in six processes",
		assume: []string{"the runtime's choice of Go map iteration order is sampled by repetition (60 writes of maps of up to 40 keys), not enumerated",
			"operations are discovered by reflection: every exported method without a mutating name prefix"}})
}
