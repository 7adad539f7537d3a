package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// C01/C02: the ordered map types against a list of pairs.

type mapI[K, V, E, M any] interface {
	Put(K, V) M
	ReplaceOrPut(K, V) M
	ReplaceIfExists(K, V) M
	Get(K) (V, bool)
	At(int) E
	Len() int
	Has(K) bool
	IndexOf(K) int
	Delete(K) M
	ForEach(func(K, V)) M
	SerializeOrdered(bool) M
	ToYAML() (*yaml.Node, error)
	MarshalYAML() (interface{}, error)
	MarshalJSON() ([]byte, error)
}

const (
	oPut = iota
	oPin
	oPinNil
	oRop
	oRie
	oDel
	oMode
	oSer // serialize in every way, discarding the result
	nOps
)

var opNames = []string{"Put", "PutIfNotNil", "PutIfNotNil(nil)", "ReplaceOrPut", "ReplaceIfExists", "Delete", "SerializeOrdered", "serialize"}

type mop struct{ op, k, v int }

type ment struct{ k, v int }

// model of an ordered map
type mmodel struct {
	ents    []ment
	ordered bool
}

func (m *mmodel) find(k int) int {
	for i, e := range m.ents {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *mmodel) apply(o mop) {
	switch o.op {
	case oPut, oPin:
		m.del(o.k)
		m.ents = append(m.ents, ment{o.k, o.v})
	case oRop:
		if i := m.find(o.k); i >= 0 {
			m.ents[i].v = o.v
		} else {
			m.ents = append(m.ents, ment{o.k, o.v})
		}
	case oRie:
		if i := m.find(o.k); i >= 0 {
			m.ents[i].v = o.v
		}
	case oDel:
		m.del(o.k)
	case oMode:
		m.ordered = o.v == 1
	}
}

func (m *mmodel) del(k int) {
	if i := m.find(k); i >= 0 {
		m.ents = append(m.ents[:i], m.ents[i+1:]...)
	}
}

// anyMap is an ordered map under test with its value and key alphabets.
type mapUT interface {
	name() string
	nKeys() int
	nVals() int
	fresh(cap int)
	do(o mop) string
	observe(m *mmodel, nk int) string
	serialized(m *mmodel, text bool) string
	keyDesc(i int) string
	valDesc(i int) string
}

type gmap[K, V, E any, M mapI[K, V, E, M]] struct {
	nm     string
	mk     func(int) M
	m      M
	keys   []K
	vals   []V
	want   []*Val // YAML of each value
	ent    func(E) (K, V)
	pin    func(m M, k K, v V, null bool) M
	getOpt func(m M, k K) (V, bool)
}

func (g *gmap[K, V, E, M]) name() string         { return g.nm }
func (g *gmap[K, V, E, M]) nKeys() int           { return len(g.keys) }
func (g *gmap[K, V, E, M]) nVals() int           { return len(g.vals) }
func (g *gmap[K, V, E, M]) fresh(c int)          { g.m = g.mk(c) }
func (g *gmap[K, V, E, M]) keyDesc(i int) string { return fmt.Sprintf("%#v", g.keys[i]) }
func (g *gmap[K, V, E, M]) valDesc(i int) string {
	return fmt.Sprintf("%T %s", g.vals[i], short(g.want[i]))
}

func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	switch ta.Kind() {
	case reflect.Map, reflect.Slice, reflect.Func:
		return reflect.DeepEqual(a, b)
	case reflect.Struct, reflect.Array:
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

func (g *gmap[K, V, E, M]) do(o mop) string {
	var r M
	switch o.op {
	case oPut:
		r = g.m.Put(g.keys[o.k], g.vals[o.v])
	case oPin:
		r = g.pin(g.m, g.keys[o.k], g.vals[o.v], false)
	case oPinNil:
		r = g.pin(g.m, g.keys[o.k], g.vals[o.v], true)
	case oRop:
		r = g.m.ReplaceOrPut(g.keys[o.k], g.vals[o.v])
	case oRie:
		r = g.m.ReplaceIfExists(g.keys[o.k], g.vals[o.v])
	case oDel:
		r = g.m.Delete(g.keys[o.k])
	case oMode:
		r = g.m.SerializeOrdered(o.v == 1)
	case oSer:
		g.m.ToYAML()
		g.m.MarshalYAML()
		g.m.MarshalJSON()
		return ""
	}
	if any(r) != any(g.m) {
		return opNames[o.op] + " returned something other than the map it was called on"
	}
	return ""
}

func (g *gmap[K, V, E, M]) observe(m *mmodel, nk int) string {
	n := len(m.ents)
	if g.m.Len() != n {
		return fmt.Sprintf("Len is %d, expected %d", g.m.Len(), n)
	}
	for i, e := range m.ents {
		k, v := g.ent(g.m.At(i))
		if any(k) != any(g.keys[e.k]) || !same(v, g.vals[e.v]) {
			return fmt.Sprintf("At(%d) is %v: %v, expected %v: %v", i, k, v, g.keys[e.k], g.vals[e.v])
		}
	}
	i, bad := 0, ""
	r := g.m.ForEach(func(k K, v V) {
		if bad != "" {
			return
		}
		if i >= n {
			bad = "ForEach yields more entries than there are"
			return
		}
		if e := m.ents[i]; any(k) != any(g.keys[e.k]) || !same(v, g.vals[e.v]) {
			bad = fmt.Sprintf("ForEach yields %v: %v at %d, expected %v: %v", k, v, i, g.keys[e.k], g.vals[e.v])
		}
		i++
	})
	if bad != "" {
		return bad
	}
	if i != n {
		return fmt.Sprintf("ForEach yields %d entries of %d", i, n)
	}
	if any(r) != any(g.m) {
		return "ForEach returned something other than the map it was called on"
	}
	if nk > len(g.keys) {
		nk = len(g.keys)
	}
	pos := make([]int, nk)
	for i := range pos {
		pos[i] = -1
	}
	for i, e := range m.ents {
		pos[e.k] = i
	}
	for ki := 0; ki < nk; ki++ {
		k := g.keys[ki]
		has := pos[ki] >= 0
		if g.m.Has(k) != has {
			return fmt.Sprintf("Has(%v) is %v", k, !has)
		}
		if p := g.m.IndexOf(k); p != pos[ki] {
			return fmt.Sprintf("IndexOf(%v) is %d, expected %d", k, p, pos[ki])
		}
		v, ok := g.m.Get(k)
		if ok != has {
			return fmt.Sprintf("Get(%v) reports %v", k, ok)
		}
		if has && !same(v, g.vals[m.ents[pos[ki]].v]) {
			return fmt.Sprintf("Get(%v) is %v, expected %v", k, v, g.vals[m.ents[pos[ki]].v])
		}
		if g.getOpt != nil {
			v, ok := g.getOpt(g.m, k)
			if ok != has {
				return fmt.Sprintf("GetOpt(%v) reports presence %v", k, ok)
			}
			if has && !same(v, g.vals[m.ents[pos[ki]].v]) {
				return fmt.Sprintf("GetOpt(%v) is %v, expected %v", k, v, g.vals[m.ents[pos[ki]].v])
			}
		}
	}
	return ""
}

func jsonVal(b []byte) (*Val, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := jsonTok(d)
	if err == nil && d.More() {
		err = fmt.Errorf("trailing JSON")
	}
	return v, err
}

func jsonTok(d *json.Decoder) (*Val, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return vNull(), nil
	case string:
		return vS(x), nil
	case bool:
		return vB(x), nil
	case json.Number:
		return &Val{K: KNum, S: x.String()}, nil
	case json.Delim:
		if x == '[' {
			out := vL()
			for d.More() {
				v, err := jsonTok(d)
				if err != nil {
					return nil, err
				}
				out.L = append(out.L, v)
			}
			_, err := d.Token()
			return out, err
		}
		out := vM()
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			v, err := jsonTok(d)
			if err != nil {
				return nil, err
			}
			out.M = append(out.M, KV{K: vS(k.(string)), V: v})
		}
		_, err := d.Token()
		return out, err
	}
	return nil, fmt.Errorf("token %v", t)
}

func mustJSON(v interface{}) *Val {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	out, err := jsonVal(b)
	if err != nil {
		panic(err)
	}
	return out
}

// serialized checks every serialization entry point against the model.
func (g *gmap[K, V, E, M]) serialized(m *mmodel, text bool) string {
	var wy, wj *Val
	collide := false
	if m.ordered {
		wy, wj = &Val{K: KList, S: "!!omap"}, vL()
		for _, e := range m.ents {
			wy.L = append(wy.L, vM(KV{K: expKey(g.keys[e.k]), V: g.want[e.v]}))
			wj.L = append(wj.L, vM(kv("key", mustJSON(g.keys[e.k])), kv("value", mustJSON(g.vals[e.v]))))
		}
	} else {
		wy, wj = vM(), &Val{K: KMap, U: true}
		texts := map[string]bool{}
		for _, e := range m.ents {
			wy.M = append(wy.M, KV{K: expKey(g.keys[e.k]), V: g.want[e.v]})
			if kt := fmt.Sprint(g.keys[e.k]); texts[kt] {
				collide = true // an object cannot hold both
			} else {
				texts[kt] = true
			}
			wj.M = append(wj.M, kv(fmt.Sprint(g.keys[e.k]), mustJSON(g.vals[e.v])))
		}
	}
	n, err := g.m.ToYAML()
	if err != nil {
		return "ToYAML failed: " + err.Error()
	}
	if d := diff(wy, nodeVal(n), "ToYAML"); d != "" {
		return d
	}
	x, err := g.m.MarshalYAML()
	if err != nil {
		return "MarshalYAML failed: " + err.Error()
	}
	xn, ok := x.(*yaml.Node)
	if !ok {
		return fmt.Sprintf("MarshalYAML gives a %T", x)
	}
	if d := diff(wy, nodeVal(xn), "MarshalYAML"); d != "" {
		return d
	}
	if text {
		b, err := yaml.Marshal(g.m)
		if err != nil {
			return "yaml.Marshal failed: " + err.Error()
		}
		tv, err := readYAML(b)
		d := ""
		if err != nil {
			d = fmt.Sprintf("yaml.Marshal gives unreadable text: %v\n%s", err, b)
		} else if d = diff(wy, tv, "yaml.Marshal"); d != "" {
			d += "\n" + string(b)
		}
		// some text values are beyond what yaml.v3 can write at all
		if d != "" && yamlCanWrite(wy) {
			return d
		}
	}
	b, err := g.m.MarshalJSON()
	if err != nil {
		return "MarshalJSON failed: " + err.Error()
	}
	jv, err := jsonVal(b)
	if err != nil {
		return fmt.Sprintf("MarshalJSON gives unreadable text: %v\n%s", err, b)
	}
	if d := diff(wj, jv, "MarshalJSON"); d != "" && !collide {
		return d + "\n" + string(b)
	}
	if !text {
		return ""
	}
	b2, err := json.Marshal(g.m)
	if err != nil {
		return "json.Marshal failed: " + err.Error()
	}
	jv2, err := jsonVal(b2)
	if err != nil {
		return fmt.Sprintf("json.Marshal gives unreadable text: %v\n%s", err, b2)
	}
	if d := diff(wj, jv2, "json.Marshal"); d != "" && !collide {
		return d + "\n" + string(b2)
	}
	return ""
}

func toNode(v *Val) *yaml.Node {
	sc := func(tag, s string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: s} }
	switch v.K {
	case KNull, KNone:
		return sc("!!null", "null")
	case KInt:
		return sc("!!int", v.S)
	case KFloat:
		return sc("!!float", v.S)
	case KNum:
		if strings.ContainsAny(v.S, ".e") {
			return sc("!!float", v.S)
		}
		return sc("!!int", v.S)
	case KBool:
		return sc("!!bool", v.S)
	case KTS:
		return sc("!!timestamp", v.S)
	case KTag:
		p := strings.SplitN(v.S, " ", 2)
		return sc(p[0], p[1])
	case KList:
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: v.S}
		for _, x := range v.L {
			n.Content = append(n.Content, toNode(x))
		}
		return n
	case KMap:
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: v.S}
		for _, x := range v.M {
			n.Content = append(n.Content, toNode(x.K), toNode(x.V))
		}
		return n
	}
	return sc("!!str", v.S)
}

// yamlCanWrite reports whether the YAML library writes a tree so that it can
// be read back.
func yamlCanWrite(v *Val) bool {
	b, err := yaml.Marshal(toNode(v))
	if err != nil {
		return false
	}
	r, err := readYAML(b)
	return err == nil && diff(v, r, "") == ""
}

func expKey(k interface{}) *Val { return expVal(k) }

// expVal is the YAML content of a plain Go value.
func expVal(x interface{}) *Val {
	switch v := x.(type) {
	case nil:
		return vNull()
	case *Val:
		return v
	case string:
		return vS(v)
	case bool:
		return vB(v)
	case float64:
		return vNum(v)
	case float32:
		return vNum(float64(v))
	case *yaml.Node:
		return nodeVal(v)
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Val{K: KInt, S: fmt.Sprint(x)}
	case reflect.Slice, reflect.Array:
		out := vL()
		for i := 0; i < rv.Len(); i++ {
			out.L = append(out.L, expVal(rv.Index(i).Interface()))
		}
		return out
	case reflect.Map:
		out := &Val{K: KMap, U: true}
		for _, k := range rv.MapKeys() {
			out.M = append(out.M, KV{K: expVal(k.Interface()), V: expVal(rv.MapIndex(k).Interface())})
		}
		sort.Slice(out.M, func(a, b int) bool { return out.M[a].K.String() < out.M[b].K.String() })
		return out
	case reflect.Ptr:
		if rv.IsNil() {
			return vNull()
		}
		return expVal(rv.Elem().Interface())
	}
	panic(fmt.Sprintf("no expectation for %T", x))
}

var mapKeysAlpha = []string{"a", "b", "c", "", "1", "true", "null", "k: v", "- x", "\u65e5", "A", "a ", "~", "1.5", "key", "value", "multi\nline", "!t", "#", "<x>&\u2028", "0", "01", "1e3", "yes", "<<", "="}

func manyKeys(n int) []string {
	out := append([]string(nil), mapKeysAlpha...)
	for i := 0; len(out) < n; i++ {
		out = append(out, fmt.Sprintf("k%04d", (i*7919+13)%10007))
	}
	return out
}

const nManyKeys = 300

// declVals are data types of every kind, made by parsing.
func declVals() (out []raml.DataType, want []*Val) {
	var trees []*Val
	for _, k := range kindNames {
		trees = append(trees, kindExpr(k))
		sl := declSlots(k)
		d := vM(kv("type", kindExpr(k)))
		for i := 0; i < len(sl) && i < 6; i++ {
			if sl[i].rep != nil {
				d.M = append(d.M, KV{K: sl[i].key, V: sl[i].rep()[0]})
			}
		}
		trees = append(trees, d)
	}
	m := vM()
	for i, t := range trees {
		m.M = append(m.M, kv(fmt.Sprintf("T%d", i), t))
	}
	doc, err := parseDoc(rootLib, render(hdrLib, vM(kv("types", m)), stDefault))
	if err != nil {
		panic(err)
	}
	doc.x.(raml.Library).Types().ForEach(func(k string, v raml.DataType) { out = append(out, v) })
	for _, t := range trees {
		want = append(want, outDecl(refDecl(t)))
	}
	return
}

// exVals are examples of a type kind, made by parsing.
func exVals(kind string) (holder interface{}, want []*Val) {
	k := kinds[kind]
	v := k.ex.rep()
	more := []*Val{vM(kv("value", v[0].get1("value")), kv("description", vS("d"))), vM(kv("value", v[0].get1("value")), kv("strict", vB(false)), kv("x-y", vI(4)), kv("(a)", vM(kv("b", vS("c")))))}
	v = append(append([]*Val{}, v...), more...)
	m := vM()
	for i, t := range v {
		m.M = append(m.M, kv(fmt.Sprintf("e%d", i), t))
		s := k.ex.parse(t)
		if s == nil {
			panic("bad example " + t.String())
		}
		o, _ := k.ex.out(s)
		want = append(want, o)
	}
	doc, err := parseDoc(rootLib, render(hdrLib, vM(kv("types", vM(kv("T", vM(kv("type", kindExpr(kind)), kv("examples", m)))))), stDefault))
	if err != nil {
		panic(err)
	}
	t, _ := doc.x.(raml.Library).Types().Get("T")
	return t, want
}

// get1 is the value of an example tree: its value entry or itself.
func (v *Val) get1(k string) *Val {
	if v.K == KMap {
		if x := v.get(k); x != nil {
			return x
		}
	}
	return v
}

type badValue struct{}

func (badValue) MarshalYAML() (interface{}, error) { return nil, fmt.Errorf("refused") }
func (badValue) ToYAML() (*yaml.Node, error)       { return nil, fmt.Errorf("refused") }
func (badValue) MarshalJSON() ([]byte, error)      { return nil, fmt.Errorf("refused") }

func untypedVals() (vals []interface{}, want []*Val) {
	put := func(v interface{}, w *Val) {
		vals = append(vals, v)
		want = append(want, w)
	}
	for _, v := range []interface{}{"a", "b", nil, 1, true, 1.5, "", "123", "true", "null", "2020-01-01", "multi\nline\n", "- x", "<&>\u2028", -7, int64(1) << 62, uint8(200), uint64(1) << 63, 0.1, 1e21, 1e-7, 123456789.123456789, float32(0.5), 100.0, false, "\u65e5\u672c", " lead", "trail ", "{}", "[]", "#", "<<", "=", strings.Repeat("long text ", 30),
		[]interface{}{1, "a", nil, []interface{}{}}, []string{"x", "y"}, []string{"<<"}, map[string]string{"<<": "<<"}, []interface{}{}, []int{3, 1, 2}, map[string]interface{}{"z": 1, "a": []string{"q"}}, map[string]string{}, map[string]int{"a": 1, "b": 2, "c": 3}} {
		put(v, expVal(v))
	}
	for _, t := range aRaw() {
		if t.K == KTag {
			continue
		}
		var n yaml.Node
		if err := yaml.Unmarshal([]byte(render("", t, style{flow: true})), &n); err != nil {
			continue
		}
		if n.Kind == yaml.DocumentNode && len(n.Content) == 1 {
			put(n.Content[0], nodeVal(n.Content[0]))
		}
	}
	sm := raml.NewStringMap(1).Put("z", "1").Put("a", "2")
	put(sm, &Val{K: KList, S: "!!omap", L: []*Val{vM(kv("z", vS("1"))), vM(kv("a", vS("2")))}})
	um := raml.NewUntypedMap(1).SerializeOrdered(false).Put("z", 1).Put("a", raml.NewAnyMap(0).Put(1, "x").Put(2, nil))
	put(um, vM(kv("z", vI(1)), kv("a", &Val{K: KList, S: "!!omap", L: []*Val{vM(KV{K: vI(1), V: vS("x")}), vM(KV{K: vI(2), V: vNull()})}})))
	ds, dw := declVals()
	for i := range ds {
		put(ds[i], dw[i])
	}
	return
}

func cycle[T any](l []T, n int) []T {
	var out []T
	for i := 0; i < n; i++ {
		out = append(out, l[i%len(l)])
	}
	return out
}

func typedMap[V, E any, M mapI[string, V, E, M]](nm string, mk func(int) M, ent func(E) (string, V), pin func(M, string, *V) M, vals []V, want []*Val) mapUT {
	return &gmap[string, V, E, M]{nm: nm, mk: mk, keys: manyKeys(nManyKeys), vals: vals, want: want, ent: ent,
		pin: func(m M, k string, v V, null bool) M {
			if null {
				return pin(m, k, nil)
			}
			return pin(m, k, &v)
		}}
}

// pinUntyped passes pointers, including typed nil pointers, and plain values.
func pinUntyped[K, M any](pin func(M, K, interface{}) M) func(m M, k K, v interface{}, null bool) M {
	return func(m M, k K, v interface{}, null bool) M {
		if null {
			if v == nil {
				return pin(m, k, nil)
			}
			return pin(m, k, (*string)(nil))
		}
		if v == nil {
			p := new(interface{})
			return pin(m, k, p)
		}
		switch x := v.(type) {
		case string:
			return pin(m, k, &x)
		case int:
			return pin(m, k, &x)
		case *yaml.Node:
			return pin(m, k, &x)
		}
		if reflect.TypeOf(v).Kind() == reflect.Ptr {
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			return pin(m, k, p.Interface())
		}
		if k := reflect.TypeOf(v).Kind(); (k == reflect.Slice || k == reflect.Map) && reflect.ValueOf(v).IsNil() {
			panic("nil collections are not in the alphabet")
		}
		return pin(m, k, v)
	}
}

func exList[V any](kind string) ([]V, []*Val) {
	h, want := exVals(kind)
	m := method(reflect.ValueOf(h), "Examples").Call(nil)[0]
	var out []V
	n := int(m.MethodByName("Len").Call(nil)[0].Int())
	for i := 0; i < n; i++ {
		e := m.MethodByName("At").Call([]reflect.Value{reflect.ValueOf(i)})[0]
		out = append(out, e.FieldByName("Val").Interface().(V))
	}
	return out, want
}

var mapMakers = []func() mapUT{
	func() mapUT {
		var vals []string
		var want []*Val
		for _, s := range append([]string{"v1", "v2"}, strAlpha...) {
			vals = append(vals, s)
			want = append(want, vS(s))
		}
		g := typedMap[string, raml.StringMapEntry, raml.StringMap]("StringMap", raml.NewStringMap, func(e raml.StringMapEntry) (string, string) { return e.Key, e.Val }, raml.StringMap.PutIfNotNil, vals, want)
		g.(*gmap[string, string, raml.StringMapEntry, raml.StringMap]).getOpt = func(m raml.StringMap, k string) (string, bool) {
			o := m.GetOpt(k)
			if o.IsNil() {
				return "", false
			}
			return o.Get(), true
		}
		return g
	},
	func() mapUT {
		vals, want := untypedVals()
		return &gmap[string, interface{}, raml.UntypedMapEntry, raml.UntypedMap]{nm: "UntypedMap", mk: raml.NewUntypedMap, keys: manyKeys(nManyKeys), vals: vals, want: want,
			ent: func(e raml.UntypedMapEntry) (string, interface{}) { return e.Key, e.Val },
			pin: pinUntyped(raml.UntypedMap.PutIfNotNil),
			getOpt: func(m raml.UntypedMap, k string) (interface{}, bool) {
				o := m.GetOpt(k)
				if o.IsNil() {
					return nil, false
				}
				return o.Get(), true
			}}
	},
	func() mapUT {
		vals, want := untypedVals()
		keys := []interface{}{"a", 1, true, "1", "true", 1.5, -9, "", "1.5", -4, false, uint8(1), int64(1)}
		for _, k := range manyKeys(nManyKeys) {
			dup := false
			for _, o := range keys {
				dup = dup || o == interface{}(k)
			}
			if !dup {
				keys = append(keys, k)
			}
		}
		return &gmap[interface{}, interface{}, raml.AnyMapEntry, raml.AnyMap]{nm: "AnyMap", mk: raml.NewAnyMap, keys: keys, vals: vals, want: want,
			ent: func(e raml.AnyMapEntry) (interface{}, interface{}) { return e.Key, e.Val },
			pin: pinUntyped(raml.AnyMap.PutIfNotNil),
			getOpt: func(m raml.AnyMap, k interface{}) (interface{}, bool) {
				o := m.GetOpt(k)
				if o.IsNil() {
					return nil, false
				}
				return o.Get(), true
			}}
	},
	func() mapUT {
		vals, want := untypedVals()
		ex, ew := exList[raml.AnyExample]("any")
		for i := range ex {
			vals = append(vals, ex[i])
			want = append(want, ew[i])
		}
		return &gmap[string, interface{}, raml.AnyExampleMapEntry, raml.AnyExampleMap]{nm: "AnyExampleMap", mk: raml.NewAnyExampleMap, keys: manyKeys(nManyKeys), vals: vals, want: want,
			ent: func(e raml.AnyExampleMapEntry) (string, interface{}) { return e.Key, e.Val },
			pin: pinUntyped(raml.AnyExampleMap.PutIfNotNil),
			getOpt: func(m raml.AnyExampleMap, k string) (interface{}, bool) {
				o := m.GetOpt(k)
				if o.IsNil() {
					return nil, false
				}
				return o.Get(), true
			}}
	},
	func() mapUT {
		vals, want := declVals()
		return typedMap[raml.DataType, raml.DataTypeMapEntry, raml.DataTypeMap]("DataTypeMap", raml.NewDataTypeMap, func(e raml.DataTypeMapEntry) (string, raml.DataType) { return e.Key, e.Val }, raml.DataTypeMap.PutIfNotNil, vals, want)
	},
	func() mapUT {
		ds, dw := declVals()
		var vals []raml.Property
		for _, d := range ds {
			vals = append(vals, d.(raml.Property))
		}
		return typedMap[raml.Property, raml.PropertyMapEntry, raml.PropertyMap]("PropertyMap", raml.NewPropertyMap, func(e raml.PropertyMapEntry) (string, raml.Property) { return e.Key, e.Val }, raml.PropertyMap.PutIfNotNil, vals, dw)
	},
	func() mapUT {
		a := []raml.Annotation{raml.NewUntypedMap(0).SerializeOrdered(false).Put("x", 1), raml.NewUntypedMap(0).SerializeOrdered(false), raml.NewUntypedMap(0).Put("z", "s").Put("a", nil)}
		w := []*Val{vM(kv("x", vI(1))), vM(), {K: KList, S: "!!omap", L: []*Val{vM(kv("z", vS("s"))), vM(kv("a", vNull()))}}}
		return typedMap[raml.Annotation, raml.AnnotationMapEntry, raml.AnnotationMap]("AnnotationMap", raml.NewAnnotationMap, func(e raml.AnnotationMapEntry) (string, raml.Annotation) { return e.Key, e.Val }, raml.AnnotationMap.PutIfNotNil, a, w)
	},
	func() mapUT {
		ds, dw := declVals()
		a := []raml.Facet{raml.NewDataTypeMap(0).SerializeOrdered(false).Put("q", ds[3]).Put("p", ds[0]), raml.NewDataTypeMap(0).SerializeOrdered(false), raml.NewDataTypeMap(0).Put("z", ds[5]).Put("a", ds[4])}
		w := []*Val{vM(kv("q", dw[3]), kv("p", dw[0])), vM(), {K: KList, S: "!!omap", L: []*Val{vM(kv("z", dw[5])), vM(kv("a", dw[4]))}}}
		return typedMap[raml.Facet, raml.FacetMapEntry, raml.FacetMap]("FacetMap", raml.NewFacetMap, func(e raml.FacetMapEntry) (string, raml.Facet) { return e.Key, e.Val }, raml.FacetMap.PutIfNotNil, a, w)
	},
	func() mapUT {
		v, w := exList[raml.ArrayExample]("array")
		return typedMap[raml.ArrayExample, raml.ArrayExampleMapEntry, raml.ArrayExampleMap]("ArrayExampleMap", raml.NewArrayExampleMap, func(e raml.ArrayExampleMapEntry) (string, raml.ArrayExample) { return e.Key, e.Val }, raml.ArrayExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.BoolExample]("boolean")
		return typedMap[raml.BoolExample, raml.BoolExampleMapEntry, raml.BoolExampleMap]("BoolExampleMap", raml.NewBoolExampleMap, func(e raml.BoolExampleMapEntry) (string, raml.BoolExample) { return e.Key, e.Val }, raml.BoolExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.CustomExample]("custom")
		return typedMap[raml.CustomExample, raml.CustomExampleMapEntry, raml.CustomExampleMap]("CustomExampleMap", raml.NewCustomExampleMap, func(e raml.CustomExampleMapEntry) (string, raml.CustomExample) { return e.Key, e.Val }, raml.CustomExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.DateOnlyExample]("date-only")
		return typedMap[raml.DateOnlyExample, raml.DateOnlyExampleMapEntry, raml.DateOnlyExampleMap]("DateOnlyExampleMap", raml.NewDateOnlyExampleMap, func(e raml.DateOnlyExampleMapEntry) (string, raml.DateOnlyExample) { return e.Key, e.Val }, raml.DateOnlyExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.DatetimeExample]("datetime")
		return typedMap[raml.DatetimeExample, raml.DatetimeExampleMapEntry, raml.DatetimeExampleMap]("DatetimeExampleMap", raml.NewDatetimeExampleMap, func(e raml.DatetimeExampleMapEntry) (string, raml.DatetimeExample) { return e.Key, e.Val }, raml.DatetimeExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.DatetimeOnlyExample]("datetime-only")
		return typedMap[raml.DatetimeOnlyExample, raml.DatetimeOnlyExampleMapEntry, raml.DatetimeOnlyExampleMap]("DatetimeOnlyExampleMap", raml.NewDatetimeOnlyExampleMap, func(e raml.DatetimeOnlyExampleMapEntry) (string, raml.DatetimeOnlyExample) { return e.Key, e.Val }, raml.DatetimeOnlyExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.FileExample]("file")
		return typedMap[raml.FileExample, raml.FileExampleMapEntry, raml.FileExampleMap]("FileExampleMap", raml.NewFileExampleMap, func(e raml.FileExampleMapEntry) (string, raml.FileExample) { return e.Key, e.Val }, raml.FileExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.IntegerExample]("integer")
		return typedMap[raml.IntegerExample, raml.IntegerExampleMapEntry, raml.IntegerExampleMap]("IntegerExampleMap", raml.NewIntegerExampleMap, func(e raml.IntegerExampleMapEntry) (string, raml.IntegerExample) { return e.Key, e.Val }, raml.IntegerExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.NumberExample]("number")
		return typedMap[raml.NumberExample, raml.NumberExampleMapEntry, raml.NumberExampleMap]("NumberExampleMap", raml.NewNumberExampleMap, func(e raml.NumberExampleMapEntry) (string, raml.NumberExample) { return e.Key, e.Val }, raml.NumberExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.ObjectExample]("object")
		return typedMap[raml.ObjectExample, raml.ObjectExampleMapEntry, raml.ObjectExampleMap]("ObjectExampleMap", raml.NewObjectExampleMap, func(e raml.ObjectExampleMapEntry) (string, raml.ObjectExample) { return e.Key, e.Val }, raml.ObjectExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.StringExample]("string")
		return typedMap[raml.StringExample, raml.StringExampleMapEntry, raml.StringExampleMap]("StringExampleMap", raml.NewStringExampleMap, func(e raml.StringExampleMapEntry) (string, raml.StringExample) { return e.Key, e.Val }, raml.StringExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.TimeOnlyExample]("time-only")
		return typedMap[raml.TimeOnlyExample, raml.TimeOnlyExampleMapEntry, raml.TimeOnlyExampleMap]("TimeOnlyExampleMap", raml.NewTimeOnlyExampleMap, func(e raml.TimeOnlyExampleMapEntry) (string, raml.TimeOnlyExample) { return e.Key, e.Val }, raml.TimeOnlyExampleMap.PutIfNotNil, v, w)
	},
	func() mapUT {
		v, w := exList[raml.UnionExample]("union")
		return typedMap[raml.UnionExample, raml.UnionExampleMapEntry, raml.UnionExampleMap]("UnionExampleMap", raml.NewUnionExampleMap, func(e raml.UnionExampleMapEntry) (string, raml.UnionExample) { return e.Key, e.Val }, raml.UnionExampleMap.PutIfNotNil, v, w)
	},
}

func opsDesc(u mapUT, c int, ops []mop) string {
	var b strings.Builder
	fmt.Fprintf(&b, "New%s(%d)", u.name(), c)
	for _, o := range ops {
		switch o.op {
		case oMode:
			fmt.Fprintf(&b, ".SerializeOrdered(%v)", o.v == 1)
		case oSer:
			b.WriteString("; serialize; ")
		case oDel, oPinNil:
			fmt.Fprintf(&b, ".%s(%s)", opNames[o.op], u.keyDesc(o.k))
		default:
			fmt.Fprintf(&b, ".%s(%s, v%d)", opNames[o.op], u.keyDesc(o.k), o.v)
		}
	}
	return b.String()
}

var serialText bool // write text in every history

// runOps executes a history on the implementation and on the model; the
// history's observation is compared at the end, and its states are recorded.
func runOps(t *T, u mapUT, c int, ops []mop, serial bool) bool {
	full := len(ops)%5 == 0 || serialText
	u.fresh(c)
	m := mmodel{ordered: true}
	nk := 4
	for _, o := range ops {
		if o.k+2 > nk {
			nk = o.k + 2
		}
		if d := u.do(o); d != "" {
			t.Failf("%s\n%s", d, opsDesc(u, c, ops))
			return false
		}
		m.apply(o)
	}
	t.Trans(len(ops))
	d := ""
	if serial {
		d = u.serialized(&m, len(ops) < 3 || len(ops) > 3 && serial && full)
		if d == "" {
			d = u.observe(&m, nk)
		}
	} else {
		d = u.observe(&m, nk)
	}
	if d != "" {
		t.Failf("%s\nafter %s", d, opsDesc(u, c, ops))
		return false
	}
	t.Count("histories", 1)
	return true
}

func modelState(u mapUT, ops []mop) string {
	m := mmodel{ordered: true}
	for _, o := range ops {
		m.apply(o)
	}
	return fmt.Sprint(u.name(), m)
}

func shortOps(keys []int, vals int, ser bool) (out []mop) {
	for _, k := range keys {
		for v := 0; v < vals; v++ {
			for _, o := range []int{oPut, oPin, oRop, oRie} {
				out = append(out, mop{o, k, v})
			}
		}
		out = append(out, mop{oPinNil, k, 0}, mop{oDel, k, 0})
	}
	if ser {
		out = append(out, mop{oMode, 0, 0}, mop{oMode, 0, 1}, mop{oSer, 0, 0})
	}
	return
}

func mapCheck(serial bool) func(r *R) {
	return func(r *R) {
		for _, mk := range mapMakers {
			u := mk()
			nv := u.nVals()
			triples := [][]int{{0, 1, 2}, {3, 4, 5}, {6, 7, 8}}
			caps := []int{0, 1, 8}
			depth := 4
			if serial {
				depth = 3
				caps = []int{0}
			}
			if r.thorough() {
				depth++
				caps = append(caps, 2, 3, 16)
			}
			for ti, keys := range triples {
				if ti > 0 && !r.thorough() && !strings.Contains("StringMap UntypedMap AnyMap DataTypeMap", u.name()) {
					continue
				}
				ops := shortOps(keys, 2, serial)
				for ci, c := range caps {
					serialText = false
					dep := depth
					if ti > 0 || ci > 0 {
						dep = depth - 1
					}
					r.Case(func() string { return fmt.Sprintf("%s capacity %d, empty history", u.name(), c) }, func(t *T) {
						runOps(t, u, c, nil, serial)
					})
					for i := range ops {
						for j := range ops {
							pre := []mop{ops[i], ops[j]}
							r.Case(func() string {
								return fmt.Sprintf("all histories to length %d beginning with %s", dep, opsDesc(u, c, pre))
							}, func(t *T) {
								if j == 0 {
									runOps(t, u, c, pre[:1], serial)
								}
								var rec func(h []mop) bool
								rec = func(h []mop) bool {
									if !runOps(t, u, c, h, serial) {
										return false
									}
									if len(h) <= 3 {
										t.State(modelState(u, h))
									}
									if len(h) == dep {
										return true
									}
									for _, o := range ops {
										if !rec(append(h[:len(h):len(h)], o)) {
											return false
										}
									}
									return true
								}
								rec(pre)
							})
						}
					}
				}
			}
			serialText = true
			// every value at every step kind, and pairs of values
			for v := 0; v < nv; v++ {
				for _, mode := range []int{1, 0} {
					r.Case(func() string { return fmt.Sprintf("%s value %d (%s) in every step", u.name(), v, u.valDesc(v)) }, func(t *T) {
						w := (v + 1) % nv
						for _, h := range [][]mop{
							{{oPut, 0, v}}, {{oPin, 0, v}}, {{oRop, 0, v}}, {{oPut, 0, w}, {oRie, 0, v}}, {{oPut, 0, w}, {oRop, 0, v}}, {{oPut, 0, v}, {oPut, 0, w}}, {{oPut, 0, v}, {oPin, 0, w}}, {{oPut, 0, v}, {oPinNil, 0, v}},
							{{oPut, 0, v}, {oPut, 1, w}, {oPut, 2, v}}, {{oPut, 0, v}, {oPut, 1, w}, {oDel, 0, 0}}, {{oPut, 0, w}, {oPut, 1, v}, {oDel, 0, 0}}, {{oPut, 0, v}, {oPut, 1, v}, {oPut, 0, w}, {oSer, 0, 0}, {oRie, 1, w}},
						} {
							hh := append([]mop{{oMode, 0, mode}}, h...)
							if !runOps(t, u, 0, hh, serial) {
								return
							}
							t.State(modelState(u, hh))
						}
					})
				}
			}
			// every key
			for k := 0; k < len(mapKeysAlpha)+8 && k < u.nKeys(); k++ {
				r.Case(func() string { return fmt.Sprintf("%s key %s", u.name(), u.keyDesc(k)) }, func(t *T) {
					for _, mode := range []int{1, 0} {
						for _, o := range []int{oPut, oPin, oRop} {
							h := []mop{{oMode, 0, mode}, {oPut, (k + 1) % u.nKeys(), 1}, {o, k, 0}, {oRie, k, 1}, {oPut, (k + 2) % u.nKeys(), 0}, {oSer, 0, 0}, {oDel, k, 0}, {o, k, 1}}
							for n := 1; n <= len(h); n++ {
								if !runOps(t, u, k%4, h[:n], serial) {
									return
								}
								t.State(modelState(u, h[:n]))
							}
						}
					}
				})
			}
			serialText = false
			// larger maps: every operation at every position
			sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66, 100, 127, 128, 129, 256, 260}
			for _, n := range sizes {
				for variant := 0; variant < 3; variant++ {
					if variant > 0 && n > 40 && !r.thorough() {
						continue
					}
					c := []int{0, n, n / 2}[variant]
					var build []mop
					if serial {
						build = append(build, mop{oMode, 0, variant % 2})
					}
					for i := 0; i < n; i++ {
						k := i
						if variant == 1 {
							k = n - 1 - i
						}
						o := oPut
						if variant == 2 {
							k = (i*7 + 3) % n
							if n%7 == 0 {
								k = i
							}
							o = []int{oPut, oRop, oPin}[i%3]
						}
						build = append(build, mop{o, k, i % min(nv, 3)})
					}
					step := 1
					if serial && n > 10 {
						step = n/5 + 1
					}
					for p := 0; p < n+2; p += step {
						r.Case(func() string {
							return fmt.Sprintf("%s with %d entries (variant %d): operations on key %d", u.name(), n, variant, p)
						}, func(t *T) {
							for _, o := range []int{oPut, oPin, oPinNil, oRop, oRie, oDel} {
								h := append(build[:len(build):len(build)], mop{o, p, 1 % nv})
								if !runOps(t, u, c, h, serial) {
									return
								}
								t.State(modelState(u, h))
								if (n > 20 && p%5 != 0) || (serial && n > 9) {
									continue
								}
								for _, q := range []int{0, p, n / 2, n - 1, n} {
									for _, o2 := range []int{oPut, oDel, oRop} {
										h2 := append(h[:len(h):len(h)], mop{o2, q, 0})
										if !runOps(t, u, c, h2, serial) {
											return
										}
									}
								}
							}
						})
					}
					// drain in several orders, observing at every step, then refill
					for order := 0; order < 4; order++ {
						r.Case(func() string {
							return fmt.Sprintf("%s with %d entries (variant %d): drain in order %d and refill", u.name(), n, variant, order)
						}, func(t *T) {
							h := build[:len(build):len(build)]
							for i := 0; i < n; i++ {
								k := i
								switch order {
								case 1:
									k = n - 1 - i
								case 2:
									k = i / 2
									if i%2 == 1 {
										k = n - 1 - i/2
									}
								case 3:
									k = (i + n/2) % n
								}
								h = append(h, mop{oDel, k, 0})
								if (n <= 34 && !serial) || n < 10 || (i%16 == 0 && !serial) || i >= n-1 {
									if !runOps(t, u, c, h, serial) {
										return
									}
								}
							}
							for i := 0; i < n; i++ {
								h = append(h, mop{[]int{oPut, oRop, oPin}[(i+order)%3], (i * 3) % n, 1 % nv})
								if (n <= 34 && !serial) || n < 10 || (i%16 == 0 && !serial) || i >= n-1 {
									if !runOps(t, u, c, h, serial) {
										return
									}
								}
							}
							t.State(modelState(u, h))
						})
					}
				}
			}
		}
		if serial {
			for _, mode := range []bool{true, false} {
				for n := 0; n < 4; n++ {
					r.Case(func() string {
						return fmt.Sprintf("value that refuses to be serialized at position %d, ordered %v", n, mode)
					}, func(t *T) {
						u := raml.NewUntypedMap(0).SerializeOrdered(mode)
						a := raml.NewAnyMap(0).SerializeOrdered(mode)
						for i := 0; i < 4; i++ {
							var v interface{} = "x"
							if i == n {
								v = badValue{}
							}
							u.Put(fmt.Sprint(i), v)
							a.Put(i, v)
						}
						for _, m := range []interface {
							ToYAML() (*yaml.Node, error)
							MarshalYAML() (interface{}, error)
							MarshalJSON() ([]byte, error)
						}{u, a} {
							if _, err := m.ToYAML(); err == nil {
								t.Failf("%T: ToYAML gave no error", m)
							}
							if _, err := m.MarshalYAML(); err == nil {
								t.Failf("%T: MarshalYAML gave no error", m)
							}
							if _, err := m.MarshalJSON(); err == nil {
								t.Failf("%T: MarshalJSON gave no error", m)
							}
							t.Trans(3)
						}
						t.State(fmt.Sprint("bad", mode, n))
					})
				}
			}
		}
	}
}

func init() {
	rule := "histories are method-call sequences on a fresh map, executed in lock step with a list-of-pairs model; every history of the stated length over 3 keys and 2 values is executed, then single operations (and pairs) at every position of larger maps; states are distinct (type, content, mode) model states, recorded for histories of up to three calls and for the larger maps; transitions are map method calls"
	assume := []string{"map operations are deterministic, so a prefix behaves the same in every history that extends it", "mutating a map from inside its own ForEach is outside the property"}
	reg(&checkDef{id: "C01", level: "model_checking", fn: mapCheck(false), rule: rule, assume: assume, stateIs: "map type, entries in order, serialization mode"})
	reg(&checkDef{id: "C02", level: "model_checking", fn: mapCheck(true), rule: rule, assume: append(assume, "the YAML and JSON readers used on the output are correct"), stateIs: "map type, entries in order, serialization mode"})
}
