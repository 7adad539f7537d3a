package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"sync"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// Snapshots: what can be observed of library elements through their public
// accessors, as trees.

// exactNode has everything there is about a node of a parsed document: not
// only its value but also how it is written.
func exactNode(n *yaml.Node) *Val {
	if n == nil {
		return vNull()
	}
	out := vM(kv("kind", vI(int64(n.Kind))), kv("style", vI(int64(n.Style))), kv("tag", vS(n.Tag)), kv("value", vS(n.Value)), kv("anchor", vS(n.Anchor)),
		kv("comments", vSL(n.HeadComment, n.LineComment, n.FootComment)), kv("position", vL(vI(int64(n.Line)), vI(int64(n.Column)))))
	l := vL()
	for _, c := range n.Content {
		l.L = append(l.L, exactNode(c))
	}
	return vM(kv("node", out), kv("content", l))
}

// snapExact is snap with every node exactly as it is.
func snapExact(x interface{}) *Val { return snapper{exactNode}.snap(x) }

// snapper takes snapshots, with nodes of untyped values by way of node.
type snapper struct{ node func(*yaml.Node) *Val }

var byValue = snapper{nodeVal}

func snap(x interface{}) *Val { return byValue.snap(x) }

func snapR(v reflect.Value) *Val { return byValue.snapR(v) }

func snapOrderedMap(v reflect.Value) *Val { return byValue.snapOrderedMap(v) }

func snapRoot(d *RootDef, x interface{}) *Val { return byValue.snapRoot(d, x) }

type stringer interface{ String() string }

func mapSnap[V any](q snapper, l int, each func(func(string, V)), at func(int) (string, V)) *Val {
	out := vM()
	each(func(k string, v V) { out.M = append(out.M, KV{K: vS(k), V: q.snap(v)}) })
	if len(out.M) != l {
		panic(fmt.Sprintf("inconsistent map: Len is %d, iteration yields %d entries", l, len(out.M)))
	}
	for i := 0; i < l; i++ {
		if k, _ := at(i); k != out.M[i].K.S {
			panic(fmt.Sprintf("inconsistent map: At(%d) has key %q, iteration has %q", i, k, out.M[i].K.S))
		}
	}
	return out
}

// snapOrderedMap handles any of the ordered map types by reflection.
func (q snapper) snapOrderedMap(v reflect.Value) *Val {
	out := vM()
	fe := v.MethodByName("ForEach")
	ft := fe.Type().In(0)
	fe.Call([]reflect.Value{reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		out.M = append(out.M, KV{K: q.snap(a[0].Interface()), V: q.snapR(a[1])})
		return nil
	})})
	return out
}

func (q snapper) snapR(v reflect.Value) *Val {
	if v.Kind() == reflect.Interface && v.IsNil() {
		return vNull()
	}
	return q.snap(v.Interface())
}

func (q snapper) snap(x interface{}) *Val {
	switch v := x.(type) {
	case nil:
		return vNull()
	case *Val:
		return v
	case string:
		return vS(v)
	case bool:
		return vB(v)
	case int:
		return vI(int64(v))
	case int64:
		return vI(v)
	case uint:
		return &Val{K: KInt, S: strconv.FormatUint(uint64(v), 10)}
	case float64:
		return vF(v)
	case *yaml.Node:
		if v == nil {
			return vNull()
		}
		return q.node(v)
	case yaml.Node:
		return q.node(&v)
	case raml.StringMap:
		return mapSnap(q, v.Len(), func(f func(string, string)) { v.ForEach(f) }, func(i int) (string, string) { e := v.At(i); return e.Key, e.Val })
	case raml.UntypedMap:
		return mapSnap(q, v.Len(), func(f func(string, interface{})) { v.ForEach(f) }, func(i int) (string, interface{}) { e := v.At(i); return e.Key, e.Val })
	case raml.DataTypeMap:
		return mapSnap(q, v.Len(), func(f func(string, raml.DataType)) { v.ForEach(f) }, func(i int) (string, raml.DataType) { e := v.At(i); return e.Key, e.Val })
	case raml.DataType:
		return q.snapDecl(v)
	case raml.Documentation:
		return q.getters(x, []string{"Title", "Content", "ExtraFacets"})
	case raml.APISpec:
		return q.snapRoot(rootAPI, x)
	case raml.Library:
		return q.snapRoot(rootLib, x)
	case raml.XML:
		return q.getters(x, []string{"IsAttribute", "IsWrapped", "Name", "Namespace", "Prefix"})
	case raml.Example:
		return q.getters(x, []string{"DisplayName", "Description", "Annotations", "Strict", "Value", "ExtraFacets"})
	}
	rv := reflect.ValueOf(x)
	t := rv.Type()
	if _, ok := t.MethodByName("IsPresent"); ok { // option
		if rv.MethodByName("IsNil").Call(nil)[0].Bool() {
			if rv.MethodByName("IsPresent").Call(nil)[0].Bool() {
				panic("option is both nil and present")
			}
			return vNone()
		}
		return q.snapR(rv.MethodByName("Get").Call(nil)[0])
	}
	if _, ok := t.MethodByName("ForEach"); ok {
		return q.snapOrderedMap(rv)
	}
	if s, ok := x.(stringer); ok { // formats
		if rv.Kind() == reflect.Ptr && rv.IsNil() {
			return vNull()
		}
		return vS(s.String())
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			return vNull()
		}
		return q.snapR(rv.Elem())
	case reflect.Slice, reflect.Array:
		out := vL()
		for i := 0; i < rv.Len(); i++ {
			out.L = append(out.L, q.snapR(rv.Index(i)))
		}
		return out
	case reflect.Map:
		out := &Val{K: KMap, U: true}
		for _, k := range rv.MapKeys() {
			out.M = append(out.M, KV{K: q.snapR(k), V: q.snapR(rv.MapIndex(k))})
		}
		sort.Slice(out.M, func(i, j int) bool { return out.M[i].K.String() < out.M[j].K.String() })
		return out
	case reflect.String:
		return vS(rv.String())
	case reflect.Bool:
		return vB(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vI(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Val{K: KInt, S: strconv.FormatUint(rv.Uint(), 10)}
	case reflect.Float32, reflect.Float64:
		return vF(rv.Float())
	}
	panic(fmt.Sprintf("cannot observe a value of type %T", x))
}

type mkey struct {
	t reflect.Type
	n string
}

var mcache sync.Map

// method finds a method by name, by way of a cache.
func method(v reflect.Value, name string) reflect.Value {
	k := mkey{v.Type(), name}
	if i, ok := mcache.Load(k); ok {
		return v.Method(i.(int))
	}
	m, ok := v.Type().MethodByName(name)
	if !ok {
		panic(fmt.Sprintf("%s has no method %s", v.Type(), name))
	}
	mcache.Store(k, m.Index)
	return v.Method(m.Index)
}

func (q snapper) getters(x interface{}, names []string) *Val {
	rv := reflect.ValueOf(x)
	if rv.Kind() == reflect.Ptr && rv.IsNil() {
		return vNull()
	}
	out := vM()
	for _, n := range names {
		out.M = append(out.M, kv(n, q.snapR(method(rv, n).Call(nil)[0])))
	}
	return out
}

func declGetters(k *KDef) []string {
	out := []string{"Type", "Schema"}
	for _, f := range k.facets {
		out = append(out, f.Getter)
	}
	if k.ext {
		out = append(out, "Annotations")
	} else {
		out = append(out, "Required")
	}
	return append(out, "ExtraFacets")
}

func (q snapper) snapDecl(d raml.DataType) *Val {
	rv := reflect.ValueOf(d)
	if rv.Kind() == reflect.Ptr && rv.IsNil() {
		return vNull()
	}
	kind := string(d.Kind())
	k := kinds[kind]
	if k == nil {
		panic("element reports the unknown kind " + kind)
	}
	if !ifaceOK(d, kind) {
		panic(fmt.Sprintf("element of kind %s has the wrong type %T", kind, d))
	}
	out := q.getters(d, declGetters(k))
	out.M = append([]KV{kv("Kind", vS(kind))}, out.M...)
	return out
}

func ifaceOK(d raml.DataType, kind string) bool {
	ok := false
	switch kind {
	case "any":
		_, ok = d.(raml.AnyType)
	case "array":
		_, ok = d.(raml.ArrayType)
	case "boolean":
		_, ok = d.(raml.BoolType)
	case "custom":
		_, ok = d.(raml.CustomType)
	case "date-only":
		_, ok = d.(raml.DateOnlyType)
	case "datetime-only":
		_, ok = d.(raml.DatetimeOnlyType)
	case "datetime":
		_, ok = d.(raml.DatetimeType)
	case "file":
		_, ok = d.(raml.FileType)
	case "include":
		_, ok = d.(raml.IncludeType)
	case "integer":
		_, ok = d.(raml.IntegerType)
	case "nil":
		_, ok = d.(raml.NilType)
	case "number":
		_, ok = d.(raml.NumberType)
	case "object":
		_, ok = d.(raml.ObjectType)
	case "string":
		_, ok = d.(raml.StringType)
	case "time-only":
		_, ok = d.(raml.TimeOnlyType)
	case "union":
		_, ok = d.(raml.UnionType)
	}
	return ok
}

func rootGetters(d *RootDef) []string {
	var out []string
	for _, f := range d.facets {
		out = append(out, f.Getter)
	}
	out = append(out, "Schemas", "Annotations")
	if d.res {
		out = append(out, "Resources")
	}
	return append(out, "ExtraFacets")
}

func (q snapper) snapRoot(d *RootDef, x interface{}) *Val { return q.getters(x, rootGetters(d)) }
