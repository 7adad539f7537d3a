package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Val is the canonical tree every observation and every expectation is
// expressed in: YAML trees, snapshots of library elements, and the states of
// the reference model.
type VK byte

const (
	KNone  VK = iota // an absent option
	KNull            // null, or a nil element
	KStr             // text
	KInt             // integer, S is decimal
	KFloat           // float, S is the shortest decimal form
	KBool            // S is true or false
	KTS              // unquoted timestamp, S is its text
	KTag             // scalar with another tag; S is "tag text"
	KNum             // expected only: any int or float of this numeric value
	KList
	KMap
)

type KV struct {
	K, V *Val
	Opt  bool // expected only: the entry may be missing
}

type Val struct {
	K   VK
	S   string // text of a scalar; tag of a collection that is not plain
	L   []*Val
	M   []KV
	U   bool // expected only: entry order is irrelevant
	No  bool // expected only: a collection that was not given, so that nothing may be written for it
	Alt *Val // expected only: an accepted alternative
}

func vNone() *Val         { return &Val{K: KNone} }
func vNull() *Val         { return &Val{K: KNull} }
func vS(s string) *Val    { return &Val{K: KStr, S: s} }
func vI(i int64) *Val     { return &Val{K: KInt, S: strconv.FormatInt(i, 10)} }
func vB(b bool) *Val      { return &Val{K: KBool, S: strconv.FormatBool(b)} }
func vF(f float64) *Val   { return &Val{K: KFloat, S: fmtFloat(f)} }
func vNum(f float64) *Val { return &Val{K: KNum, S: fmtFloat(f)} }
func vTS(s string) *Val   { return &Val{K: KTS, S: s} }
func vTag(t, s string) *Val {
	return &Val{K: KTag, S: t + " " + s}
}
func vInc(s string) *Val     { return vTag("!include", s) }
func vL(l ...*Val) *Val      { return &Val{K: KList, L: l} }
func vM(kv ...KV) *Val       { return &Val{K: KMap, M: kv} }
func kv(k string, v *Val) KV { return KV{K: vS(k), V: v} }
func kvo(k string, v *Val) KV {
	return KV{K: vS(k), V: v, Opt: true}
}
func vSL(ss ...string) *Val {
	out := vL()
	for _, s := range ss {
		out.L = append(out.L, vS(s))
	}
	return out
}

func fmtFloat(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// get returns the value of a text key of a map, or nil.
func (v *Val) get(k string) *Val {
	for i := range v.M {
		if v.M[i].K.K == KStr && v.M[i].K.S == k {
			return v.M[i].V
		}
	}
	return nil
}

// with returns a copy of the map with the key set: in place or appended.
func (v *Val) with(k string, x *Val) *Val {
	out := *v
	out.M = append([]KV(nil), v.M...)
	for i := range out.M {
		if out.M[i].K.K == KStr && out.M[i].K.S == k {
			out.M[i].V = x
			return &out
		}
	}
	out.M = append(out.M, kv(k, x))
	return &out
}

func (v *Val) without(k string) *Val {
	out := *v
	out.M = nil
	for i := range v.M {
		if !(v.M[i].K.K == KStr && v.M[i].K.S == k) {
			out.M = append(out.M, v.M[i])
		}
	}
	return &out
}

// add returns a copy of the map with entries appended.
func (v *Val) add(kvs ...KV) *Val {
	out := *v
	out.M = append(append([]KV(nil), v.M...), kvs...)
	return &out
}

func (v *Val) String() string {
	var b strings.Builder
	v.str(&b)
	return b.String()
}

func (v *Val) str(b *strings.Builder) {
	if v == nil {
		b.WriteString("<nothing>")
		return
	}
	switch v.K {
	case KNone:
		b.WriteString("none")
	case KNull:
		b.WriteString("null")
	case KStr:
		b.WriteString(strconv.Quote(v.S))
	case KInt, KBool:
		b.WriteString(v.S)
	case KFloat:
		b.WriteString(v.S + "f")
	case KNum:
		b.WriteString("~" + v.S)
	case KTS:
		b.WriteString("ts(" + v.S + ")")
	case KTag:
		b.WriteString("<" + v.S + ">")
	case KList:
		b.WriteString(v.S + "[")
		for i, x := range v.L {
			if i > 0 {
				b.WriteString(", ")
			}
			x.str(b)
		}
		b.WriteString("]")
	case KMap:
		b.WriteString(v.S + "{")
		for i, x := range v.M {
			if i > 0 {
				b.WriteString(", ")
			}
			if x.Opt {
				b.WriteString("?")
			}
			x.K.str(b)
			b.WriteString(": ")
			x.V.str(b)
		}
		b.WriteString("}")
	}
}

func numOf(v *Val) (*big.Rat, bool) {
	switch v.K {
	case KInt, KFloat, KNum:
		r, ok := new(big.Rat).SetString(v.S)
		return r, ok
	}
	return nil, false
}

func short(v *Val) string {
	s := v.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// diff compares an expectation with an observation and returns a description
// of the first difference, or "".  Keys starting with '~' in an expectation
// are model-internal and ignored.
func diff(exp, got *Val, path string) string {
	d := diff1(exp, got, path)
	if d != "" && exp != nil && exp.Alt != nil {
		if diff1(exp.Alt, got, path) == "" {
			return ""
		}
	}
	return d
}

func diff1(exp, got *Val, path string) string {
	if exp == nil || got == nil {
		if exp == got {
			return ""
		}
		return fmt.Sprintf("%s: expected %s, got %s", path, short(exp), short(got))
	}
	bad := func() string {
		return fmt.Sprintf("%s: expected %s, got %s", path, short(exp), short(got))
	}
	if exp.K == KNum {
		if got.K != KInt && got.K != KFloat && got.K != KNum {
			return bad()
		}
		if exp.S == got.S {
			return ""
		}
		a, ok1 := numOf(exp)
		b, ok2 := numOf(got)
		if !ok1 || !ok2 {
			return bad()
		}
		if a.Cmp(b) != 0 {
			// the model's value is a float64, so an integer may differ beyond its precision
			fa, _ := a.Float64()
			fb, _ := b.Float64()
			if fa != fb {
				return bad()
			}
		}
		return ""
	}
	if exp.K != got.K || exp.S != got.S {
		return bad()
	}
	switch exp.K {
	case KList:
		if len(exp.L) != len(got.L) {
			return fmt.Sprintf("%s: expected %d elements %s, got %d elements %s", path, len(exp.L), short(exp), len(got.L), short(got))
		}
		for i := range exp.L {
			if d := diff(exp.L[i], got.L[i], path+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
	case KMap:
		return diffMap(exp, got, path)
	}
	return ""
}

func diffMap(exp, got *Val, path string) string {
	if exp.U {
		used := make([]bool, len(got.M))
		for _, e := range exp.M {
			if isHidden(e.K) {
				continue
			}
			found := false
			for j, g := range got.M {
				if used[j] || diff(e.K, g.K, "") != "" {
					continue
				}
				found, used[j] = true, true
				if d := diff(e.V, g.V, path+"."+keyStr(e.K)); d != "" {
					return d
				}
				break
			}
			if !found && !e.Opt {
				return fmt.Sprintf("%s: missing entry %s (expected %s)", path, e.K, short(e.V))
			}
		}
		for j, g := range got.M {
			if !used[j] {
				return fmt.Sprintf("%s: unexpected entry %s: %s", path, g.K, short(g.V))
			}
		}
		return ""
	}
	i, j := 0, 0
	for ; i < len(exp.M); i++ {
		e := exp.M[i]
		if isHidden(e.K) {
			continue
		}
		if j >= len(got.M) {
			if e.Opt {
				continue
			}
			return fmt.Sprintf("%s: missing entry %s (expected %s, got %s)", path, e.K, short(exp), short(got))
		}
		if d := diff(e.K, got.M[j].K, path+".key"); d != "" {
			if e.Opt {
				continue
			}
			return fmt.Sprintf("%s: entry %d: expected key %s, got key %s", path, j, e.K, got.M[j].K)
		}
		if d := diff(e.V, got.M[j].V, path+"."+keyStr(e.K)); d != "" {
			return d
		}
		j++
	}
	if j < len(got.M) {
		return fmt.Sprintf("%s: unexpected entry %s: %s", path, got.M[j].K, short(got.M[j].V))
	}
	return ""
}

func isHidden(k *Val) bool { return k.K == KStr && strings.HasPrefix(k.S, "~~") }

func keyStr(k *Val) string {
	if k.K == KStr {
		return k.S
	}
	return k.String()
}

// plainTag reports the tag of a collection that is not the default one.
func collTag(n *yaml.Node, def string) string {
	if n.Tag == "" || n.Tag == "!" || n.Tag == def || n.LongTag() == "tag:yaml.org,2002:"+strings.TrimPrefix(def, "!!") {
		return ""
	}
	return n.ShortTag()
}

// nodeVal converts a YAML node to its content.
func nodeVal(n *yaml.Node) *Val {
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) != 1 {
			return vNull()
		}
		return nodeVal(n.Content[0])
	case yaml.AliasNode:
		return nodeVal(n.Alias)
	case yaml.SequenceNode:
		out := &Val{K: KList, S: collTag(n, "!!seq"), L: make([]*Val, len(n.Content))}
		for i, c := range n.Content {
			out.L[i] = nodeVal(c)
		}
		return out
	case yaml.MappingNode:
		out := &Val{K: KMap, S: collTag(n, "!!map"), M: make([]KV, 0, len(n.Content)/2)}
		for i := 0; i+1 < len(n.Content); i += 2 {
			out.M = append(out.M, KV{K: nodeVal(n.Content[i]), V: nodeVal(n.Content[i+1])})
		}
		return out
	case yaml.ScalarNode:
		switch t := n.ShortTag(); t {
		case "!!null":
			return vNull()
		case "!!bool":
			return vB(strings.EqualFold(n.Value, "true"))
		case "!!int":
			s := strings.Replace(n.Value, "_", "", -1)
			if i, ok := new(big.Int).SetString(s, 0); ok {
				return &Val{K: KInt, S: i.String()}
			}
			return &Val{K: KInt, S: s}
		case "!!float":
			if f, err := strconv.ParseFloat(strings.Replace(n.Value, "_", "", -1), 64); err == nil {
				return vF(f)
			}
			return &Val{K: KFloat, S: n.Value}
		case "!!str", "!":
			return vS(n.Value)
		case "!!timestamp":
			return vTS(n.Value)
		default:
			return vTag(t, n.Value)
		}
	}
	return vTag("badnode", fmt.Sprint(n.Kind))
}

// readYAML parses text with the plain YAML reader; there must be exactly one
// document.
func readYAML(text []byte) (*Val, error) {
	dec := yaml.NewDecoder(strings.NewReader(string(text)))
	var n yaml.Node
	if err := dec.Decode(&n); err != nil {
		return nil, err
	}
	var m yaml.Node
	if err := dec.Decode(&m); err == nil {
		return nil, fmt.Errorf("more than one YAML document in the output")
	}
	return nodeVal(&n), nil
}

// depth returns the nesting depth of a tree.
func (v *Val) depth() int {
	d := 0
	for _, x := range v.L {
		if e := x.depth(); e > d {
			d = e
		}
	}
	for _, x := range v.M {
		if e := x.V.depth(); e > d {
			d = e
		}
	}
	return d + 1
}
