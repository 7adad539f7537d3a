package main

import (
	"fmt"
	"strings"
)

// Enumerations of document trees shared by several checks.

type slot struct {
	key  *Val
	full func() []*Val
	rep  func() []*Val
}

func memo(f func() []*Val) func() []*Val {
	var c []*Val
	return func() []*Val {
		if c == nil {
			c = f()
		}
		return c
	}
}

var slotCache = map[string][]slot{}

func annFull() []*Val { return tAnnVal.full() }

func oddExtraKeys() []*Val {
	return []*Val{vI(5), vI(-1), vB(true), vF(1.5), vNull(), vS(""), vS("5"), vS("true"), vS("a b"), vS("k: v"), vS("#"), vS("\u00e9"), vS("x-vendor"), vS(" "), vS("Type"), vS("<<x")}
}

// declSlots are the places of a declaration of a kind that can be filled.
func declSlots(kind string) []slot {
	if s, ok := slotCache[kind]; ok {
		return s
	}
	k := kinds[kind]
	var out []slot
	for _, f := range k.facets {
		out = append(out, slot{vS(f.Key), memo(f.T.full), memo(f.T.rep)})
	}
	raw, rawRep := memo(aRaw), memo(aRawRep)
	if k.ext {
		out = append(out, slot{vS("(ann)"), memo(annFull), memo(tAnnVal.rep)}, slot{vS("(Z.other)"), memo(tAnnVal.rep), memo(tAnnVal.rep)})
	} else {
		out = append(out, slot{vS("(ann)"), raw, rawRep}, slot{vS("required"), func() []*Val { return []*Val{vB(false), vB(true)} }, func() []*Val { return []*Val{vB(false)} }})
	}
	out = append(out, slot{vS("custom-facet"), raw, rawRep}, slot{vS("Aextra"), rawRep, rawRep})
	// facets of other kinds are extra facets here
	for _, f := range []string{"properties", "items", "pattern", "minItems", "fileTypes", "minimum", "discriminator", "format", "maxLength", "value", "strict", "title", "usage"} {
		if _, known := k.byKey[f]; known {
			continue
		}
		if (f == "properties" || f == "items") && !hasTypeExpr(kind) {
			continue
		}
		out = append(out, slot{vS(f), rawRep, func() []*Val { return []*Val{vS("foreign")} }})
	}
	for _, o := range oddExtraKeys() {
		if o.K == KBool || o.K == KNull || o.K == KFloat || o.K == KInt || o.K == KStr {
			out = append(out, slot{o, func() []*Val { return []*Val{vS("odd")} }, nil})
		}
	}
	slotCache[kind] = out
	return out
}

func hasTypeExpr(string) bool { return true }

func kindExpr(kind string) *Val {
	switch kind {
	case "custom":
		return vS("Custom")
	case "union":
		return vS("A | B")
	case "include":
		return vInc("t.raml")
	}
	return vS(kind)
}

// wraps embed a declaration tree into a document.
type wrap struct {
	name string
	d    *RootDef
	f    func(decl *Val) *Val
}

func wTypes(decl *Val) *Val { return vM(kv("title", vS("t")), kv("types", vM(kv("T", decl)))) }

var wraps = []wrap{
	{"api types", rootAPIref(), wTypes},
	{"library types", nil, func(d *Val) *Val { return vM(kv("types", vM(kv("T", d)))) }},
	{"property", rootAPIref(), func(d *Val) *Val {
		return wTypes(vM(kv("properties", vM(kv("before", vS("string")), kv("p", d), kv("after", vS("nil"))))))
	}},
	{"item", nil, func(d *Val) *Val { return vM(kv("types", vM(kv("T", vM(kv("type", vS("array")), kv("items", d)))))) }},
	{"facet definition", rootAPIref(), func(d *Val) *Val {
		return wTypes(vM(kv("type", vS("string")), kv("facets", vM(kv("f", vM(kv("inner", d), kv("other", vS("Custom"))))))))
	}},
	{"nested", rootAPIref(), func(d *Val) *Val {
		return wTypes(vM(kv("type", vS("object")), kv("properties", vM(kv("l1", vM(kv("items", vM(kv("properties", vM(kv("l3", d), kv("l3b", vS("A|B")))))), kv("minItems", vI(2)))), kv("z", vS("file"))))))
	}},
	{"schemas", nil, func(d *Val) *Val { return vM(kv("schemas", vM(kv("B", vS("string")), kv("A", d)))) }},
	{"example sibling", rootAPIref(), func(d *Val) *Val {
		return vM(kv("types", vM(kv("X", vM(kv("type", vS("object")), kv("example", vM(kv("a", vI(1)))))), kv("T", d), kv("Y", vM(kv("enum", vL(vS("a"))))))), kv("title", vS("last")))
	}},
}

// rootAPI is set up in init, after package variables: nil stands for the
// library, this marker for the API.
func rootAPIref() *RootDef { return &RootDef{name: "api?"} }

func (w wrap) def() *RootDef {
	if w.d == nil {
		return rootLib
	}
	return rootAPI
}

type docCase struct {
	d    *RootDef
	tree *Val
	st   style
	hdr  bool // with the first-line header
	what string
}

func (c docCase) text() string {
	h := ""
	if c.hdr {
		h = c.d.header
	}
	return render(h, c.tree, c.st)
}

func (c docCase) desc() string {
	return fmt.Sprintf("%s [%s]\n%s", c.what, c.d.name, c.text())
}

var stDefault = style{}
var styles = []style{{}, {flow: true}, {quote: 'd'}, {quote: 's'}, {quote: 'l'}, {indent: 4}}

// declDocs enumerates declarations in documents.
func declDocs(thorough bool, emit func(docCase)) {
	put := func(w wrap, decl *Val, st style, what string) {
		emit(docCase{w.def(), w.f(decl), st, true, what + " as " + w.name})
	}
	withType := func(kind string, pos int, kvs ...KV) *Val {
		out := vM()
		for i, x := range kvs {
			if i == pos {
				out.M = append(out.M, kv("type", kindExpr(kind)))
			}
			out.M = append(out.M, x)
		}
		if pos >= len(kvs) {
			out.M = append(out.M, kv("type", kindExpr(kind)))
		}
		return out
	}
	// every expression and small declaration everywhere
	for _, w := range wraps {
		for _, d := range aDecl() {
			put(w, d, stDefault, "declaration")
		}
	}
	// singles: every facet with every value
	for _, kind := range kindNames {
		for _, s := range declSlots(kind) {
			full := s.full()
			for vi, v := range full {
				put(wraps[0], withType(kind, vi%2, KV{K: s.key, V: v}), stDefault, kind+" single")
				// the other places get a share of the alphabet each, and all of it when thorough
				for wi, w := range wraps[1:] {
					if thorough || (vi+wi)%9 == 0 || len(full) < 9 {
						put(w, withType(kind, vi%2, KV{K: s.key, V: v}), styles[(vi+wi)%len(styles)], kind+" single")
					}
				}
				if (v.K == KStr || v.K == KList || v.K == KMap) && (thorough || vi%5 == 0) {
					for _, st := range styles[1:] {
						put(wraps[0], withType(kind, 1, KV{K: s.key, V: v}), st, kind+" styled single")
					}
				}
			}
		}
		// kinds that need no type facet
		if kind == "string" || kind == "object" || kind == "array" {
			for _, s := range declSlots(kind) {
				key := keyStr(s.key)
				if (key == "properties" && kind != "object") || (key == "items" && kind == "string") {
					continue // implies another kind
				}
				for vi, v := range s.full() {
					if vi > 12 && !thorough {
						break
					}
					kvs := []KV{{K: s.key, V: v}}
					if kind == "object" && key != "properties" {
						kvs = append(kvs, kv("properties", vM(kv("q", vS("Custom")))))
					}
					if kind == "array" && key != "items" {
						kvs = append(kvs, kv("items", vS("string")))
					}
					put(wraps[vi%len(wraps)], vM(kvs...), stDefault, kind+" implied")
					if len(kvs) > 1 {
						put(wraps[vi%len(wraps)], vM(kvs[1], kvs[0]), stDefault, kind+" implied")
					}
				}
			}
		}
	}
	// the same and neighbouring values in two facets
	for _, kind := range kindNames {
		n := 0
		relatedSlots(declSlots(kind), func(a, b KV) {
			if keyText(a.K).S == keyText(b.K).S {
				return
			}
			n++
			put(wraps[n%len(wraps)], withType(kind, n%3, a, b), stDefault, kind+" related")
		})
	}
	// ordered pairs of facets over representative values
	for _, kind := range kindNames {
		sl := declSlots(kind)
		n := 0
		for i, a := range sl {
			for j, b := range sl {
				if i == j || a.rep == nil || b.rep == nil {
					continue
				}
				for ai, av := range a.rep() {
					for bi, bv := range b.rep() {
						if !thorough && ai > 1 && bi > 1 {
							continue
						}
						n++
						put(wraps[n%len(wraps)], withType(kind, n%3, KV{K: a.key, V: av}, KV{K: b.key, V: bv}), styles[n%2], kind+" pair")
					}
				}
			}
		}
	}
	// triples
	for _, kind := range kindNames {
		sl := declSlots(kind)
		n := 0
		for i := range sl {
			for j := range sl {
				for k := range sl {
					if i == j || j == k || i == k || sl[i].rep == nil || sl[j].rep == nil || sl[k].rep == nil {
						continue
					}
					if !thorough && !(i < j && j < k) && !(i > j && j > k) {
						continue
					}
					n++
					p := func(s slot, x int) KV { r := s.rep(); return KV{K: s.key, V: r[x%len(r)]} }
					put(wraps[n%len(wraps)], withType(kind, n%4, p(sl[i], n), p(sl[j], n/2), p(sl[k], n/3)), stDefault, kind+" triple")
				}
			}
		}
	}
	// all facets at once, in all rotations and reversed, and each one left out
	for _, kind := range kindNames {
		sl := declSlots(kind)
		for variant := 0; variant < 3; variant++ {
			var all []KV
			for i, s := range sl {
				if s.rep == nil {
					if variant == 2 {
						all = addKV(all, s.key, s.full()[0])
					}
					continue
				}
				r := s.rep()
				all = addKV(all, s.key, r[(variant+i)%len(r)])
			}
			for rot := range all {
				o := append(append([]KV{}, all[rot:]...), all[:rot]...)
				put(wraps[rot%len(wraps)], withType(kind, (rot*5)%(len(o)+1), o...), stDefault, kind+" full")
				rev := make([]KV, len(o))
				for i := range o {
					rev[len(o)-1-i] = o[i]
				}
				put(wraps[(rot+1)%len(wraps)], withType(kind, (rot*3)%(len(o)+1), rev...), styles[rot%len(styles)], kind+" full reversed")
				put(wraps[(rot+2)%len(wraps)], withType(kind, rot%len(o), o[1:]...), stDefault, kind+" full but one")
			}
		}
	}
	// nesting depth
	for depth := 1; depth <= 24; depth++ {
		for variant := 0; variant < 4; variant++ {
			d := vM(kv("type", vS("integer")), kv("maximum", vI(int64(depth))))
			for i := 0; i < depth; i++ {
				switch (variant + i*variant) % 3 {
				case 0:
					d = vM(kv("properties", vM(kv("p", d), kv("o", vS("string")))), kv("description", vS(fmt.Sprint("level ", i))))
				case 1:
					d = vM(kv("type", vS("array")), kv("items", d))
				case 2:
					d = vM(kv("facets", vM(kv("f", vM(kv("g", d))))), kv("pattern", vS("x")))
				}
			}
			put(wraps[(depth+variant)%2], d, styles[variant%2], "nested to depth")
		}
	}
	// several types side by side: every ordered pair of kinds
	for _, k1 := range kindNames {
		for _, k2 := range kindNames {
			mk := func(k string, x int) *Val {
				sl := declSlots(k)
				out := vM(kv("type", kindExpr(k)))
				for i := 0; i < 4; i++ {
					s := sl[(x+i*3)%len(sl)]
					if s.rep != nil && out.get(keyStr(s.key)) == nil {
						out.M = append(out.M, KV{K: s.key, V: s.rep()[0]})
					}
				}
				return out
			}
			for _, d := range []*RootDef{rootAPI, rootLib} {
				emit(docCase{d, vM(kv("types", vM(kv("A", mk(k1, len(k2))), kv("B", kindExpr(k2)), kv("C", mk(k2, len(k1))), kv("D", kindExpr(k1)), kv("E", mk(k1, 3))))), stDefault, true, "neighbours " + k1 + " " + k2})
			}
		}
	}
}

// relatedSlots enumerates pairs of facets with the same value, and of numeric
// ones with values next to each other in the alphabet.
func relatedSlots(sl []slot, f func(a, b KV)) {
	for i, s := range sl {
		for _, o := range sl[i+1:] {
			at := map[string]int{}
			ov := o.full()
			for n, v := range ov {
				at[v.String()] = n
			}
			for _, v := range s.full() {
				m, ok := at[v.String()]
				if !ok {
					continue
				}
				x, y := KV{K: s.key, V: v}, KV{K: o.key, V: ov[m]}
				f(x, y)
				if v.K != KInt && v.K != KFloat {
					continue
				}
				f(y, x)
				if m+1 < len(ov) {
					f(x, KV{K: o.key, V: ov[m+1]})
				}
				if m > 0 {
					f(KV{K: o.key, V: ov[m-1]}, x)
				}
			}
		}
	}
}

// rootSlots are the places of a root document that can be filled.
func rootSlots(d *RootDef) []slot {
	if s, ok := slotCache["/"+d.name]; ok {
		return s
	}
	var out []slot
	for _, f := range d.facets {
		out = append(out, slot{vS(f.Key), memo(f.T.full), memo(f.T.rep)})
	}
	raw, rawRep := memo(aRaw), memo(aRawRep)
	out = append(out, slot{vS("(ann)"), memo(annFull), memo(tAnnVal.rep)}, slot{vS("(Z)"), memo(tAnnVal.rep), memo(tAnnVal.rep)})
	out = append(out, slot{vS("/users"), raw, rawRep}, slot{vS("/a/{b}"), rawRep, rawRep}, slot{vS("/"), rawRep, rawRep})
	out = append(out, slot{vS("x-extra"), raw, rawRep}, slot{vS("Aextra"), rawRep, rawRep})
	for _, f := range []string{"usage", "baseUri", "title", "protocols", "mediaType", "documentation", "securedBy", "version", "extends", "displayName", "type", "properties", "example", "Types", "schema"} {
		if _, known := d.byKey[f]; !known {
			out = append(out, slot{vS(f), rawRep, func() []*Val { return []*Val{vS("foreign")} }})
		}
	}
	for _, o := range oddExtraKeys() {
		out = append(out, slot{o, rawRep, nil})
	}
	slotCache["/"+d.name] = out
	return out
}

// rootDocs enumerates root documents.
func rootDocs(d *RootDef, thorough bool, emit func(docCase)) {
	put := func(tree *Val, st style, hdr bool, what string) {
		emit(docCase{d, tree, st, hdr, what})
	}
	put(vM(), stDefault, true, "empty")
	put(vM(), stDefault, false, "empty")
	sl := rootSlots(d)
	for _, s := range sl {
		for vi, v := range s.full() {
			put(vM(KV{K: s.key, V: v}), stDefault, vi%2 == 0, "single")
			if v.K == KStr || v.K == KList || v.K == KMap {
				for _, st := range styles[1:] {
					put(vM(KV{K: s.key, V: v}), st, vi%2 == 1, "styled single")
				}
			}
			if ks := keyStr(s.key); ks != "title" && (thorough || vi%3 == 0) {
				put(vM(kv("title", vS("T")), KV{K: s.key, V: v}, kv("zlast", vI(1))), stDefault, true, "single in context")
			}
		}
	}
	if sch := tTypes.full(); true {
		for vi, v := range sch {
			put(vM(kv("schemas", v)), styles[vi%len(styles)], true, "schemas")
		}
	}
	relatedSlots(sl, func(a, b KV) {
		if keyText(a.K).S != keyText(b.K).S {
			put(vM(a, b), stDefault, true, "related")
		}
	})
	n := 0
	for i, a := range sl {
		for j, b := range sl {
			if i == j {
				continue
			}
			ar, br := a.rep, b.rep
			if ar == nil {
				ar = a.full
			}
			if br == nil {
				br = b.full
			}
			if a.rep == nil && b.rep == nil && !thorough {
				continue
			}
			for _, av := range ar() {
				for _, bv := range br() {
					if keyText(a.key).S == keyText(b.key).S {
						continue
					}
					n++
					put(vM(KV{K: a.key, V: av}, KV{K: b.key, V: bv}), styles[n%2], n%5 != 0, "pair")
				}
			}
		}
	}
	for i := range sl {
		for j := range sl {
			for k := range sl {
				if i == j || j == k || i == k || sl[i].rep == nil || sl[j].rep == nil || sl[k].rep == nil {
					continue
				}
				if !thorough && !(i < j && j < k) && !(i > j && j > k) && !(j < i && i < k) {
					continue
				}
				n++
				p := func(s slot, x int) KV { r := s.rep(); return KV{K: s.key, V: r[x%len(r)]} }
				put(vM(p(sl[i], n), p(sl[j], n/2), p(sl[k], n/3)), stDefault, true, "triple")
			}
		}
	}
	for variant := 0; variant < 3; variant++ {
		var all []KV
		for i, s := range sl {
			r := s.rep
			if r == nil {
				if variant != 2 {
					continue
				}
				r = s.full
			}
			x := r()
			all = addKV(all, s.key, x[(variant+i)%len(x)])
		}
		for rot := range all {
			o := append(append([]KV{}, all[rot:]...), all[:rot]...)
			put(vM(o...), stDefault, true, "full")
			rev := make([]KV, len(o))
			for i := range o {
				rev[len(o)-1-i] = o[i]
			}
			put(vM(rev...), styles[rot%len(styles)], true, "full reversed")
			put(vM(o[1:]...), stDefault, true, "full but one")
			put(vM(o[:len(o)/2]...), stDefault, true, "half")
		}
	}
	// many entries of the open-ended kinds
	for _, size := range []int{2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 129} {
		for _, pfx := range []string{"(", "/", "x"} {
			m := vM()
			for i := 0; i < size; i++ {
				key := fmt.Sprintf("%sk%03d", pfx, (i*67+5)%131)
				var v *Val = vM(kv("n", vI(int64(i))))
				if pfx == "(" {
					key += ")"
				}
				m.M = append(m.M, kv(key, v))
			}
			put(m, stDefault, true, "many "+pfx)
			m2 := vM(kv("types", vM(kv("T", vS("string"))))).add(m.M...).add(kv("uses", vM(kv("l", vS("l.raml")))))
			put(m2, stDefault, true, "many "+pfx+" in context")
		}
	}
}

func isPlainOut(v *Val, path string) string {
	switch v.K {
	case KMap:
		if v.S != "" {
			return path + ": mapping with tag " + v.S
		}
		for _, x := range v.M {
			if d := isPlainOut(x.K, path+".key"); d != "" {
				return d
			}
			if d := isPlainOut(x.V, path+"."+keyStr(x.K)); d != "" {
				return d
			}
		}
	case KList:
		if v.S != "" {
			return path + ": list with tag " + v.S
		}
		for i, x := range v.L {
			if d := isPlainOut(x, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case KTag:
		if !strings.HasPrefix(v.S, "!include ") {
			return path + ": scalar with tag " + v.S
		}
	}
	return ""
}

func headerOK(d *RootDef, out []byte) bool {
	line := string(out)
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	return line == d.header
}

// addKV appends an entry unless its key is textually present already.
func addKV(m []KV, k, v *Val) []KV {
	for _, x := range m {
		if keyText(x.K).S == keyText(k).S {
			return m
		}
	}
	return append(m, KV{K: k, V: v})
}
