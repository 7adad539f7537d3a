package main

import (
	"math/big"
	"strings"
)

// The reference model: what a document tree means (parse), and which tree a
// model state has to be written as (out).  It is written from the property
// statements and the RAML rules, not from the library's code.

type presence int

const (
	pAbsent presence = iota
	pPresent
	pOptional
)

// FT is the type of a facet.
type FT struct {
	name   string
	absent *Val
	parse  func(t *Val) *Val             // tree -> state, nil when of the wrong kind
	out    func(s *Val) (*Val, presence) // state -> tree
	full   func() []*Val                 // alphabet of trees
	rep    func() []*Val                 // representatives, at least two where possible
	val    *FT                           // of an example: the type of its value
}

type Facet struct {
	Key, Getter string
	T           *FT
}

type KDef struct {
	name   string
	ext    bool
	facets []Facet
	ex     *FT // example
	exs    *FT
	byKey  map[string]int
}

func ident(t *Val) *Val { return t }

func outOpt(s *Val) (*Val, presence) {
	if s.K == KNone {
		return nil, pAbsent
	}
	return s, pPresent
}

func strParse(t *Val) *Val {
	if t.K == KStr {
		return t
	}
	return nil
}

func dateParse(t *Val) *Val {
	if t.K == KTS {
		return vS(t.S)
	}
	return strParse(t)
}

var maxInt = new(big.Int).SetUint64(1<<63 - 1)
var minInt = new(big.Int).Neg(new(big.Int).SetUint64(1 << 63))

func intParse(t *Val) *Val {
	if t.K != KInt {
		return nil
	}
	if b, ok := new(big.Int).SetString(t.S, 10); ok && b.Cmp(maxInt) <= 0 && b.Cmp(minInt) >= 0 {
		return t
	}
	return nil
}

func uintParse(t *Val) *Val {
	if v := intParse(t); v != nil && !strings.HasPrefix(v.S, "-") {
		return v
	}
	return nil
}

func numParse(t *Val) *Val {
	if t.K == KNum { // written states of values set from Go
		return t
	}
	if t.K == KInt || t.K == KFloat {
		r, ok := new(big.Rat).SetString(t.S)
		if !ok {
			return nil
		}
		f, _ := r.Float64()
		return vNum(f)
	}
	return nil
}

func boolParse(t *Val) *Val {
	if t.K == KBool {
		return t
	}
	return nil
}

func rawParse(t *Val) *Val { return t }

// what collections are that were not given
var noList, noMap = &Val{K: KList, No: true}, &Val{K: KMap, No: true}

func optT(name string, p func(*Val) *Val, full, rep func() []*Val) *FT {
	return &FT{name: name, absent: vNone(), parse: p, out: outOpt, full: full, rep: rep}
}

func defT(name string, d *Val, p func(*Val) *Val, full, rep func() []*Val) *FT {
	return &FT{name: name, absent: d, parse: p, full: full, rep: rep, out: func(s *Val) (*Val, presence) {
		if diff(d, s, "") == "" {
			return nil, pAbsent
		}
		return s, pPresent
	}}
}

func listT(name string, el func(*Val) *Val, full, rep func() []*Val) *FT {
	return &FT{name: name, absent: noList, full: full, rep: rep, parse: func(t *Val) *Val {
		if t.K != KList || t.S != "" {
			return nil
		}
		out := vL()
		for _, x := range t.L {
			e := el(x)
			if e == nil {
				return nil
			}
			out.L = append(out.L, e)
		}
		return out
	}, out: outColl}
}

func outColl(s *Val) (*Val, presence) {
	if s.No && len(s.L) == 0 && len(s.M) == 0 {
		return nil, pAbsent
	}
	if len(s.L) == 0 && len(s.M) == 0 {
		return vL(), pOptional
	}
	return s, pPresent
}

// map of text keys to elements
func mapOf(t *Val, el func(*Val) *Val) *Val {
	if t.K != KMap || t.S != "" {
		return nil
	}
	out := vM()
	for _, x := range t.M {
		if x.K.K != KStr {
			return nil
		}
		e := el(x.V)
		if e == nil {
			return nil
		}
		out.M = append(out.M, KV{K: x.K, V: e})
	}
	return out
}

func outMap(s *Val, el func(*Val) *Val) *Val {
	out := vM()
	for _, x := range s.M {
		out.M = append(out.M, KV{K: x.K, V: el(x.V)})
	}
	return out
}

func mapT(name string, el, outEl func(*Val) *Val, full, rep func() []*Val) *FT {
	return &FT{name: name, absent: noMap, full: full, rep: rep,
		parse: func(t *Val) *Val { return mapOf(t, el) },
		out: func(s *Val) (*Val, presence) {
			if s.No && len(s.M) == 0 {
				return nil, pAbsent
			}
			if len(s.M) == 0 {
				return vM(), pOptional
			}
			return outMap(s, outEl), pPresent
		}}
}

// ---------------------------------------------------------------- facet types

var (
	tStr, tBoolT, tBoolF, tUint0, tUintMax, tUintOpt, tIntOpt, tNumOpt, tStrList,
	tDateOpt, tBoolOpt, tRaw, tRawList, tBoolList, tIntList, tNumList, tDateList, tFmt,
	tDecl, tProps, tFacets, tXML, tAnnVal, tMediaType, tStrPlain, tRawMap, tStrMap, tTypes, tDocs *FT
)

var kinds = map[string]*KDef{}
var kindNames = []string{"any", "array", "boolean", "custom", "date-only", "datetime-only", "datetime", "file", "include", "integer", "nil", "number", "object", "string", "time-only", "union"}

func init() {
	nullT := func(name string, p func(*Val) *Val, o func(*Val) *Val, full, rep func() []*Val) *FT {
		return &FT{name: name, absent: vNull(), parse: p, full: full, rep: rep, out: func(s *Val) (*Val, presence) {
			if s.K == KNull {
				return nil, pAbsent
			}
			return o(s), pPresent
		}}
	}
	tStr = optT("string", strParse, aStr, aStrRep)
	tStrPlain = &FT{name: "text", absent: vS(""), parse: strParse, full: aStr, rep: aStrRep, out: func(s *Val) (*Val, presence) {
		if s.S == "" {
			return s, pOptional
		}
		return s, pPresent
	}}
	tBoolT = defT("bool(true)", vB(true), boolParse, aBool, aBool)
	tBoolF = defT("bool(false)", vB(false), boolParse, aBool, aBool)
	tBoolOpt = optT("bool", boolParse, aBool, aBool)
	tUint0 = defT("uint(0)", vI(0), uintParse, aUint, aUintRep)
	tUintMax = defT("uint(2147483647)", vI(2147483647), uintParse, aUint, aUintRep)
	tUintOpt = optT("uint", uintParse, aUint, aUintRep)
	tIntOpt = optT("int", intParse, aInt, aIntRep)
	tNumOpt = optT("number", numParse, aNum, aNumRep)
	tDateOpt = optT("date", dateParse, aDate, aDateRep)
	tRaw = optT("raw", rawParse, aRaw, aRawRep)
	tStrList = listT("strings", strParse, lists(aStr), listsRep(aStrRep))
	tRawList = listT("values", rawParse, lists(aRaw), listsRep(aRawRep))
	tBoolList = listT("bools", boolParse, lists(aBool), listsRep(aBool))
	tIntList = listT("ints", intParse, lists(aInt), listsRep(aIntRep))
	tNumList = listT("numbers", numParse, lists(aNum), listsRep(aNumRep))
	tDateList = listT("dates", dateParse, lists(aDate), listsRep(aDateRep))
	tFmt = nullT("format", strParse, ident, aFmt, func() []*Val { return aFmt()[:2] })
	tDecl = nullT("type declaration", refDecl, outDecl, aDecl, aDeclRep)
	tProps = mapT("properties", refDecl, outDecl, maps(aDecl, "p"), mapsRep(aDeclRep, "p"))
	tTypes = mapT("types", refDecl, outDecl, maps(aDecl, "T"), mapsRep(aDeclRep, "T"))
	tFacets = mapT("facet definitions", func(t *Val) *Val { return mapOf(t, refDecl) }, func(s *Val) *Val { return outMap(s, outDecl) },
		maps(maps(aDeclRep, "d"), "f"), mapsRep(mapsRep(aDeclRep, "d"), "f"))
	tXML = nullT("xml", refXML, outXML, aXML, func() []*Val { return aXML()[:3] })
	tAnnVal = &FT{name: "annotation", parse: func(t *Val) *Val { return mapOf(t, rawParse) }, full: maps(aRaw, "k"), rep: mapsRep(aRawRep, "k")}
	tRawMap = mapT("map", rawParse, ident, maps(aRaw, "k"), mapsRep(aRawRep, "k"))
	tStrMap = mapT("string map", strParse, ident, maps(aStr, "u"), mapsRep(aStrRep, "u"))
	tMediaType = &FT{name: "media types", absent: noList, full: func() []*Val { return append(lists(aStr)(), aStr()...) },
		rep: func() []*Val { return []*Val{vS("application/json"), vSL("text/xml", "a/b")} },
		parse: func(t *Val) *Val {
			if t.K == KStr {
				return vL(t)
			}
			return tStrList.parse(t)
		}, out: outColl}
	tDocs = &FT{name: "documentation", absent: noList, full: aDocs, rep: func() []*Val { return aDocs()[:2] },
		parse: func(t *Val) *Val {
			if t.K != KList {
				return nil
			}
			out := vL()
			for _, x := range t.L {
				e := refDoc(x)
				if e == nil {
					return nil
				}
				out.L = append(out.L, e)
			}
			return out
		},
		out: func(s *Val) (*Val, presence) {
			o := &Val{K: KList, No: s.No}
			for _, x := range s.L {
				o.L = append(o.L, outDoc(x))
			}
			return outColl(o)
		}}

	type vt struct{ def, enum, val *FT }
	vts := map[string]vt{
		"any": {tRaw, tRawList, tRaw}, "custom": {tRaw, tRawList, tRaw}, "file": {tRaw, tRawList, tRaw},
		"object": {tRaw, tRawList, tRaw}, "union": {tRaw, tRawList, tRaw},
		"array":   {tRawList, tRawList, tRawList},
		"boolean": {tBoolOpt, tBoolList, tBoolOpt},
		"integer": {tIntOpt, tIntList, tIntOpt}, "number": {tNumOpt, tNumList, tNumOpt},
		"string": {tStr, tStrList, tStr}, "time-only": {tStr, tStrList, tStr},
		"date-only": {tDateOpt, tDateList, tDateOpt}, "datetime": {tDateOpt, tDateList, tDateOpt}, "datetime-only": {tDateOpt, tDateList, tDateOpt},
	}
	own := map[string][]Facet{
		"array":    {{"items", "Items", tDecl}, {"minItems", "MinItems", tUint0}, {"maxItems", "MaxItems", tUintMax}, {"uniqueItems", "UniqueItems", tBoolF}},
		"datetime": {{"format", "Format", tFmt}},
		"file":     {{"fileTypes", "FileTypes", tStrList}, {"minLength", "MinLength", tUint0}, {"maxLength", "MaxLength", tUintMax}},
		"integer":  {{"minimum", "Minimum", tIntOpt}, {"maximum", "Maximum", tIntOpt}, {"format", "Format", tFmt}, {"multipleOf", "MultipleOf", tNumOpt}},
		"number":   {{"minimum", "Minimum", tNumOpt}, {"maximum", "Maximum", tNumOpt}, {"format", "Format", tFmt}, {"multipleOf", "MultipleOf", tNumOpt}},
		"object": {{"properties", "Properties", tProps}, {"minProperties", "MinProperties", tUintOpt}, {"maxProperties", "MaxProperties", tUintOpt},
			{"additionalProperties", "AdditionalProperties", tBoolT}, {"discriminator", "Discriminator", tStr}, {"discriminatorValue", "DiscriminatorValue", tRaw}},
		"string": {{"pattern", "Pattern", tStr}, {"minLength", "MinLength", tUint0}, {"maxLength", "MaxLength", tUintOpt}},
	}
	for _, n := range kindNames {
		k := &KDef{name: n, ext: n != "nil" && n != "include", byKey: map[string]int{}}
		if k.ext {
			v := vts[n]
			k.ex = exampleT(n, v.val)
			k.exs = examplesT(n, k.ex)
			k.facets = append([]Facet{
				{"displayName", "DisplayName", tStr}, {"description", "Description", tStr},
				{"default", "Default", v.def}, {"enum", "Enum", v.enum},
				{"example", "Example", k.ex}, {"examples", "Examples", k.exs},
				{"required", "Required", tBoolT}, {"facets", "FacetDefinitions", tFacets}, {"xml", "XML", tXML},
			}, own[n]...)
		}
		for i, f := range k.facets {
			k.byKey[f.Key] = i
		}
		kinds[n] = k
	}
}

// ---------------------------------------------------------------- types

var builtin = map[string]bool{"any": true, "array": true, "boolean": true, "date-only": true, "datetime-only": true, "datetime": true, "file": true, "integer": true, "nil": true, "number": true, "object": true, "string": true, "time-only": true}

// classify returns the kind and the retained text of a type expression.
func classify(s string) (kind, text string) {
	switch {
	case builtin[s]:
		return s, s
	case strings.HasPrefix(s, "!include "):
		return "include", strings.TrimPrefix(s, "!include ")
	case strings.Contains(s, "|"):
		return "union", s
	}
	return "custom", s
}

func freshDecl(kind, text string) *Val {
	k := kinds[kind]
	out := vM(kv("Kind", vS(kind)), kv("Type", vS(text)), kv("Schema", vS(text)))
	for _, f := range k.facets {
		out.M = append(out.M, kv(f.Getter, f.T.absent))
	}
	if k.ext {
		out.M = append(out.M, kv("Annotations", vM()))
	} else {
		out.M = append(out.M, kv("Required", vB(true)))
	}
	out.M = append(out.M, kv("ExtraFacets", vM()))
	return out
}

func keyText(k *Val) *Val {
	switch k.K {
	case KStr:
		return k
	case KNull:
		return &Val{K: KStr, S: "null", Alt: k}
	default:
		// the library keeps the text of the key; either form denotes the same facet
		return &Val{K: KStr, S: k.S, Alt: k}
	}
}

// refDecl gives the meaning of a type declaration, nil when it is malformed.
func refDecl(t *Val) *Val {
	switch t.K {
	case KStr:
		k, s := classify(t.S)
		return freshDecl(k, s)
	case KNull:
		return freshDecl("string", "string")
	case KTag:
		if strings.HasPrefix(t.S, "!include ") {
			return freshDecl("include", t.S[9:])
		}
		return nil
	case KMap:
	default:
		return nil
	}
	kind, text := "string", "string"
	te := t.get("type")
	if te == nil {
		te = t.get("schema")
	}
	switch {
	case te != nil && te.K == KStr:
		kind, text = classify(te.S)
	case te != nil && te.K == KTag && strings.HasPrefix(te.S, "!include "):
		kind, text = "include", te.S[9:]
	case te != nil:
		return nil
	case t.get("properties") != nil:
		kind, text = "object", "object"
	case t.get("items") != nil:
		kind, text = "array", "array"
	}
	k := kinds[kind]
	out := freshDecl(kind, text)
	var anns, extra []KV
	for _, x := range t.M {
		if x.K.K == KStr {
			if x.K.S == "type" || x.K.S == "schema" {
				continue
			}
			if i, ok := k.byKey[x.K.S]; ok {
				v := k.facets[i].T.parse(x.V)
				if v == nil {
					return nil
				}
				out = out.with(k.facets[i].Getter, v)
				continue
			}
			if k.ext && strings.HasPrefix(x.K.S, "(") {
				a := tAnnVal.parse(x.V)
				if a == nil {
					return nil
				}
				anns = append(anns, KV{K: x.K, V: a})
				continue
			}
			if !k.ext && x.K.S == "required" && x.V.K == KBool {
				out = out.with("Required", x.V)
			}
		}
		extra = append(extra, KV{K: keyText(x.K), V: x.V})
	}
	if k.ext {
		out = out.with("Annotations", vM(anns...))
	}
	return out.with("ExtraFacets", vM(extra...))
}

// outDecl gives the tree a type has to be written as.
func outDecl(s *Val) *Val {
	k := kinds[s.get("Kind").S]
	text := s.get("Type").S
	typ := vS(text)
	if k.name == "include" {
		typ = vInc(text)
	}
	m := &Val{K: KMap, U: true}
	must := false
	for _, f := range k.facets {
		st := s.get(f.Getter)
		v, p := f.T.out(st)
		switch p {
		case pPresent:
			must = true
			m.M = append(m.M, kv(f.Key, v))
		case pOptional:
			m.M = append(m.M, kvo(f.Key, v))
		}
	}
	if k.ext {
		for _, a := range s.get("Annotations").M {
			must = true
			m.M = append(m.M, a)
		}
	}
	for _, a := range s.get("ExtraFacets").M {
		must = true
		m.M = append(m.M, a)
	}
	te := kv("type", typ)
	switch {
	case !must:
	case k.name == "object" && text == "object" && len(s.get("Properties").M) > 0,
		k.name == "array" && text == "array" && s.get("Items").K != KNull,
		k.name == "string" && text == "string":
		te.Opt = true
	}
	m.M = append(m.M, te)
	if !must {
		if len(m.M) > 1 {
			out := *typ
			out.Alt = m
			return &out
		}
		return typ
	}
	return m
}

// ---------------------------------------------------------------- examples

func freshEx(val *FT) *Val {
	return vM(kv("DisplayName", vNone()), kv("Description", vNone()), kv("Annotations", vM()), kv("Strict", vB(true)), kv("Value", val.absent), kv("ExtraFacets", vM()))
}

func rawKind(n string) bool {
	switch n {
	case "any", "custom", "file", "object", "union":
		return true
	}
	return false
}

func refEx(kind string, val *FT) func(t *Val) *Val {
	return func(t *Val) *Val {
		out := freshEx(val)
		if t.K == KMap && (t.get("value") != nil || !rawKind(kind)) {
			var anns, extra []KV
			for _, x := range t.M {
				if x.K.K == KStr {
					switch x.K.S {
					case "displayName", "description":
						if x.V.K != KStr {
							return nil
						}
						g := "DisplayName"
						if x.K.S == "description" {
							g = "Description"
						}
						out = out.with(g, x.V)
						continue
					case "strict":
						if x.V.K != KBool {
							return nil
						}
						out = out.with("Strict", x.V)
						continue
					case "value":
						v := val.parse(x.V)
						if v == nil {
							return nil
						}
						out = out.with("Value", v)
						continue
					}
					if strings.HasPrefix(x.K.S, "(") {
						a := tAnnVal.parse(x.V)
						if a == nil {
							return nil
						}
						anns = append(anns, KV{K: x.K, V: a})
						continue
					}
				}
				extra = append(extra, KV{K: keyText(x.K), V: x.V})
			}
			return out.with("Annotations", vM(anns...)).with("ExtraFacets", vM(extra...))
		}
		v := val.parse(t)
		if v == nil {
			return nil
		}
		return out.with("Value", v)
	}
}

func outEx(kind string, val *FT) func(s *Val) *Val {
	return func(s *Val) *Val {
		m := &Val{K: KMap, U: true}
		must := false
		put := func(k string, v *Val) { must = true; m.M = append(m.M, kv(k, v)) }
		if v := s.get("DisplayName"); v.K != KNone {
			put("displayName", v)
		}
		if v := s.get("Description"); v.K != KNone {
			put("description", v)
		}
		if v := s.get("Strict"); v.S == "false" {
			put("strict", v)
		}
		for _, a := range s.get("Annotations").M {
			must = true
			m.M = append(m.M, a)
		}
		for _, a := range s.get("ExtraFacets").M {
			must = true
			m.M = append(m.M, a)
		}
		v, p := val.out(s.get("Value"))
		if !must {
			if p == pAbsent {
				out := vNull()
				if kind == "array" {
					out.Alt = vL()
				}
				return out
			}
			if p == pOptional {
				return &Val{K: v.K, Alt: vNull()}
			}
			if !(v.K == KMap && v.get("value") != nil) {
				return v
			}
		}
		switch p {
		case pPresent:
			m.M = append(m.M, kv("value", v))
		case pOptional:
			m.M = append(m.M, kvo("value", v))
		}
		return m
	}
}

func exampleT(kind string, val *FT) *FT {
	p, o := refEx(kind, val), outEx(kind, val)
	return &FT{name: "example", absent: vNull(), parse: p, out: func(s *Val) (*Val, presence) {
		if s.K == KNull {
			return nil, pAbsent
		}
		return o(s), pPresent
	}, full: aEx(kind, val), rep: aExRep(kind, val), val: val}
}

func examplesT(kind string, ex *FT) *FT {
	o := func(s *Val) *Val { v, _ := ex.out(s); return v }
	return mapT("examples", ex.parse, o, maps(ex.full, "x"), mapsRep(ex.rep, "x"))
}

// ---------------------------------------------------------------- XML, documentation

var xmlFacets = []Facet{{"attribute", "IsAttribute", nil}, {"wrapped", "IsWrapped", nil}, {"name", "Name", nil}, {"namespace", "Namespace", nil}, {"prefix", "Prefix", nil}}

func refXML(t *Val) *Val {
	if t.K != KMap {
		return nil
	}
	out := vM()
	for _, f := range xmlFacets {
		out.M = append(out.M, kv(f.Getter, vNone()))
	}
	var extra []KV
next:
	for _, x := range t.M {
		if x.K.K == KStr {
			for i, f := range xmlFacets {
				if f.Key == x.K.S {
					want := KBool
					if i > 1 {
						want = KStr
					}
					if x.V.K != want {
						return nil
					}
					out = out.with(f.Getter, x.V)
					continue next
				}
			}
		}
		extra = append(extra, KV{K: keyText(x.K), V: x.V})
	}
	return out.with("~~extra", vM(extra...))
}

func outXML(s *Val) *Val {
	m := &Val{K: KMap, U: true}
	for _, f := range xmlFacets {
		if v := s.get(f.Getter); v.K != KNone {
			m.M = append(m.M, kv(f.Key, v))
		}
	}
	if e := s.get("~~extra"); e != nil {
		m.M = append(m.M, e.M...)
	}
	return m
}

func refDoc(t *Val) *Val {
	if t.K != KMap {
		return nil
	}
	out := vM(kv("Title", vS("")), kv("Content", vS("")))
	var extra []KV
	for _, x := range t.M {
		if x.K.K == KStr && (x.K.S == "title" || x.K.S == "content") {
			if x.V.K != KStr {
				return nil
			}
			g := "Title"
			if x.K.S == "content" {
				g = "Content"
			}
			out = out.with(g, x.V)
			continue
		}
		extra = append(extra, KV{K: keyText(x.K), V: x.V})
	}
	return out.with("ExtraFacets", vM(extra...))
}

func outDoc(s *Val) *Val {
	m := &Val{K: KMap, U: true}
	for _, f := range [][2]string{{"title", "Title"}, {"content", "Content"}} {
		v := s.get(f[1])
		m.M = append(m.M, KV{K: vS(f[0]), V: v, Opt: v.S == ""})
	}
	m.M = append(m.M, s.get("ExtraFacets").M...)
	return m
}

// ---------------------------------------------------------------- root documents

type RootDef struct {
	name   string
	header string
	facets []Facet
	res    bool // paths are resources
	byKey  map[string]int
}

var rootAPI, rootLib *RootDef

func init() {
	rootAPI = &RootDef{name: "api", header: hdrAPI, res: true, facets: []Facet{
		{"title", "Title", tStrPlain}, {"version", "Version", tStr}, {"description", "Description", tStr},
		{"baseUri", "BaseURI", tStr}, {"baseUriParameters", "BaseURIParameters", tRawMap},
		{"protocols", "Protocols", tStrList}, {"mediaType", "MediaTypes", tMediaType},
		{"documentation", "Documentation", tDocs}, {"types", "Types", tTypes},
		{"traits", "Traits", tRawMap}, {"resourceTypes", "ResourceTypes", tRawMap},
		{"annotationTypes", "AnnotationTypes", tRawMap}, {"securitySchemes", "SecuritySchemes", tRawMap},
		{"securedBy", "SecuredBy", tStrList}, {"uses", "Uses", tStrMap},
	}}
	rootLib = &RootDef{name: "library", header: hdrLib, facets: []Facet{
		{"usage", "Usage", tStr}, {"types", "Types", tTypes},
		{"traits", "Traits", tRawMap}, {"resourceTypes", "ResourceTypes", tRawMap},
		{"annotationTypes", "AnnotationTypes", tRawMap}, {"securitySchemes", "SecuritySchemes", tRawMap},
		{"uses", "Uses", tStrMap},
	}}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		d.byKey = map[string]int{}
		for i, f := range d.facets {
			d.byKey[f.Key] = i
		}
		for i, f := range d.facets {
			if f.Key == "types" {
				d.byKey["schemas"] = i
			}
		}
	}
}

func (d *RootDef) fresh() *Val {
	out := vM()
	for _, f := range d.facets {
		out.M = append(out.M, kv(f.Getter, f.T.absent))
	}
	out.M = append(out.M, kv("Schemas", vM()), kv("Annotations", vM()))
	if d.res {
		out.M = append(out.M, kv("Resources", vM()))
	}
	out.M = append(out.M, kv("ExtraFacets", vM()))
	return out
}

// ref gives the meaning of a root document, nil when it is malformed.
func (d *RootDef) ref(t *Val) *Val {
	if t.K != KMap {
		return nil
	}
	out := d.fresh()
	var anns, extra, res []KV
	for _, x := range t.M {
		if x.K.K == KStr {
			if i, ok := d.byKey[x.K.S]; ok {
				v := d.facets[i].T.parse(x.V)
				if v == nil {
					return nil
				}
				out = out.with(d.facets[i].Getter, v)
				if d.facets[i].Key == "types" {
					out = out.with("Schemas", v)
				}
				continue
			}
			if strings.HasPrefix(x.K.S, "(") {
				a := tAnnVal.parse(x.V)
				if a == nil {
					return nil
				}
				anns = append(anns, KV{K: x.K, V: a})
				continue
			}
			if d.res && strings.HasPrefix(x.K.S, "/") {
				res = append(res, x)
				continue
			}
		}
		extra = append(extra, KV{K: keyText(x.K), V: x.V})
	}
	out = out.with("Annotations", vM(anns...)).with("ExtraFacets", vM(extra...))
	if d.res {
		out = out.with("Resources", vM(res...))
	}
	return out
}

// out gives the tree a root document has to be written as.
func (d *RootDef) out(s *Val) *Val {
	m := &Val{K: KMap, U: true}
	for _, f := range d.facets {
		v, p := f.T.out(s.get(f.Getter))
		switch p {
		case pPresent:
			m.M = append(m.M, kv(f.Key, v))
		case pOptional:
			m.M = append(m.M, kvo(f.Key, v))
		}
	}
	m.M = append(m.M, s.get("Annotations").M...)
	if d.res {
		m.M = append(m.M, s.get("Resources").M...)
	}
	m.M = append(m.M, s.get("ExtraFacets").M...)
	return m
}
