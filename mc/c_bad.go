package main

import (
	"fmt"
	"strings"
)

// C09: malformed input.

// robust reads any text: no panic (the engine turns one into a violation), a
// document or an error but not both, and what was read can be written.
func robust(t *T, d *RootDef, text string) (ok bool) {
	t.Trans(1)
	doc, err := parseDoc(d, text)
	if err != nil {
		if strings.Contains(err.Error(), "a document was returned along") || strings.Contains(err.Error(), "neither document") {
			t.Failf("%v", err)
		}
		return false
	}
	t.Trans(1)
	out, err := doc.write()
	if err != nil {
		t.Failf("reading succeeded but writing failed: %v", err)
	} else if len(out) == 0 {
		t.Failf("reading succeeded but writing produced nothing")
	}
	return true
}

// wrongValues are the replacements tried at every place.
func wrongValues() []*Val {
	return []*Val{
		vNull(), vB(true), vB(false), vI(5), vI(0), vI(-1), vF(1.5), vF(-0.5), vS("str"), vS(""), vS("5"), vS("true"), vTS("2020-01-01"), vInc("x.raml"),
		vL(), vL(vS("a")), vL(vI(1)), vL(vNull()), vL(vL()), vL(vM(kv("a", vS("b")))), vM(), vM(kv("a", vS("b"))), vM(kv("a", vM())), vM(kv("a", vNull())), vM(kv("a", vL())),
		vM(KV{K: vI(1), V: vI(2)}), vM(kv("type", vL(vS("string")))), vM(kv("type", vM())), vM(kv("type", vI(5))), vM(kv("value", vM())),
		{K: KInt, S: "9223372036854775808"}, {K: KInt, S: "18446744073709551616"}, {K: KInt, S: "-9223372036854775809"}, {K: KInt, S: "2147483648"},
	}
}

// replaceAll calls f with every tree made by replacing one value, element or
// entry of a tree.
func replaceAll(s *Val, path string, f func(path string, mk func(x *Val) *Val, here *Val)) {
	f(path, func(x *Val) *Val { return x }, s)
	for i := range s.L {
		i := i
		replaceAll(s.L[i], fmt.Sprintf("%s[%d]", path, i), func(p string, mk func(x *Val) *Val, here *Val) {
			f(p, func(x *Val) *Val {
				o := *s
				o.L = append([]*Val(nil), s.L...)
				o.L[i] = mk(x)
				return &o
			}, here)
		})
	}
	for i := range s.M {
		i := i
		replaceAll(s.M[i].V, path+"."+keyStr(s.M[i].K), func(p string, mk func(x *Val) *Val, here *Val) {
			f(p, func(x *Val) *Val {
				o := *s
				o.M = append([]KV(nil), s.M...)
				o.M[i].V = mk(x)
				return &o
			}, here)
		})
	}
}

// outOfDomain reports trees whose acceptance is not specified: includes in
// place of values, and integers beyond 64 bits.
func outOfDomain(x *Val) bool {
	switch x.K {
	case KTag:
		return true
	case KInt:
		return intParse(x) == nil
	case KList:
		for _, y := range x.L {
			if outOfDomain(y) {
				return true
			}
		}
	case KMap:
		for _, y := range x.M {
			if outOfDomain(y.K) || outOfDomain(y.V) {
				return true
			}
		}
	}
	return false
}

// badAssert: a document the model rejects has to be rejected.
func badAssert(t *T, d *RootDef, tree *Val, x *Val, st style) {
	text := render(d.header, tree, st)
	ok := robust(t, d, text)
	if x != nil && outOfDomain(x) || tree.K == KNull { // a null document may be read as an empty one
		t.Count("robustness only", 1)
		return
	}
	if d.ref(tree) == nil {
		t.Count("malformed documents", 1)
		if ok {
			t.Failf("a facet has a value of the wrong kind but reading succeeded")
		}
	} else {
		t.Count("well-formed documents", 1)
		if !ok {
			t.Count("well-formed but rejected", 1)
		}
	}
}

type badBase struct {
	name string
	d    *RootDef
	tree *Val
}

func badBases(thorough bool) (out []badBase) {
	defer func() {
		for _, b := range out[:len(out):len(out)] {
			out = append(out, badBase{b.name + ", reversed", b.d, reversed(b.tree)})
		}
	}()
	for _, kind := range kindNames {
		for v := 0; v < 2; v++ {
			decl := fullDecl(kind, v)
			for wi, w := range wraps {
				if thorough || wi == 0 || wi == 2 || wi == 3 || wi == 4 || (wi == 5 && v == 0) {
					if v == 1 && !thorough && wi > 2 {
						continue
					}
					out = append(out, badBase{kind + " as " + w.name, w.def(), w.f(decl)})
				}
			}
		}
		if kinds[kind].ext {
			out = append(out, badBase{"lists of " + kind, rootLib, vM(kv("types", vM(kv("T", longLists(kind)))))})
		}
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		for v := 0; v < 3; v++ {
			out = append(out, badBase{"full " + d.name, d, fullRoot(d, v)})
		}
	}
	out = append(out, badBase{"long API lists", rootAPI, vM(
		kv("protocols", vSL("HTTP", "HTTPS", "X")), kv("mediaType", vSL("a/b", "c/d", "e/f")), kv("securedBy", vSL("x", "y", "z")),
		kv("documentation", vL(vM(kv("title", vS("1")), kv("content", vS("c"))), vM(kv("title", vS("2")), kv("content", vS("c"))), vM(kv("title", vS("3")), kv("content", vS("c"))))),
		kv("uses", vM(kv("a", vS("1")), kv("b", vS("2")), kv("c", vS("3")))), kv("(a)", vM(kv("k", vI(1)))), kv("(b)", vM()), kv("(c)", vM()),
		kv("types", vM(kv("A", vS("string")), kv("B", vM(kv("type", vS("integer")))), kv("C", vS("X|Y")))))})
	return
}

// reversed has the entries of every mapping in the opposite order.
func reversed(v *Val) *Val {
	o := *v
	o.L, o.M = nil, nil
	for _, x := range v.L {
		o.L = append(o.L, reversed(x))
	}
	for i := len(v.M) - 1; i >= 0; i-- {
		o.M = append(o.M, KV{K: v.M[i].K, V: reversed(v.M[i].V)})
	}
	return &o
}

func longLists(kind string) *Val {
	k := kinds[kind]
	e := exValT(kind).rep()
	three := func(v []*Val) *Val { return vL(v[0], v[1%len(v)], v[2%len(v)]) }
	out := vM(kv("type", kindExpr(kind)))
	if el := k.facets[k.byKey["enum"]]; true {
		r := el.T.rep()
		l := vL()
		for _, x := range r {
			l.L = append(l.L, x.L...)
		}
		if len(l.L) > 4 {
			l.L = l.L[:4]
		}
		out.M = append(out.M, kv("enum", l))
	}
	_ = three
	ex := vM()
	for i, n := range []string{"x1", "x2", "x3"} {
		ex.M = append(ex.M, kv(n, vM(kv("value", e[i%len(e)]), kv("strict", vB(i == 1)))))
	}
	ex.M = append(ex.M, kv("short", e[0]))
	out.M = append(out.M, kv("examples", ex), kv("facets", vM(kv("f", vM(kv("a", vS("string")), kv("b", vM(kv("type", vS("number")), kv("minimum", vI(1)))))), kv("g", vM(kv("c", vS("nil")))))),
		kv("(a)", vM()), kv("(b)", vM(kv("z", vI(1)))), kv("(c)", vM()))
	if kind == "object" {
		out.M = append(out.M, kv("properties", vM(kv("p", vS("string")), kv("q", vM(kv("type", vS("file")), kv("required", vB(false)))), kv("r", vM(kv("items", vM(kv("type", vS("boolean")), kv("default", vB(true)))))))))
	}
	if kind == "array" {
		out.M = append(out.M, kv("items", vM(kv("items", vM(kv("properties", vM(kv("deep", vM(kv("type", vS("string")), kv("maxLength", vI(3)))))))))))
	}
	if kind == "file" {
		out.M = append(out.M, kv("fileTypes", vSL("a", "b", "c")))
	}
	return out
}

func c09(r *R) {
	wrong := wrongValues()
	for _, b := range badBases(r.thorough()) {
		b := b
		replaceAll(b.tree, "doc", func(path string, mk func(x *Val) *Val, here *Val) {
			for i, x := range wrong {
				x := x
				st := stDefault
				if i%4 == 3 {
					st = style{flow: true}
				}
				r.Case(func() string {
					return fmt.Sprintf("%s with %s = %s\n%s", b.name, path, x, render(b.d.header, mk(x), st))
				}, func(t *T) {
					t.State(b.name + path + x.String())
					badAssert(t, b.d, mk(x), x, st)
				})
			}
			if here.K != KMap {
				return
			}
			// odd keys, repeated keys, entries gone
			for i := range here.M {
				i := i
				entry := func(name string, f func(m []KV) []KV) {
					x := *here
					x.M = f(append([]KV(nil), here.M...))
					r.Case(func() string {
						return fmt.Sprintf("%s with %s at entry %d of %s\n%s", b.name, name, i, path, render(b.d.header, mk(&x), stDefault))
					}, func(t *T) {
						t.State(b.name + path + name + fmt.Sprint(i))
						t.Count("robustness only", 1)
						robust(t, b.d, render(b.d.header, mk(&x), stDefault))
					})
				}
				for _, k := range []*Val{vNull(), vI(1), vB(true), vF(1.5), vS(""), vTS("2020-01-01"), vInc("k")} {
					k := k
					entry("key "+k.String(), func(m []KV) []KV { m[i].K = k; return m })
				}
				for _, k := range []string{"[a, b]", "{a: b}", "!!binary aGk=", "*x", "&k z", "<<", "!t {}"} {
					k := k
					x := *here
					x.M = append([]KV(nil), here.M...)
					x.M[i].K = vS("\x01KEY\x01")
					text := render(b.d.header, mk(&x), stDefault)
					_ = k
					text = replaceKey(text, k)
					r.Case(func() string { return fmt.Sprintf("%s with key %s at entry %d of %s\n%s", b.name, k, i, path, text) }, func(t *T) {
						t.State(b.name + path + k + fmt.Sprint(i))
						t.Count("robustness only", 1)
						robust(t, b.d, text)
					})
				}
				entry("key repeated", func(m []KV) []KV { return append(m, m[i]) })
				entry("entry removed", func(m []KV) []KV { return append(m[:i], m[i+1:]...) })
			}
		})
	}
	// every facet alone with every wrong value, in front of and behind others
	for _, kind := range kindNames {
		for wi, w := range wraps {
			for _, f := range kinds[kind].facets {
				for i, x := range append(append([]*Val(nil), wrong...), f.T.full()...) {
					if i >= len(wrong) && (wi > 0 || i > len(wrong)+20) {
						break
					}
					for v := 0; v < 3; v++ {
						decl := vM(kv("type", kindExpr(kind)))
						bad := kv(f.Key, x)
						switch v {
						case 0:
							decl.M = append(decl.M, bad)
						case 1:
							decl = vM(bad, kv("type", kindExpr(kind)), kv("displayName", vS("n")))
							if f.Key == "displayName" {
								continue
							}
						case 2:
							decl.M = append(decl.M, kv("x-1", vI(1)), bad, kv("x-2", vI(2)))
						}
						tree := w.f(decl)
						x := x
						r.Case(func() string {
							return fmt.Sprintf("%s %s = %s\n%s", kind, f.Key, x, render(w.def().header, tree, stDefault))
						}, func(t *T) {
							t.State(render("", tree, stDefault))
							badAssert(t, w.def(), tree, x, stDefault)
						})
					}
				}
			}
		}
	}
	// whole documents of any shape
	for _, d := range []*RootDef{rootAPI, rootLib} {
		for _, x := range append(wrong, aRaw()...) {
			d, x := d, x
			for _, hdr := range []string{"", d.header, "#%RAML 0.8", "#%RAML 1.0 Library", "#%RAML 1.0", "#%RAML 1.0 DataType"} {
				hdr := hdr
				r.Case(func() string { return fmt.Sprintf("%s document %s %s", d.name, hdr, x) }, func(t *T) {
					t.State(d.name + hdr + x.String())
					text := render(hdr, x, stDefault)
					if ok := robust(t, d, text); ok && d.ref(x) == nil && !outOfDomain(x) && x.K != KNull {
						t.Failf("the document is not a mapping but reading succeeded")
					}
				})
			}
		}
	}
	rawTexts(r)
	tokenTexts(r)
}

func replaceKey(text, k string) string {
	for _, q := range []string{"\"\\x01KEY\\x01\"", "\"\\u0001KEY\\u0001\"", "\x01KEY\x01"} {
		if strings.Contains(text, q) {
			return strings.Replace(text, q, "? "+k+"\n:", 1)
		}
	}
	panic("no key in " + text)
}

// rawTexts are hand-made texts with YAML constructs the tree renderer does not
// produce, placed under every key.
func rawTexts(r *R) {
	frags := []string{
		"*x", "&x *x", "&x [*x]", "&x {a: *x}", "&x {*x : 1}", "[*x, *x]", "&a", "!!str", "!!int abc", "!!float abc", "!!bool abc", "!!null abc", "!!timestamp abc", "!!binary abc", "!!binary aGk=",
		"!!map []", "!!seq {}", "!!omap [{a: 1}]", "!!omap {a: 1}", "!!set {a, b}", "!t [a]", "!t {a: 1}", "!<tag:yaml.org,2002:str> 5", "! x", "!!str {a: 1}", "!include", "!include x", "!include [a]", "!include {a: b}",
		"[a", "{a", "{a: b", "]", "}", "\"abc", "'abc", "\"\\q\"", "\"\\x\"", "\"\\ud800\"", "|", ">", "|9", ">-\n   x\n  y", "- a", "- - - a", "? a", "? a\n: b", "? [a]\n: b", "{? a : b}", "{a, b: c}", "[a: b, c]", "[{a: b}]",
		"<<: *x", "{<<: {a: 1}}", "{<<: [{a: 1}, {b: 2}]}", "{<<: 5}", "@", "`", "%x", "a: b: c", "a:\n b\nc: d", "\t", "\tx", "a\tb", "#", "# c", "--- x", "...", "---\na: b", "\x00", "\x7f", "\xff", "\xef\xbb\xbf", "\xed\xa0\x80", "\u2028", "\u0085",
		".inf", "-.inf", ".nan", "0x", "0x1F", "0o17", "0b11", "1_000", "017", "+5", "1e999", "-1e999", "1e-999", "5.", ".5", "190:20:30", "~", "null", "Null", "y", "n", "on", "123456789012345678901234567890", "-123456789012345678901234567890", "0.1e1_0", "2020-13-45", "2020-01-01T99:99:99Z",
		"&x {type: string, properties: *x}", "&x {items: *x}", "&x {properties: {p: *x}}", "&x {example: *x}", "&x {facets: {f: {g: *x}}}", "&x {a: &y {b: *x, c: *y}}",
		strings.Repeat("[", 50), strings.Repeat("{a: ", 50), strings.Repeat("[", 200) + strings.Repeat("]", 200), strings.Repeat("{items: ", 100) + strings.Repeat("}", 100), strings.Repeat("- ", 100) + "a",
		strings.Repeat("[", 9000) + strings.Repeat("]", 9000), strings.Repeat("{items: ", 3000) + strings.Repeat("}", 3000), strings.Repeat("[", 20000), strings.Repeat("{properties: {p: ", 1500) + strings.Repeat("}}", 1500),
		bomb(9, 9), bomb(3, 3), bomb(12, 2), "[" + strings.Repeat("a,", 3000) + "]", "{" + manyEntries(2000) + "}",
	}
	places := []string{"%s", "title: %s", "usage: %s", "types: %s", "types:\n  T: %s", "types:\n  T:\n    type: %s", "types:\n  T:\n    properties: %s", "types:\n  T:\n    properties:\n      p: %s", "types:\n  T:\n    items: %s", "types:\n  T:\n    example: %s", "types:\n  T:\n    type: object\n    example: %s", "types:\n  T:\n    type: object\n    examples:\n      e: %s", "types:\n  T:\n    type: array\n    examples:\n      e:\n        value: %s",
		"types:\n  T:\n    type: any\n    enum: %s", "types:\n  T:\n    type: number\n    enum:\n      - %s", "types:\n  T:\n    type: boolean\n    default: %s", "types:\n  T:\n    type: Custom\n    default: %s", "types:\n  T:\n    xml: %s", "types:\n  T:\n    xml:\n      name: %s", "types:\n  T:\n    facets: %s", "types:\n  T:\n    facets:\n      f: %s", "types:\n  T:\n    type: integer\n    minimum: %s", "types:\n  T:\n    type: integer\n    format: %s", "types:\n  T:\n    maxLength: %s", "types:\n  T:\n    type: array\n    minItems: %s", "types:\n  T:\n    type: number\n    multipleOf: %s", "types:\n  T:\n    type: date-only\n    default: %s", "types:\n  T:\n    type: datetime\n    format: %s", "types:\n  T:\n    required: %s", "types:\n  T:\n    x: %s", "types:\n  T:\n    (a): %s",
		"documentation: %s", "documentation:\n  - %s", "documentation:\n  - title: %s", "documentation:\n  - x: %s", "protocols: %s", "protocols:\n  - %s", "mediaType: %s", "securedBy: %s", "uses: %s", "uses:\n  u: %s", "traits: %s", "traits:\n  t: %s", "resourceTypes:\n  t: %s", "annotationTypes:\n  t: %s", "securitySchemes: %s", "baseUriParameters: %s", "baseUriParameters:\n  b: %s", "(a): %s", "(a):\n  b: %s", "/r: %s", "/r:\n  get: %s", "x: %s", "x: &x\n  a: b\ny: %s", "x: &x [1, 2]\ntypes: %s", "x: &x {type: string}\ntypes:\n  T: %s", "%s: x", "types:\n  %s: x", "types:\n  T:\n    %s: x", "? %s\n: x", "\"a\": b\n%s\nc: d", "[%s]", "- %s", "schemas:\n  S: %s"}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		for _, pl := range places {
			for _, f := range frags {
				d, pl, f := d, pl, f
				r.Case(func() string {
					return fmt.Sprintf("raw text [%s]\n%q", d.name, firstN(strings.Replace(pl, "%s", f, 1), 600))
				}, func(t *T) {
					t.State(d.name + pl + f)
					t.Count("robustness only", 1)
					robust(t, d, d.header+"\n"+strings.Replace(pl, "%s", f, 1)+"\n")
				})
			}
		}
	}
	// truncation of valid documents at every byte, and every single byte replaced
	for i, b := range []badBase{{"full library", rootLib, fullRoot(rootLib, 0)}, {"full API", rootAPI, fullRoot(rootAPI, 1)}, {"object", rootLib, wraps[1].f(fullDecl("object", 0))}, {"integer", rootLib, wraps[1].f(fullDecl("integer", 1))}} {
		b := b
		text := render(b.d.header, b.tree, styles[i%2])
		for n := 0; n <= len(text); n++ {
			n := n
			r.Case(func() string { return fmt.Sprintf("%s cut at %d", b.name, n) }, func(t *T) {
				t.State(fmt.Sprint("cut", b.name, n))
				t.Count("robustness only", 1)
				robust(t, b.d, text[:n])
			})
			for _, c := range []byte(" \n:-[{]}\"'&*!|#?,%\x00\xff\t") {
				c := c
				r.Case(func() string { return fmt.Sprintf("%s with byte %d replaced by %q\n%s", b.name, n, c, text) }, func(t *T) {
					t.State(fmt.Sprint("byte", b.name, n, c))
					t.Count("robustness only", 1)
					x := []byte(text)
					if n < len(x) {
						x[n] = c
					} else {
						x = append(x, c)
					}
					robust(t, b.d, string(x))
				})
			}
		}
	}
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func bomb(levels, width int) string {
	s := "{a0: &a0 [x, y]"
	for i := 1; i <= levels; i++ {
		s += fmt.Sprintf(", a%d: &a%d [%s]", i, i, strings.TrimSuffix(strings.Repeat(fmt.Sprintf("*a%d, ", i-1), width), ", "))
	}
	return s + "}"
}

func manyEntries(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "k%d: %d,", i, i)
	}
	return b.String()
}

// tokenTexts are all short token sequences.
func tokenTexts(r *R) {
	tokens := []string{"a", "types", ": ", " ", "\n", "\n  ", "- ", "[", "]", "{", "}", "&a ", "*a", "!!str ", "!!", "!include ", "\"", "'", "|", ">", "#", "? ", ", ", "\t", "<<: ", "%", "---", "...", "5", "true", "null", "type: ", "items: ", "properties: ", "example: ", "xml: ", "(a): ", "\xef", "\x00", "0", "!"}
	max := 3
	if r.thorough() {
		max = 4
	}
	// sequences are grouped by their prefix into one case each
	var rec func(prefix string, n int)
	rec = func(prefix string, n int) {
		if n == max-1 {
			p := prefix
			r.Case(func() string { return fmt.Sprintf("token sequences starting with %q", p) }, func(t *T) {
				for _, last := range append([]string{""}, tokens...) {
					for _, l2 := range append([]string{""}, tokens...) {
						s := p + last + l2
						for _, d := range []*RootDef{rootAPI, rootLib} {
							t.Count("token sequences", 1)
							func() {
								defer func() {
									if e := recover(); e != nil {
										panic(fmt.Sprintf("%v (reading %q as %s)", e, s, d.name))
									}
								}()
								if robust(t, d, s); t.bad() {
									t.failed += fmt.Sprintf(" (text %q)", s)
								}
							}()
							if t.bad() {
								return
							}
						}
					}
				}
				t.State("tokens " + p)
			})
			return
		}
		for _, x := range tokens {
			rec(prefix+x, n+1)
		}
	}
	rec("", 0)
}

func init() {
	reg(&checkDef{id: "C09", level: "model_checking", fn: c09, stateIs: "a distinct malformed input (token sequences are grouped by prefix)",
		rule:   "every value, element and key of fully populated documents of every kind at every depth replaced by every wrong value; every facet alone with every wrong value; whole documents of any shape; YAML constructs under every key; truncation and byte replacement at every offset; all sequences of up to four tokens; the model decides which must be rejected, all of them must neither panic nor hang, and what is read must be writable; a transition is one read or write",
		assume: []string{"includes in place of values and integers beyond 64 bits are only checked for robustness", "texts beyond the enumerated ones are not covered"}})
}
