package main

import (
	"bytes"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// Checks over document inputs: C03-C07, C12.

const (
	aParse = 1 << iota // accessors agree with the text
	aRound             // written text has the content, re-reading and re-writing are stable
	aMin               // written text is minimal
)

func docAssert(t *T, c docCase, want int) {
	ref := c.d.ref(c.tree)
	if ref == nil {
		panic("the model rejects a document of the valid space: " + c.what)
	}
	text := c.text()
	t.State(c.d.name + text)
	doc, err := parseDoc(c.d, text)
	t.Trans(1)
	if err != nil {
		t.Failf("reading a valid document failed: %v", err)
		return
	}
	snap1 := doc.snap()
	if want&aParse != 0 {
		if d := diff(ref, snap1, "doc"); d != "" {
			t.Failf("accessors disagree with the text: %s", d)
		}
	}
	if want&(aRound|aMin) == 0 {
		return
	}
	out, err := doc.write()
	t.Trans(1)
	if err != nil {
		t.Failf("writing failed: %v", err)
		return
	}
	tree, err := readYAML(out)
	if err != nil {
		t.Failf("the written text is not readable YAML: %v\n%s", err, out)
		return
	}
	if tree.K == KNull {
		tree = vM()
	}
	if want&aMin != 0 {
		if d := isPlainOut(tree, "out"); d != "" {
			t.Failf("written text is not plain YAML: %s\n%s", d, out)
		}
		hidden := mergeHidden(ref, snap1)
		if d := diff(c.d.out(hidden), tree, "out"); d != "" {
			t.Failf("written text is not the minimal form of what the accessors report: %s\n%s", d, out)
		}
	}
	if want&aRound == 0 {
		return
	}
	if !headerOK(c.d, out) {
		t.Failf("written text does not begin with the line %q:\n%s", c.d.header, out)
	}
	if d := diff(c.d.out(ref), tree, "out"); d != "" {
		t.Failf("written text differs from the content of the document: %s\n%s", d, out)
	}
	// each type on its own
	if types := tree.get("types"); types != nil && types.K == KMap {
		doc.types().ForEach(func(k string, v raml.DataType) {
			t.Trans(1)
			s, err := v.ToRAML()
			if err != nil {
				t.Failf("writing the type %q on its own failed: %v", k, err)
				return
			}
			own, err := readYAML([]byte(s))
			if err != nil {
				t.Failf("the type %q on its own is not readable YAML: %v\n%s", k, err, s)
				return
			}
			if want := types.get(k); want != nil {
				if d := diff(want, own, k); d != "" {
					t.Failf("the type %q on its own is written differently from the type in the document: %s\n%s", k, d, s)
				}
			}
		})
	}
	doc2, err := parseDoc(c.d, string(out))
	t.Trans(1)
	if err != nil {
		t.Failf("re-reading failed: %v\n%s", err, out)
		return
	}
	if d := diff(snap1, doc2.snap(), "doc"); d != "" {
		t.Failf("re-read document differs: %s\n%s", d, out)
	}
	out2, err := doc2.write()
	t.Trans(1)
	if err != nil {
		t.Failf("re-writing failed: %v", err)
		return
	}
	if !bytes.Equal(out, out2) {
		t.Failf("re-writing gives different text:\n--- first\n%s\n--- second\n%s", out, out2)
	}
}

// mergeHidden copies the model-internal entries (which no accessor shows) of
// the reference state into an observed state.
func mergeHidden(ref, got *Val) *Val {
	if ref == nil || ref.K != got.K {
		return got
	}
	switch got.K {
	case KMap:
		out := &Val{K: KMap, S: got.S}
		for i, x := range got.M {
			v := x.V
			k := x.K
			if x.K.K == KStr {
				if r := ref.get(x.K.S); r != nil {
					v = mergeHidden(r, x.V)
				}
				if i < len(ref.M) && ref.M[i].K.Alt != nil && diff(ref.M[i].K, x.K, "") == "" {
					k = ref.M[i].K
				}
			}
			out.M = append(out.M, KV{K: k, V: v})
		}
		for _, x := range ref.M {
			if isHidden(x.K) {
				out.M = append(out.M, x)
			}
		}
		return out
	case KList:
		if len(ref.L) != len(got.L) {
			return got
		}
		out := &Val{K: KList, S: got.S}
		for i := range got.L {
			out.L = append(out.L, mergeHidden(ref.L[i], got.L[i]))
		}
		return out
	}
	return got
}

func docCheck(space func(r *R, emit func(docCase)), want int) func(r *R) {
	return func(r *R) {
		space(r, func(c docCase) {
			r.Case(c.desc, func(t *T) { docAssert(t, c, want) })
		})
	}
}

const docRule = "every document tree of the enumerated space, rendered to YAML, is one case; distinct_nontrivial/states counts distinct document texts; a transition is one read or write by the library"

var docAssume = []string{
	"yaml.v3 as pinned by the repository reads and writes YAML correctly (it is also the independent reader of the output)",
	"values outside the alphabets, and documents with more than three facets other than the rotated full documents, are not covered",
	"multi-type declarations, non-decimal integers, inf/nan, merge keys, tagged collections and scalar annotation values are outside the domain (DESIGN.md)",
}

func init() {
	declSpace := func(r *R, emit func(docCase)) { declDocs(r.thorough(), emit) }
	api := func(r *R, emit func(docCase)) { rootDocs(rootAPI, r.thorough(), emit) }
	lib := func(r *R, emit func(docCase)) { rootDocs(rootLib, r.thorough(), emit) }
	both := func(r *R, emit func(docCase)) { api(r, emit); lib(r, emit) }
	all := func(r *R, emit func(docCase)) { declSpace(r, emit); both(r, emit) }
	d := func(id string, f func(r *R)) {
		reg(&checkDef{id: id, level: "model_checking", fn: f, rule: docRule, assume: docAssume, stateIs: "a distinct document text"})
	}
	d("C03", docCheck(api, aRound))
	d("C04", docCheck(lib, aRound))
	d("C05", docCheck(declSpace, aRound))
	d("C06", docCheck(both, aParse))
	d("C07", docCheck(declSpace, aParse))
	d("C12d", docCheck(all, aMin))
}
