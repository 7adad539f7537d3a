package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// C20: the sources the generators make behave like the committed ones.
//
// The harness is built twice, against the repository and against a copy in
// which the generators have been run; both builds compute one digest per
// observation case and the digests are compared.

var apiTypes = map[string]reflect.Type{} // exported types, filled in by a generated file in the two builds

// observationCases enumerates what both builds are compared on.
func observationCases(thorough bool, emit func(desc func() string, observe func() string)) {
	docOutcome := func(d *RootDef, text string) string {
		doc, err := parseDoc(d, text)
		if err != nil {
			return "rejected"
		}
		out, werr := doc.write()
		return doc.snap().String() + "\n" + string(out) + fmt.Sprint(werr != nil)
	}
	// the exported interfaces
	names := []string{}
	for n := range apiTypes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := apiTypes[n]
		emit(func() string { return "exported type " + n }, func() string {
			s := t.String() + " " + t.Kind().String()
			for i := 0; i < t.NumMethod(); i++ {
				s += "\n" + t.Method(i).Name + " " + t.Method(i).Type.String()
			}
			if t.Kind() == reflect.Struct {
				for i := 0; i < t.NumField(); i++ {
					s += "\n" + t.Field(i).Name + " " + t.Field(i).Type.String()
				}
			}
			return s
		})
	}
	// documents
	n := 0
	doc := func(c docCase) {
		n++
		if !thorough && (strings.Contains(c.what, "triple") && n%15 != 0 || strings.Contains(c.what, "pair") && n%3 != 0 || strings.Contains(c.what, "styled") && n%4 != 0) {
			return
		}
		emit(c.desc, func() string { return docOutcome(c.d, c.text()) })
	}
	declDocs(false, doc)
	rootDocs(rootAPI, false, doc)
	rootDocs(rootLib, false, doc)
	// malformed documents
	wrong := wrongValues()
	for _, b := range badBases(false) {
		replaceAll(b.tree, "doc", func(path string, mk func(x *Val) *Val, here *Val) {
			for i, x := range wrong {
				n++
				if n%5 != 0 && !thorough {
					continue
				}
				st := stDefault
				if i%4 == 3 {
					st = style{flow: true}
				}
				x := x
				emit(func() string {
					return fmt.Sprintf("%s with %s = %s\n%s", b.name, path, x, render(b.d.header, mk(x), st))
				}, func() string { return docOutcome(b.d, render(b.d.header, mk(x), st)) })
			}
		})
	}
	// elements and what can be called on them
	allowed := map[string]bool{"Kind": true, "Type": true, "Schema": true, "ToRAML": true, "MarshalRAML": true, "WriteRAML": true, "yaml.Marshal": true}
	for _, spec := range append(freshElems(), fullElems()...) {
		for _, f := range elemFacets(spec.ek) {
			allowed[f.Getter] = true
		}
	}
	elem := func(x interface{}) string {
		s := snap(x).String()
		for _, o := range observers(reflect.ValueOf(x)) {
			if allowed[o.name] {
				s += "\n" + o.name + " " + func() (r string) {
					defer func() {
						if recover() != nil {
							r = "panic"
						}
					}()
					return o.do(reflect.ValueOf(x)).String()
				}()
			}
		}
		return s
	}
	for _, spec := range append(freshElems(), fullElems()...) {
		spec := spec
		typ := reflect.TypeOf(spec.mk())
		run := func(h ...edit) func() string {
			return func() string {
				x := spec.mk()
				s := ""
				for _, e := range h {
					s += e.apply(x) + ";"
				}
				return s + elem(x)
			}
		}
		put := func(h ...edit) { emit(func() string { return histDesc(spec.name, h) }, run(h...)) }
		put()
		wide := append(setters(spec.ek, typ, nil, true), mapEdits(spec.ek, typ, nil)...)
		ops := append(setters(spec.ek, typ, nil, false), mapEdits(spec.ek, typ, nil)...)
		for _, w := range wide {
			put(w)
		}
		for _, a := range ops {
			for _, b := range ops {
				if facetOf(a) == facetOf(b) && (a.name[0] != 'S' || b.name[0] != 'S') || thorough {
					put(a, b)
				}
			}
		}
		core := coreOps(ops)
		for _, a := range core {
			for _, b := range core {
				if facetOf(a) != facetOf(b) && !thorough {
					n++
					if n%6 == 0 {
						put(a, b)
					}
				}
			}
		}
	}
	// documents built and edited
	hist := func(c hcase) {
		n++
		if n%9 != 0 && !thorough {
			return
		}
		emit(c.String, func() string {
			if c.elem == nil && len(c.hist) > 1 && len(c.hist[1].path) > 0 && !applicable(c.state, c.hist) {
				return "no target"
			}
			t := &T{r: &R{res: result{Counters: map[string]int64{}}}}
			x, _ := c.run(t)
			if x == nil {
				return t.failed
			}
			return writeBytes(x)
		})
	}
	r := &R{tier: "quick"}
	builtCases(r, hist)
	editedCases(r, hist)
	overrideCases(r, hist)
	// Go values that cannot be written, and destinations that fail
	for _, kind := range kindNames {
		if !kinds[kind].ext {
			continue
		}
		kind := kind
		for _, limit := range []int{0, 1, 20, 40} {
			emit(func() string { return fmt.Sprintf("%s written to a destination that takes %d bytes", kind, limit) }, func() string {
				b := focusBases(kind)[0]
				return fmt.Sprint(b.mk().(writer).WriteRAML(&badWriter{limit: limit}) != nil)
			})
		}
	}
}

func digestOf(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// observations computes the digests of a share of the cases, or prints one.
func observations(args []string) {
	debug.SetGCPercent(400)
	shard, _ := strconv.Atoi(args[0])
	shards, _ := strconv.Atoi(args[1])
	one, _ := strconv.Atoi(args[3])
	var out []byte
	i := 0
	observationCases(args[2] == "thorough", func(desc func() string, observe func() string) {
		i++
		if one >= 0 && i-1 != one || one < 0 && (i-1)%shards != shard {
			return
		}
		var s string
		func() {
			defer func() {
				if e := recover(); e != nil {
					s = "panic"
					if one >= 0 {
						s = fmt.Sprint("panic: ", e)
					}
				}
			}()
			s = observe()
		}()
		if one >= 0 {
			fmt.Printf("%s\n=====\n%s\n", desc(), s)
			return
		}
		out = binary.LittleEndian.AppendUint64(out, digestOf(s))
	})
	if one < 0 {
		os.WriteFile(args[4], out, 0644)
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func mcDir() string {
	if d := os.Getenv("VERIF_MC"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "mc")
}

// copyRepo copies the Go sources and templates of the repository.
func copyRepo(dst string) {
	src := repoDir()
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if d.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0644)
	})
	if err != nil {
		panic(err)
	}
}

func runIn(dir string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	return string(b), err
}

var stamp = regexp.MustCompile(`\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:?\d\d)?`)

// sources are the Go files below a directory, without time stamps.
func sources(dir string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() && strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = stamp.ReplaceAllString(string(b), "TIME")
		}
		return nil
	})
	return out
}

// exportedTypes lists the exported type names of a package directory.
func exportedTypes(dir string) (out []string) {
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				continue
			}
			for _, s := range g.Specs {
				ts := s.(*ast.TypeSpec)
				if ts.Name.IsExported() && ts.TypeParams == nil {
					out = append(out, ts.Name.Name)
				}
			}
		}
	}
	sort.Strings(out)
	return
}

// buildHarness builds the harness against a copy of the repository; names are
// the exported types it lists.
func buildHarness(work, repo, exe string, names []string, extra ...string) (string, error) {
	mc := mcDir()
	dir, err := os.MkdirTemp(work, "build")
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	if len(names) == 0 {
		names = []string{"StringMap"}
	}
	b.WriteString("package main\n\nimport \"github.com/Foxcapades/lib-go-raml/v0/pkg/raml\"\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\tapiTypes[%q] = rt[raml.%s]()\n", n, n)
	}
	b.WriteString("}\n")
	write := func(name, s string) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			panic(err)
		}
		return p
	}
	list := write("apilist.go", b.String())
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(mc, "apilist_overlay.go"): list}})
	overlay := write("overlay.json", string(ov))
	mod, err := os.ReadFile(filepath.Join(mc, "go.mod"))
	if err != nil {
		panic(err)
	}
	m := regexp.MustCompile(`(?m)^(replace github.com/Foxcapades/lib-go-raml => ).*$`).ReplaceAllString(string(mod), "${1}"+repo)
	modfile := write("go.mod", m)
	sum, _ := os.ReadFile(filepath.Join(mc, "go.sum"))
	write("go.sum", string(sum))
	return runIn(mc, "go", append(append([]string{"build", "-modfile=" + modfile, "-overlay=" + overlay, "-o", exe}, extra...), ".")...)
}

func c20pre(r *R) {
	work := r.workDir
	gen := filepath.Join(work, "regen")
	base := filepath.Join(work, "asis")
	viol := func(f string, a ...interface{}) {
		r.res.Viol = append(r.res.Viol, violation{0, "regenerating the sources", fmt.Sprintf(f, a...)})
		r.res.NViol++
	}
	fatal := func(what, out string, err error) {
		fmt.Fprintf(os.Stderr, "C20: %s: %v\n%s\n", what, err, out)
		os.RemoveAll(work)
		os.Exit(2)
	}
	copyRepo(gen)
	copyRepo(base)
	// the committed sources, formatted like the generated ones, have to build
	if out, err := runIn(base, "go", "build", "./..."); err != nil {
		fatal("the repository does not build", out, err)
	}
	gens, _ := filepath.Glob(filepath.Join(gen, "v0/tools/gen/*/main.go"))
	if len(gens) == 0 {
		viol("there are no generators under v0/tools/gen")
		return
	}
	generate := func() bool {
		for _, g := range gens {
			rel, _ := filepath.Rel(gen, g)
			r.res.Trans++
			if out, err := runIn(gen, "go", "run", rel); err != nil {
				viol("the generator %s fails: %v\n%s", rel, err, firstLines(out, 20))
				return false
			}
		}
		if out, err := runIn(gen, "gofmt", "-s", "-w", "v0"); err != nil {
			viol("generated sources cannot be formatted: %v\n%s", err, firstLines(out, 20))
			return false
		}
		return true
	}
	if !generate() {
		return
	}
	once := sources(gen)
	if out, err := runIn(gen, "go", "build", "./..."); err != nil {
		viol("the regenerated sources do not compile: %v\n%s", err, firstLines(out, 20))
		return
	}
	if !generate() {
		return
	}
	twice := sources(gen)
	for f, s := range twice {
		if once[f] != s {
			viol("running the generators again changes %s", f)
			return
		}
	}
	if len(once) != len(twice) {
		viol("running the generators again gives %d files instead of %d", len(twice), len(once))
		return
	}
	names := exportedTypes(filepath.Join(base, "v0/pkg/raml"))
	other := exportedTypes(filepath.Join(gen, "v0/pkg/raml"))
	if !sameList(names, other) {
		viol("exported types: committed %q, regenerated %q", names, other)
		return
	}
	exes := [2]string{filepath.Join(work, "mc-asis"), filepath.Join(work, "mc-regen")}
	for i, dir := range []string{base, gen} {
		if out, err := buildHarness(work, dir, exes[i], names); err != nil {
			if i == 0 {
				fatal("the harness does not build", out, err)
			}
			viol("programs that compile against the committed sources do not compile against the regenerated ones:\n%s", firstLines(out, 20))
			return
		}
	}
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	sem := make(chan bool, n)
	outs := make([][2][]byte, n)
	errs := make([][2]string, n)
	for s := 0; s < n; s++ {
		for v := 0; v < 2; v++ {
			wg.Add(1)
			go func(s, v int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				f := filepath.Join(work, fmt.Sprintf("dig.%d.%d", s, v))
				cmd := exec.Command(exes[v], "observations", strconv.Itoa(s), strconv.Itoa(n), r.tier, "-1", f)
				var se bytes.Buffer
				cmd.Stderr = &limitWriter{w: &se, n: 20000}
				if err := cmd.Run(); err != nil {
					errs[s][v] = fmt.Sprintf("%v\n%s", err, firstLines(se.String(), 10))
				}
				outs[s][v], _ = os.ReadFile(f)
			}(s, v)
		}
	}
	wg.Wait()
	describe := func(exe string, i int) (string, string) {
		b, _ := exec.Command(exe, "observations", "0", "1", r.tier, strconv.Itoa(i), "-").CombinedOutput()
		p := strings.SplitN(string(b), "\n=====\n", 2)
		if len(p) < 2 {
			p = append(p, "")
		}
		return p[0], p[1]
	}
	for s := 0; s < n; s++ {
		for v := 0; v < 2; v++ {
			if errs[s][v] != "" {
				viol("the observations of the %s sources end abnormally: %s", []string{"committed", "regenerated"}[v], errs[s][v])
				return
			}
		}
		a, b := outs[s][0], outs[s][1]
		if len(a) != len(b) {
			viol("the committed sources offer %d observation cases, the regenerated ones %d", len(a)/8, len(b)/8)
			return
		}
		for i := 0; i+8 <= len(a); i += 8 {
			r.res.Executed++
			r.res.Trans += 2
			r.states[binary.LittleEndian.Uint64(a[i:])] = struct{}{}
			if !bytes.Equal(a[i:i+8], b[i:i+8]) {
				r.res.NViol++
				if len(r.res.Viol) < 6 {
					c := i/8*n + s
					d, x := describe(exes[0], c)
					_, y := describe(exes[1], c)
					r.res.Viol = append(r.res.Viol, violation{int64(c), d, fmt.Sprintf("the regenerated sources behave differently\n--- committed\n%s\n--- regenerated\n%s", firstN(x, 3000), firstN(y, 3000))})
				}
			}
		}
	}
	d, _ := describe(exes[0], 5000)
	r.res.Samples = append(r.res.Samples, firstN(d, 1000))
	r.res.Counters["files generated"] = int64(len(gens))
	r.res.Counters["exported types compared"] = int64(len(names))
}

func init() {
	helpers["observations"] = observations
	reg(&checkDef{id: "C20", level: "model_checking", pre: c20pre, stateIs: "distinct observation",
		rule: "the generators are run twice in a copy of the repository; one harness is built against the committed and one against the regenerated sources, and both observe every case of the same enumeration: exported types, documents of C03-C07, malformed documents of C09, single calls and same-facet pairs of calls on every element, built and edited documents; observations (acceptance, all accessors, written text) must be equal",
		assume: []string{"the map types are made by an external generator that is not part of the repository and is not available here; they are not regenerated",
			"error texts are not compared, only whether an operation fails"}})
}
