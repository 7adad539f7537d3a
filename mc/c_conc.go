package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// C17: two goroutines under every schedule.
//
// The repository is copied and a scheduling point is inserted before every
// statement; the harness is built against the copy, once as usual and once
// with the race detector.  A deterministic scheduler then runs every schedule
// up to the preemption bound.

//go:embed sched/*.txt
var schedSrc embed.FS

// instrument inserts scheduling points into the sources of a copy.
func instrument(repo string, reset bool) (points int) {
	pkg := filepath.Join(repo, "v0/verifsched")
	os.MkdirAll(pkg, 0755)
	ents, _ := schedSrc.ReadDir("sched")
	for _, e := range ents {
		b, _ := schedSrc.ReadFile("sched/" + e.Name())
		if err := os.WriteFile(filepath.Join(pkg, strings.TrimSuffix(e.Name(), ".txt")), b, 0644); err != nil {
			panic(err)
		}
	}
	pkgs := map[string][]*srcFile{}
	var dirs []string
	for _, dir := range []string{"v0/internal", "v0/pkg"} {
		filepath.WalkDir(filepath.Join(repo, dir), func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			dir := filepath.Dir(p)
			if pkgs[dir] == nil {
				dirs = append(dirs, dir)
			}
			pkgs[dir] = append(pkgs[dir], &srcFile{name: p, src: src, fset: fset, f: f})
			return nil
		})
	}
	vars := map[string]map[string]bool{} // import path: package-level variables
	for _, dir := range dirs {
		vs := map[string]bool{}
		for _, f := range pkgs[dir] {
			for _, sp := range f.varSpecs() {
				for _, n := range sp.Names {
					vs[n.Name] = true
				}
			}
		}
		delete(vs, "_")
		rel, _ := filepath.Rel(repo, dir)
		vars["github.com/Foxcapades/lib-go-raml/"+filepath.ToSlash(rel)] = vs
	}
	for _, dir := range dirs {
		rel, _ := filepath.Rel(repo, dir)
		own := vars["github.com/Foxcapades/lib-go-raml/"+filepath.ToSlash(rel)]
		if reset {
			addResets(dir, pkgs[dir])
		}
		for _, f := range pkgs[dir] {
			n := f.addPoints(own, vars)
			points += n
			if err := os.WriteFile(f.name, f.result(), 0644); err != nil {
				panic(err)
			}
		}
	}
	return
}

// srcFile is a source file with insertions to be made.
type srcFile struct {
	name string
	src  []byte
	fset *token.FileSet
	f    *ast.File
	ins  []insertion
}

type insertion struct {
	at   int
	text string
}

func (f *srcFile) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *srcFile) add(at int, text string) { f.ins = append(f.ins, insertion{at, text}) }

func (f *srcFile) result() []byte {
	sort.SliceStable(f.ins, func(i, j int) bool { return f.ins[i].at < f.ins[j].at })
	var out []byte
	last := 0
	for _, i := range f.ins {
		out = append(out, f.src[last:i.at]...)
		out = append(out, i.text...)
		last = i.at
	}
	return append(out, f.src[last:]...)
}

func (f *srcFile) varSpecs() (out []*ast.ValueSpec) {
	for _, d := range f.f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				out = append(out, s.(*ast.ValueSpec))
			}
		}
	}
	return
}

// addResets adds to a package a function which gives its package-level
// variables the values they have when the program starts and runs its init
// functions, so that every schedule can begin from that state.
func addResets(dir string, files []*srcFile) {
	for _, f := range files {
		if f.f.Name.Name != files[0].f.Name.Name || strings.Contains(string(f.src), "//go:build") || strings.Contains(string(f.src), "//go:embed") {
			return
		}
	}
	type rec struct {
		fn    string
		names []string
		deps  map[string]bool
	}
	mentions := func(n ast.Node) map[string]bool {
		out := map[string]bool{}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				out[id.Name] = true
			}
			return true
		})
		return out
	}
	var recs []*rec
	var inits []string
	funcs := map[string]map[string]bool{}
	for _, f := range files {
		text := func(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }
		for _, sp := range f.varSpecs() {
			var names, used []string
			for _, n := range sp.Names {
				names = append(names, n.Name)
				if n.Name != "_" {
					used = append(used, n.Name)
				}
			}
			if len(used) == 0 {
				continue
			}
			r := &rec{fn: fmt.Sprintf("verifReset%d", len(recs)), names: used, deps: map[string]bool{}}
			body := ""
			if len(sp.Values) > 0 {
				var vals []string
				for _, v := range sp.Values {
					vals = append(vals, text(v))
					for k := range mentions(v) {
						r.deps[k] = true
					}
				}
				body = strings.Join(names, ", ") + " = " + strings.Join(vals, ", ")
			} else {
				for _, n := range used {
					body += "{ var verifZero " + text(sp.Type) + "; " + n + " = verifZero }; "
				}
			}
			f.add(len(f.src), "\nfunc "+r.fn+"() { "+body+" }\n")
			recs = append(recs, r)
		}
		for _, d := range f.f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if fd.Recv == nil && fd.Name.Name == "init" {
				n := fmt.Sprintf("verifInit%d", len(inits))
				inits = append(inits, n)
				// func init() { n() }; func n() {
				f.add(f.off(fd.Body.Pos()), "{ "+n+"() }; func "+n+"() ")
				continue
			}
			m := funcs[fd.Name.Name]
			if m == nil {
				m = map[string]bool{}
				funcs[fd.Name.Name] = m
			}
			for k := range mentions(fd.Body) {
				m[k] = true
			}
		}
	}
	if len(recs)+len(inits) == 0 {
		return
	}
	// what a variable's value needs, through functions
	for _, r := range recs {
		for again := true; again; {
			again = false
			for d := range r.deps {
				for k := range funcs[d] {
					if !r.deps[k] {
						r.deps[k], again = true, true
					}
				}
			}
		}
	}
	var calls []string
	done := map[*rec]bool{}
	for len(calls) < len(recs) {
		var pick *rec
		for _, r := range recs {
			if done[r] {
				continue
			}
			if pick == nil {
				pick = r // if all wait for each other
			}
			ready := true
			for _, o := range recs {
				if o != r && !done[o] {
					for _, n := range o.names {
						ready = ready && !r.deps[n]
					}
				}
			}
			if ready {
				pick = r
				break
			}
		}
		done[pick] = true
		calls = append(calls, pick.fn+"()")
	}
	for _, n := range inits {
		calls = append(calls, n+"()")
	}
	out := "package " + files[0].f.Name.Name + "\n\nimport verifsched \"github.com/Foxcapades/lib-go-raml/v0/verifsched\"\n\nfunc init() {\n\tverifsched.OnReset(func() {\n\t\t" + strings.Join(calls, "\n\t\t") + "\n\t})\n}\n"
	if err := os.WriteFile(filepath.Join(dir, "zz_verifreset.go"), []byte(out), 0644); err != nil {
		panic(err)
	}
}

// addPoints adds a scheduling point before every statement; one before a
// statement that mentions a package-level variable is marked.
func (f *srcFile) addPoints(own map[string]bool, vars map[string]map[string]bool) (n int) {
	imports := map[string]map[string]bool{}
	for _, im := range f.f.Imports {
		p := strings.Trim(im.Path.Value, "\"")
		name := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		if vs := vars[p]; vs != nil {
			imports[name] = vs
		}
	}
	hot := func(s ast.Stmt) (yes bool) {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				return n == ast.Node(s)
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && imports[id.Name][x.Sel.Name] {
					yes = true
				}
				return true
			case *ast.Ident:
				yes = yes || own[x.Name]
			}
			return !yes
		})
		return
	}
	seen := map[int]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause: // no place for statements
				continue
			}
			at := f.off(s.Pos())
			if seen[at] {
				continue
			}
			seen[at] = true
			if hot(s) {
				f.add(at, "verifsched.G(); ")
			} else {
				f.add(at, "verifsched.P(); ")
			}
			n++
		}
	}
	ast.Inspect(f.f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if n > 0 {
		f.add(f.off(f.f.Name.End()), "; import verifsched \"github.com/Foxcapades/lib-go-raml/v0/verifsched\"")
	}
	return n
}

// ---------------------------------------------------------------- workloads

// workload is something a goroutine does; its result is a text.
type workload struct {
	name  string
	mk    func() func() string // prepares an instance
	small bool
}

func plainLoad(name string, small bool, f func() string) workload {
	return workload{name, func() func() string { return f }, small}
}

func guarded(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f()
}

func fullUse(x interface{}) string {
	s := writeBytes(x)
	b, err := yaml.Marshal(x)
	return s + string(b) + fmt.Sprint(err) + snap(x).String()
}

func parseLoad(name string, small bool, d *RootDef, text string) workload {
	return plainLoad(name, small, func() string {
		doc, err := parseDoc(d, text)
		if err != nil {
			return "error: " + err.Error()
		}
		s := writeBytes(doc.x)
		if !raceBuild || !small {
			s += doc.snap().String()
		}
		return s
	})
}

func loads(thorough bool) (out []workload) {
	lib := func(name string, small bool, decls ...KV) {
		out = append(out, parseLoad(name, small, rootLib, render(hdrLib, vM(kv("types", vM(decls...))), stDefault)))
	}
	for _, k := range kindNames {
		lib("read and write a full "+k, false, kv("T", fullDecl(k, 0)))
		lib("read and write a bare "+k, true, kv("T", kindExpr(k)))
		if kinds[k].ext {
			r := exValT(k).rep()
			lib("read and write one "+k+" example", true, kv("E", vM(kv("type", kindExpr(k)), kv("example", r[0]))))
			lib("read and write "+k+" examples", false, kv("E", vM(kv("type", kindExpr(k)), kv("examples", vM(kv("a", fullEx(k)), kv("b", vM(kv("value", r[0]))))))))
		}
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		out = append(out, parseLoad("read and write a full "+d.name, false, d, render(d.header, fullRoot(d, 0), stDefault)))
		out = append(out, parseLoad("read and write an empty "+d.name, true, d, d.header+"\n"))
		for _, b := range []string{"types: [1]\n", "types: {A: {type: string, minLength: x}}\n", "types: {A: {type: object, properties: {p: {type: number, minimum: []}}}}\n", "types: {A: {type: boolean, example: {value: x}}}\n", "a: b: c\n", "(a): 1\n"} {
			out = append(out, parseLoad(fmt.Sprintf("refuse %q", b), true, d, d.header+"\n"+b))
		}
	}
	out = append(out, plainLoad("build and write an API", false, func() string {
		a := rbuild.NewAPISpec().SetTitle("t").SetVersion("1").SetDescription("d").SetBaseURI("u")
		a.Types().Put("A", rbuild.NewAnyDataType()).Put("I", rbuild.NewIntegerDataType().SetMinimum(3)).Put("S", rbuild.NewStringDataType().SetPattern("p").SetMinLength(2))
		a.Types().Put("L", rbuild.NewArrayDataType().SetItems(rbuild.NewBoolDataType()).SetMinItems(1)).Put("N", rbuild.NewNumberDataType().SetMaximum(1.5))
		a.Annotations().Put("(a)", raml.NewUntypedMap(1).Put("k", 1).SerializeOrdered(false))
		a.ExtraFacets().Put("x", "y")
		a.Types().Delete("A").Put("A", rbuild.NewAnyDataType().SetDescription("again"))
		return fullUse(a)
	}), plainLoad("build and write a library", true, func() string {
		l := rbuild.NewLibrary().SetUsage("u")
		l.Types().Put("S", rbuild.NewStringDataType())
		return writeBytes(l)
	}), plainLoad("use a string map", true, func() string {
		m := raml.NewStringMap(2).Put("a", "1").Put("b", "2").ReplaceOrPut("a", "3").Delete("b").PutIfNotNil("c", nil)
		b, err := yaml.Marshal(m)
		j, err2 := m.MarshalJSON()
		return fmt.Sprint(string(b), err, string(j), err2, m.Len(), m.IndexOf("a"), m.Has("b"))
	}), plainLoad("use a type map", true, func() string {
		m := raml.NewDataTypeMap(1).Put("z", rbuild.NewStringDataType()).Put("a", rbuild.NewIntegerDataType()).ReplaceIfExists("z", rbuild.NewAnyDataType()).SerializeOrdered(false)
		b, err := yaml.Marshal(m)
		j, err2 := m.MarshalJSON()
		return fmt.Sprint(string(b), err, len(j), err2, m.Len())
	}), plainLoad("use an untyped map", true, func() string {
		m := raml.NewUntypedMap(0).Put("z", 1).Put("a", []interface{}{1, "x"}).Put("m", map[string]interface{}{"b": 1, "a": 2})
		b, err := yaml.Marshal(m)
		j, err2 := m.SerializeOrdered(false).MarshalJSON()
		return fmt.Sprint(string(b), err, string(j), err2, m.At(0), m.Len())
	}))
	for _, k := range kindNames {
		k := k
		if k == "nil" || k == "include" {
			continue
		}
		text := render(hdrLib, vM(kv("types", vM(kv("T", kindExpr(k))))), stDefault)
		out = append(out, plainLoad("edit and write a "+k, false, func() string {
			doc, err := parseDoc(rootLib, text)
			if err != nil {
				return err.Error()
			}
			t, _ := doc.x.(raml.Library).Types().Get("T")
			t.ExtraFacets().Put("x", 1)
			call1(t, "Annotations").(raml.AnnotationMap).Put("(a)", raml.NewUntypedMap(0).SerializeOrdered(false))
			call1(t, "FacetDefinitions").(raml.FacetMap).Put("f", raml.Facet(raml.NewDataTypeMap(1).Put("q", rbuild.NewBoolDataType()).SerializeOrdered(false)))
			call1(t, "SetDescription", "d")
			call1(t, "SetDisplayName", "n")
			call1(t, "SetRequired", false)
			call1(t, "OverrideType", t.Type())
			call1(t, "UnsetDefault")
			call1(t, "UnsetEnum")
			return writeBytes(doc.x) + snap(t).String()
		}))
	}
	return
}

// readLoads are uses of a document that change nothing.
func sharedReads() []struct {
	name string
	f    func(x interface{}) string
} {
	return []struct {
		name string
		f    func(x interface{}) string
	}{
		{"write", writeBytes},
		{"all accessors", func(x interface{}) string { return snap(x).String() }},
		{"marshal", func(x interface{}) string { b, err := yaml.Marshal(x); return string(b) + fmt.Sprint(err) }},
		{"marshal each type", func(x interface{}) string {
			s := ""
			call1(x, "Types").(raml.DataTypeMap).ForEach(func(k string, t raml.DataType) {
				o := raml.NewAnyMap(0).SerializeOrdered(false)
				res := resultVal(method(reflect.ValueOf(t), "MarshalRAML").Call([]reflect.Value{reflect.ValueOf(o)}))
				b, err := yaml.Marshal(o)
				s += k + res.String() + string(b) + fmt.Sprint(err)
			})
			return s
		}},
	}
}

type concPair struct {
	name  string
	mk    func() [2]func() string
	want  [2]string
	n     [2]int
	small bool
	race  bool // worth every schedule in the race build
	brief bool // only the serial schedules and the marked points
	marks [2][]int
}

// pickMarks selects the first marked points of a run and some of the rest.
func pickMarks(m []int) (out []int) {
	first := 10
	if len(m) <= first {
		return m
	}
	out = append(out, m[:first]...)
	m = m[first:]
	step := len(m)/14 + 1
	for i := 0; i < len(m); i += step {
		out = append(out, m[i])
	}
	return
}

const inf = 1 << 60

var raceLog string
var raceSeen int64

// raceReport gives what the race detector wrote since the last call.
func raceReport() string {
	if !raceBuild || raceLog == "" {
		return ""
	}
	p := fmt.Sprintf("%s.%d", raceLog, os.Getpid())
	st, err := os.Stat(p)
	if err != nil || st.Size() == raceSeen {
		return ""
	}
	b, _ := os.ReadFile(p)
	s := string(b[raceSeen:])
	raceSeen = int64(len(b))
	return s
}

func concPairs(thorough bool) (out []*concPair) {
	ls := loads(thorough)
	base := make([]string, len(ls))
	marks := make([][]int, len(ls))
	points := make([]int, len(ls))
	for i, l := range ls {
		i := i
		schedReset()
		f := l.mk()
		n, _ := schedRun([]schedSeg{{0, inf}}, [2]func(){func() { base[i] = guarded(f) }, nil})
		points[i] = n[0]
		marks[i] = pickMarks(schedMarked()[0])
	}
	add := func(i, j int, brief bool) {
		a, b := ls[i], ls[j]
		out = append(out, &concPair{name: a.name + " / " + b.name, mk: func() [2]func() string { return [2]func() string{a.mk(), b.mk()} }, want: [2]string{base[i], base[j]}, small: a.small && b.small, brief: brief, n: [2]int{points[i], points[j]}, marks: [2][]int{marks[i], marks[j]}})
	}
	full := map[[2]int]bool{}
	for i := range ls {
		j := (i*7 + 5) % len(ls)
		if i%2 == 0 {
			j = (i + 1) % len(ls)
		}
		for _, p := range [][2]int{{i, i}, {i, j}} {
			if !full[p] {
				full[p] = true
				add(p[0], p[1], false)
			}
		}
	}
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			if !full[[2]int{i, j}] && !full[[2]int{j, i}] {
				add(i, j, !thorough)
			}
		}
	}
	reads := sharedReads()
	shared := func(name string, mk func() interface{}) {
		want := make([]string, len(reads))
		for i, u := range reads {
			want[i] = u.f(mk())
		}
		for i := range reads {
			for j := range reads {
				if i > j {
					continue
				}
				i, j := i, j
				out = append(out, &concPair{name: fmt.Sprintf("one shared %s: %s / %s", name, reads[i].name, reads[j].name), mk: func() [2]func() string {
					x := mk()
					return [2]func() string{func() string { return reads[i].f(x) }, func() string { return reads[j].f(x) }}
				}, want: [2]string{want[i], want[j]}, race: true})
			}
		}
	}
	for _, k := range kindNames {
		text := render(hdrLib, vM(kv("types", vM(kv("T", fullDecl(k, 0))))), stDefault)
		shared("document with a full "+k, func() interface{} {
			doc, err := parseDoc(rootLib, text)
			if err != nil {
				panic(err)
			}
			return doc.x
		})
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		d := d
		for v := 0; v < 2; v++ {
			text := render(d.header, fullRoot(d, v), stDefault)
			shared(fmt.Sprintf("full %s %d", d.name, v), func() interface{} {
				doc, err := parseDoc(d, text)
				if err != nil {
					panic(err)
				}
				return doc.x
			})
		}
	}
	shared("new API", func() interface{} { return rbuild.NewAPISpec() })
	shared("built library", func() interface{} {
		l := rbuild.NewLibrary().SetUsage("u")
		l.Types().Put("B", rbuild.NewIntegerDataType().SetMinimum(1)).Put("A", rbuild.NewArrayDataType().SetItems(rbuild.NewStringDataType().SetEnum([]string{"x"})))
		l.Traits().Put("t", []interface{}{1, "x"})
		return l
	})
	return
}

func c17(r *R) {
	if !instrumented {
		panic("C17 needs the instrumented build")
	}
	runtime.GOMAXPROCS(1)
	raceLog = os.Getenv("VERIF_RACELOG")
	pairs := concPairs(r.thorough())
	for _, p := range pairs {
		p := p
		// shared documents: sequential run of each, to count points
		for i := 0; i < 2 && p.n[i] == 0; i++ {
			i := i
			schedReset()
			f := p.mk()
			var got string
			n, _ := schedRun([]schedSeg{{0, inf}}, [2]func(){func() { got = guarded(f[i]) }, nil})
			p.n[i] = n[0]
			p.marks[i] = pickMarks(schedMarked()[0])
			if got != p.want[i] && r.shard == 0 {
				fmt.Fprintf(os.Stderr, "note: %s, goroutine %d differs when run alone\n", p.name, i)
			}
		}
		raceReport()
		runAs := func(t *T, segs []schedSeg, reset bool) bool {
			if reset {
				schedReset()
			}
			f := p.mk()
			var got [2]string
			_, st := schedRun(segs, [2]func(){func() { got[0] = guarded(f[0]) }, func() { got[1] = guarded(f[1]) }})
			t.Count("schedules", 1)
			t.Trans(len(segs))
			if st > 0 {
				t.Count("schedules with a blocked goroutine", 1)
			}
			for i := range got {
				if got[i] != p.want[i] {
					t.Failf("goroutine %d of %q gets a different result under the schedule %v (goroutine, points)\n--- alone\n%s\n--- concurrently\n%s", i, p.name, segs, firstN(p.want[i], 2500), firstN(got[i], 2500))
					return false
				}
			}
			if s := raceReport(); s != "" {
				t.Failf("data race in %q under the schedule %v\n%s", p.name, segs, firstN(s, 4000))
				return false
			}
			return true
		}
		run := func(t *T, segs []schedSeg) bool { return runAs(t, segs, true) }
		if p.brief {
			for _, race := range []bool{false, true} {
				r.Case(func() string {
					return fmt.Sprintf("%s: serial and with a preemption near package-level variables, race detector %v", p.name, race)
				}, func(t *T) {
					if race != raceBuild {
						t.Skip()
						return
					}
					t.State(fmt.Sprint(p.name, race))
					for w := 0; w < 2; w++ {
						ok := run(t, []schedSeg{{w, inf}, {1 - w, inf}})
						for i, m := range p.marks[w] {
							if i == 10 {
								break
							}
							ok = ok && run(t, []schedSeg{{w, m}, {1 - w, inf}, {w, inf}})
						}
						// both cold and after each other
						if ok = ok && runAs(t, []schedSeg{{w, inf}, {1 - w, inf}}, false); !ok {
							return
						}
					}
				})
			}
			continue
		}
		chunk := func(what string, race bool, n int, f func(t *T, k int) bool) {
			const size = 128
			for lo := 0; lo < n; lo += size {
				lo := lo
				r.Case(func() string { return fmt.Sprintf("%s: %s, schedules %d to %d of %d", p.name, what, lo, lo+size, n) }, func(t *T) {
					if race != raceBuild {
						t.Skip()
						return
					}
					for k := lo; k < lo+size && k < n; k++ {
						t.State(fmt.Sprint(p.name, what, k))
						if !f(t, k) {
							return
						}
					}
				})
			}
		}
		for w := 0; w < 2; w++ {
			w := w
			o := 1 - w
			if w == 1 && p.n[0] == p.n[1] && p.want[0] == p.want[1] {
				continue // the same workload twice
			}
			chunk(fmt.Sprintf("goroutine %d preempted once", w), false, p.n[w]+1, func(t *T, k int) bool {
				return run(t, []schedSeg{{w, k + 1}, {o, inf}, {w, inf}})
			})
			step := 1
			if !p.race && !r.thorough() {
				step = p.n[w]/24 + 1
			} else if !r.thorough() {
				step = p.n[w]/160 + 1
			}
			chunk(fmt.Sprintf("goroutine %d preempted once, race detector", w), true, p.n[w]/step+1, func(t *T, k int) bool {
				return run(t, []schedSeg{{w, p.n[w] + 1 - k*step}, {o, inf}, {w, inf}})
			})
		}
		for _, race := range []bool{false, true} {
			if len(p.marks[0])+len(p.marks[1]) == 0 {
				break
			}
			r.Case(func() string {
				return fmt.Sprintf("%s: preemption near package-level variables, race detector %v", p.name, race)
			}, func(t *T) {
				if race != raceBuild {
					t.Skip()
					return
				}
				t.State(fmt.Sprint(p.name, "marked", race))
				for w := 0; w < 2; w++ {
					for _, m := range p.marks[w] {
						if !run(t, []schedSeg{{w, m}, {1 - w, inf}, {w, inf}}) {
							return
						}
					}
				}
			})
		}
		lim := 250
		if r.thorough() {
			lim = 1500
		}
		if p.small && p.n[0] <= lim && p.n[1] <= lim {
			chunk("both preempted", false, p.n[0]*p.n[1], func(t *T, k int) bool {
				return run(t, []schedSeg{{0, k/p.n[1] + 1}, {1, k%p.n[1] + 1}, {0, inf}, {1, inf}})
			})
		}
	}
}

func c17pre(r *R) {
	work := r.workDir
	dir := filepath.Join(work, "inst")
	copyRepo(dir)
	fatal := func(what, out string) {
		fmt.Fprintf(os.Stderr, "C17: %s\n%s\n", what, out)
		os.RemoveAll(work)
		os.Exit(2)
	}
	if out, err := runIn(dir, "go", "build", "./..."); err != nil {
		fatal("the repository does not build", out)
	}
	n := instrument(dir, true)
	r.res.Counters["scheduling points in the source"] = int64(n)
	exes := [2]string{filepath.Join(work, "mc-sched"), filepath.Join(work, "mc-race")}
	if out, err := runIn(dir, "go", "build", "./..."); err != nil {
		// without putting package-level variables back
		fmt.Fprintf(os.Stderr, "note: C17 cannot reset package-level state: %s\n", firstN(out, 500))
		os.RemoveAll(dir)
		copyRepo(dir)
		instrument(dir, false)
		r.res.Counters["package-level state not reset"] = 1
	}
	type res struct {
		out string
		err error
	}
	c := [2]chan res{make(chan res, 1), make(chan res, 1)}
	for i := range exes {
		go func(i int) {
			args := []string{"-tags=verifsched"}
			if i == 1 {
				args = append(args, "-race")
			}
			out, err := buildHarness(work, dir, exes[i], nil, args...)
			c[i] <- res{out, err}
		}(i)
	}
	for i := range exes {
		if x := <-c[i]; x.err != nil {
			fatal("the instrumented harness does not build", x.out)
		}
	}
	log := filepath.Join(work, "race")
	r.exes = exes[:]
	r.env = append(r.env, "GORACE=exitcode=0 halt_on_error=0 log_path="+log, "VERIF_RACELOG="+log)
}

func init() {
	reg(&checkDef{id: "C17", level: "model_checking", pre: c17pre, fn: c17, stateIs: "workload pair and schedule",
		rule: "a scheduling point precedes every statement of the library; for every pair of workloads every schedule with one preemption of either goroutine, and for small workloads every schedule with one preemption of each, is executed by a deterministic scheduler and each goroutine's result compared with its result alone; schedules with a preemption at evenly spaced points, always including the serial ones, are repeated under the race detector, from which the hand-overs are hidden",
		assume: []string{"statements of the library are atomic for the result comparison, as are calls into dependencies; finer interleavings are left to the race detector",
			"two goroutines; preemption bound one for each"}})
}
