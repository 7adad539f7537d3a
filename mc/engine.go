package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A check enumerates cases in a fixed order.  Every worker process enumerates
// all of them and executes its share; case numbers identify cases for replay.

type checkDef struct {
	id      string
	level   string
	fn      func(r *R)
	rule    string
	assume  []string
	pre     func(r *R) // runs once in the parent (extra builds); may set r.env
	only    func(r *R) // replaces the sharded run entirely when set
	stateIs string     // what a state is, for the evidence
}

type violation struct {
	Case int64  `json:"case"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

type result struct {
	Cases    int64            `json:"cases"`
	Executed int64            `json:"executed"`
	Trans    int64            `json:"trans"`
	Counters map[string]int64 `json:"counters"`
	Viol     []violation      `json:"viol"`
	NViol    int64            `json:"nviol"`
	Samples  []string         `json:"samples"`
	Capped   bool             `json:"capped"`
}

type R struct {
	id       string
	tier     string
	shard    int64
	shards   int64
	onlyCase int64
	verbose  bool
	n        int64
	cur      []byte // mmapped current case number
	started  int64  // unix nano of the current case start
	states   map[uint64]struct{}
	res      result
	deadline time.Time
	env      []string
	exes     []string // programs that run the cases, instead of this one
	known    []knownFinding
	workDir  string
	mu       sync.Mutex
	curDesc  func() string
}

type T struct {
	r      *R
	failed string
	fails  int
	touch  bool // histories look at and write the element before every step
}

func (r *R) thorough() bool { return r.tier == "thorough" }

type stopEnum struct{}

// Case executes one case if it belongs to this worker.
func (r *R) Case(desc func() string, f func(t *T)) {
	i := r.n
	r.n++
	if r.onlyCase >= 0 {
		if i != r.onlyCase {
			if i > r.onlyCase {
				panic(stopEnum{})
			}
			return
		}
	} else if i%r.shards != r.shard {
		return
	}
	if !r.deadline.IsZero() && r.res.Executed%64 == 0 && time.Now().After(r.deadline) {
		r.res.Capped = true
		panic(stopEnum{})
	}
	if describing {
		fmt.Println(desc())
		panic(stopEnum{})
	}
	binary.LittleEndian.PutUint64(r.cur, uint64(i)+1)
	atomic.StoreInt64(&r.started, time.Now().UnixNano())
	t := &T{r: r}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopEnum); ok {
					panic(e)
				}
				t.failed = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		f(t)
	}()
	atomic.StoreInt64(&r.started, 0)
	r.res.Executed++
	if r.verbose {
		fmt.Printf("case %d: %s\n", i, desc())
	}
	if len(r.res.Samples) < 3 && (r.res.Executed == 1 || r.res.Executed == 200 || r.res.Executed == 2000) {
		s := desc()
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		r.res.Samples = append(r.res.Samples, s)
	}
	if t.failed != "" {
		r.res.NViol++
		if len(r.res.Viol) < 10 {
			r.res.Viol = append(r.res.Viol, violation{i, desc(), t.failed})
		}
		if r.res.NViol > 2000 {
			r.res.Capped = true
			panic(stopEnum{})
		}
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "lib-go-raml") || strings.Contains(l, "/repo/") || strings.Contains(l, "lib-go-yaml") || strings.Contains(l, "yaml.v3") || strings.Contains(l, "main.") {
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Failf records the first failure of the case.
func (t *T) Failf(f string, a ...interface{}) {
	t.fails++
	if t.failed == "" {
		t.failed = fmt.Sprintf(f, a...)
	}
}

// Skip takes the case out of the count of executed cases.
func (t *T) Skip() { t.r.res.Executed-- }

func (t *T) bad() bool { return t.failed != "" }

// State records a distinct observed state.
func (t *T) State(s string) { t.r.State(s) }

func (r *R) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	r.states[h.Sum64()] = struct{}{}
}

// Trans counts model transitions executed against the implementation.
func (t *T) Trans(n int) { t.r.res.Trans += int64(n) }

func (t *T) Count(k string, n int64) { t.r.res.Counters[k] += n }

type knownFinding struct {
	prop, match, text string
}

func loadKnown(path, id string) (out []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=<id> match=<quoted text found in description+message> <what fails>
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " ", 2)
		if len(f) != 2 || f[0] != "property="+id {
			continue
		}
		rest := strings.TrimPrefix(f[1], "match=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		m, _ := strconv.Unquote(q)
		out = append(out, knownFinding{id, m, strings.TrimSpace(rest[len(q):])})
	}
	return
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

const hangLimit = 90 * time.Second

func memLimitHit() (uint64, bool) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc, m.HeapAlloc > 3<<30
}

func workerMain(def *checkDef, r *R, dir string) {
	debug.SetMaxStack(192 << 20)
	debug.SetGCPercent(400)
	f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("cur.%d", r.shard)), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	f.Truncate(8)
	r.cur, err = syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := atomic.LoadInt64(&r.started)
			if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
				fmt.Fprintf(os.Stderr, "HANG in case %d\n", binary.LittleEndian.Uint64(r.cur)-1)
				os.Exit(97)
			}
			if s != 0 {
				if n, hit := memLimitHit(); hit {
					fmt.Fprintf(os.Stderr, "MEMORY %d bytes in case %d\n", n, binary.LittleEndian.Uint64(r.cur)-1)
					os.Exit(98)
				}
			}
		}
	}()
	if p := os.Getenv("VERIF_PROFILE"); p != "" && r.shard == 0 {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopEnum); !ok {
					panic(e)
				}
			}
		}()
		def.fn(r)
	}()
	r.res.Cases = r.n
	binary.LittleEndian.PutUint64(r.cur, 0)
	b, _ := json.Marshal(r.res)
	hs := make([]byte, 0, 8*len(r.states))
	for h := range r.states {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("states.%d", r.shard)), hs, 0644)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("res.%d", r.shard)), b, 0644)
}

type shardOut struct {
	res    *result
	states []byte
	died   bool
	cur    int64
	stderr string
	code   int
}

func (r *R) spawn(exe string, shard, shards int64, only int64, timeout time.Duration) shardOut {
	dir, _ := os.MkdirTemp(r.workDir, "w")
	defer os.RemoveAll(dir)
	args := []string{r.id, "-worker", fmt.Sprintf("%d/%d", shard, shards), "-dir", dir, "-tier", r.tier, "-case", strconv.FormatInt(only, 10)}
	if !r.deadline.IsZero() {
		args = append(args, "-deadline", strconv.FormatInt(r.deadline.Unix(), 10))
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), r.env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var se bytes.Buffer
	cmd.Stderr = &limitWriter{w: &se, n: 200000}
	cmd.Stdout = os.Stderr
	if only >= 0 && r.verbose {
		cmd.Stdout = os.Stdout
	}
	runtime.LockOSThread() // Pdeathsig is tied to the creating thread
	defer runtime.UnlockOSThread()
	err := cmd.Start()
	if err != nil {
		return shardOut{died: true, cur: -1, stderr: err.Error()}
	}
	var timer *time.Timer
	if timeout > 0 {
		timer = time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	}
	err = cmd.Wait()
	if timer != nil {
		timer.Stop()
	}
	out := shardOut{cur: -1, stderr: se.String()}
	if b, e := os.ReadFile(filepath.Join(dir, fmt.Sprintf("cur.%d", shard))); e == nil && len(b) == 8 {
		out.cur = int64(binary.LittleEndian.Uint64(b)) - 1
	}
	if b, e := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", shard))); e == nil && err == nil {
		out.res = new(result)
		if json.Unmarshal(b, out.res) != nil {
			out.res = nil
		}
		out.states, _ = os.ReadFile(filepath.Join(dir, fmt.Sprintf("states.%d", shard)))
	}
	if out.res == nil {
		out.died = true
		if ee, ok := err.(*exec.ExitError); ok {
			out.code = ee.ExitCode()
		}
	}
	return out
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		if len(p) < k {
			k = len(p)
		}
		l.w.Write(p[:k])
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// programs are the executables that run the cases.
func (r *R) programs() []string {
	if r.exes != nil {
		return r.exes
	}
	return []string{os.Args[0]}
}

// describe asks a worker for the description of a case.
func (r *R) describe(c int64) string {
	if c < 0 {
		return "before the first case"
	}
	dir, _ := os.MkdirTemp(r.workDir, "d")
	defer os.RemoveAll(dir)
	cmd := exec.Command(r.programs()[0], r.id, "-describe", strconv.FormatInt(c, 10), "-tier", r.tier)
	cmd.Env = append(os.Environ(), r.env...)
	b, _ := cmd.Output()
	return string(b)
}

func parentMain(def *checkDef, r *R) int {
	start := time.Now()
	shards := int64(runtime.NumCPU())
	if s, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && s > 0 {
		shards = int64(s)
	}
	total := result{Counters: map[string]int64{}}
	states := map[uint64]struct{}{}
	var viols []violation
	var notes []string

	if def.pre != nil {
		def.pre(r)
		viols = append(viols, r.res.Viol...)
		for k, v := range r.res.Counters {
			total.Counters[k] += v
		}
		total.Trans += r.res.Trans
		total.Executed += r.res.Executed
		total.Samples = append(total.Samples, r.res.Samples...)
		for h := range r.states {
			states[h] = struct{}{}
		}
	}
	if def.fn == nil {
		r.exes = []string{}
	}
	for _, exe := range r.programs() {
		outs := make([]shardOut, shards)
		var wg sync.WaitGroup
		for i := int64(0); i < shards; i++ {
			wg.Add(1)
			go func(i int64) {
				defer wg.Done()
				outs[i] = r.spawn(exe, i, shards, -1, 0)
			}(i)
		}
		wg.Wait()
		var cases int64
		for i, o := range outs {
			if o.died {
				// identify and confirm the case on its own, then account for the shard
				if o.cur >= 0 {
					again := r.spawn(exe, 0, 1, o.cur, 4*time.Minute)
					if again.died {
						viols = append(viols, violation{o.cur, r.describe(o.cur), "the process running this case died (exit " + strconv.Itoa(again.code) + "): " + firstLines(again.stderr, 12)})
						continue
					}
					if again.res != nil && again.res.NViol > 0 {
						viols = append(viols, again.res.Viol...)
						continue
					}
				}
				o2 := r.spawn(exe, int64(i), shards, -1, 0)
				if o2.died {
					viols = append(viols, violation{o2.cur, r.describe(o2.cur), "the process died twice while working through the cases up to this one: " + firstLines(o2.stderr, 12)})
					continue
				}
				notes = append(notes, fmt.Sprintf("worker %d was restarted: %s", i, firstLines(o.stderr, 3)))
				o = o2
			}
			if o.res.Cases > cases {
				cases = o.res.Cases
			}
			total.Executed += o.res.Executed
			total.Trans += o.res.Trans
			total.NViol += o.res.NViol
			total.Capped = total.Capped || o.res.Capped
			for k, v := range o.res.Counters {
				total.Counters[k] += v
			}
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, o.res.Samples...)
			}
			viols = append(viols, o.res.Viol...)
			for j := 0; j+8 <= len(o.states); j += 8 {
				states[binary.LittleEndian.Uint64(o.states[j:])] = struct{}{}
			}
		}
		total.Cases = cases
	}

	sort.SliceStable(viols, func(a, b int) bool { return viols[a].Case < viols[b].Case })
	// known findings
	var fresh []violation
	seenKnown := map[string]bool{}
	for _, v := range viols {
		matched := false
		for _, k := range r.known {
			if strings.Contains(v.Desc+"\n"+v.Msg, k.match) {
				seenKnown[k.text] = true
				matched = true
				break
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	for k := range seenKnown {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k)
	}

	// evidence
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"samples":    clip(total.Samples, 4),
		"exhaustive": !total.Capped,
		"rule":       def.rule,
	}
	switch def.level {
	case "model_checking":
		cov["states"] = len(states)
		cov["transitions"] = total.Trans
		cov["traces_validated_against_impl"] = total.Executed
		if def.stateIs != "" {
			cov["state_is"] = def.stateIs
		}
	default:
		cov["evaluations"] = total.Executed
		cov["distinct_nontrivial"] = len(states)
	}
	for k, v := range total.Counters {
		cov[k] = v
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": seed, "level": def.level,
		"coverage": cov, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100,
		"violations": len(fresh), "assumptions": def.assume,
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, r.id+".json"), append(b, '\n'), 0644)

	fmt.Printf("%s tier=%s cases=%d states=%d transitions=%d violations=%d (of %d) wall=%.1fs exhaustive=%v %v\n", r.id, r.tier, total.Executed, len(states), total.Trans, len(fresh), total.NViol, time.Since(start).Seconds(), !total.Capped, total.Counters)
	if len(fresh) == 0 {
		return 0
	}
	repDir := filepath.Join(evDir, "replay")
	os.MkdirAll(repDir, 0755)
	for i, v := range fresh {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		p := filepath.Join(repDir, fmt.Sprintf("%s-%d.txt", r.id, i+1))
		txt := fmt.Sprintf("property: %s\ncase: %d\nreplay: cd %s && VERIF_TIER=%s ./check.sh %s -case %d\n\nmessage:\n%s\n\ncase:\n%s\n", r.id, v.Case, verifDir(), r.tier, r.id, v.Case, v.Msg, v.Desc)
		os.WriteFile(p, []byte(txt), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, p)
		if i < 3 {
			fmt.Printf("  case %d: %s\n", v.Case, firstLines(v.Msg, 3))
		}
	}
	return 1
}

func clip(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	if s == nil {
		s = []string{}
	}
	return s
}

var checks = map[string]*checkDef{}

func reg(d *checkDef) { checks[d.id] = d }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc ID [-tier quick|thorough] [-case N]")
		os.Exit(2)
	}
	if h, ok := helpers[os.Args[1]]; ok {
		h(os.Args[2:])
		return
	}
	id := os.Args[1]
	def := checks[id]
	if def == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	r := &R{id: id, tier: os.Getenv("VERIF_TIER"), onlyCase: -1, shards: 1, states: map[uint64]struct{}{}, res: result{Counters: map[string]int64{}}}
	worker, dir := "", ""
	describe := int64(-1)
	deadline := int64(0)
	for i := 2; i < len(os.Args); i++ {
		a := os.Args[i]
		next := func() string { i++; return os.Args[i] }
		switch a {
		case "-tier":
			r.tier = next()
		case "-case":
			r.onlyCase, _ = strconv.ParseInt(next(), 10, 64)
		case "-worker":
			worker = next()
		case "-dir":
			dir = next()
		case "-describe":
			describe, _ = strconv.ParseInt(next(), 10, 64)
		case "-deadline":
			deadline, _ = strconv.ParseInt(next(), 10, 64)
		case "-v":
			r.verbose = true
		}
	}
	if r.tier != "thorough" {
		r.tier = "quick"
	}
	if deadline > 0 {
		r.deadline = time.Unix(deadline, 0)
	}
	if describe >= 0 {
		r.onlyCase = describe
		r.cur = make([]byte, 8)
		describing = true
		func() {
			defer func() { recover() }()
			def.fn(r)
		}()
		return
	}
	if worker != "" {
		fmt.Sscanf(worker, "%d/%d", &r.shard, &r.shards)
		workerMain(def, r, dir)
		return
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r.workDir = tmp
	r.known = loadKnown(filepath.Join(verifDir(), "known_findings.txt"), id)
	if r.onlyCase >= 0 {
		if def.pre != nil {
			def.pre(r)
		}
		fmt.Println(r.describe(r.onlyCase))
		code := 0
		for _, exe := range r.programs() {
			o := r.spawn(exe, 0, 1, r.onlyCase, 10*time.Minute)
			if o.died {
				fmt.Println("process died:", o.stderr)
				code = 1
			} else {
				for _, v := range o.res.Viol {
					fmt.Println("FAILED:", v.Msg)
					code = 1
				}
			}
		}
		os.RemoveAll(tmp)
		os.Exit(code)
	}
	// internal deadline: end with what was covered rather than with no answer
	lim := 780 * time.Second
	if r.tier == "thorough" {
		lim = 3 * time.Hour
	}
	r.deadline = time.Now().Add(lim)
	code := parentMain(def, r)
	os.RemoveAll(tmp)
	os.Exit(code)
}

var describing bool

var helpers = map[string]func(args []string){}
