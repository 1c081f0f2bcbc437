package main

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// ---------------------------------------------------------------------------------
// job protocol between the coordinating process and its workers

type Job struct {
	Scenario int
	Prefixes [][]uint16
	Hashes   []Hash
	// Extra enumeration
	Extra    int // index+1, 0 = none
	From, To int
	Tier     string
	Roots    bool // judge the initial states only
}

type Child struct {
	Op uint16
	H  Hash
	OK bool // the state can be continued
}

type Found struct {
	Rule, Msg string
	Trace     []uint16
	Case      int
}

type Result struct {
	Children   [][]Child
	Steps      int
	Refused    int
	ByKind     map[string][2]int
	Validated  int
	Diverged   []string
	Found      []Found
	States     int
	Fatal      string
	RootHashes []Hash
	RootNames  []string
}

// Extra is a complete enumeration of N numbered cases.
type Extra struct {
	Name string
	N    func(tier string) int
	Run  func(tier string, i int, fail Fail) (states, transitions int)
	Note string
}

type workerState struct {
	p    *Property
	envs map[int]*Env
	ops  map[int][]*Op
	seen map[int]map[Hash]bool
	// what is being executed
	cur     []uint16
	curCase int
}

func (w *workerState) env(i int) (*Env, []*Op) {
	if e, ok := w.envs[i]; ok {
		return e, w.ops[i]
	}
	e, ops := w.p.Scenarios[i].start()
	w.envs[i], w.ops[i] = e, ops
	w.seen[i] = map[Hash]bool{}
	return e, ops
}

// reach re-executes a trace from the scenario's initial state.
func (e *Env) reach(ops []*Op, trace []uint16) (sdk.Context, bool) {
	ctx, _ := e.Base.CacheContext()
	ctx = ctx.WithEventManager(sdk.NewEventManager())
	if e.Sc.InitN > 0 {
		ctx, _ = e.Sc.Init(e, ctx, int(trace[0]))
		trace = trace[1:]
	}
	for _, t := range trace {
		var ok bool
		ctx, ok = e.apply(ctx, ops[t])
		if !ok {
			return ctx, false
		}
	}
	return ctx, true
}

func (w *workerState) run(j *Job) (res *Result) {
	res = &Result{ByKind: map[string][2]int{}}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(setupErr); ok {
				res.Found = append(res.Found, Found{Rule: "opening", Msg: se.m})
				return
			}
			// the code under test panics where it is merely read, or a reference
			// value cannot be formed from the state it has produced
			res.Found = append(res.Found, Found{Rule: "panic", Msg: fmt.Sprintf("%v\n%s", r, tailFront(string(debug.Stack()), 3000)), Trace: w.cur, Case: w.curCase})
		}
	}()
	w.cur, w.curCase = nil, 0
	if j.Extra > 0 {
		x := w.p.Extra[j.Extra-1]
		for i := j.From; i < j.To; i++ {
			i := i
			w.curCase = i
			s, t := x.Run(j.Tier, i, func(rule, format string, args ...any) {
				res.Found = append(res.Found, Found{Rule: rule, Msg: fmt.Sprintf(format, args...), Case: i})
			})
			res.States += s
			res.Steps += t
		}
		return
	}
	e, ops := w.env(j.Scenario)
	seen := w.seen[j.Scenario]
	if j.Roots {
		n := e.Sc.InitN
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			ctx, _ := e.Base.CacheContext()
			name := "initial"
			tr := []uint16{}
			if e.Sc.InitN > 0 {
				tr = []uint16{uint16(i)}
				w.cur = tr
				ctx, name = e.Sc.Init(e, ctx, i)
			}
			res.RootHashes = append(res.RootHashes, e.fingerprint(ctx))
			res.RootNames = append(res.RootNames, name)
			s := e.Snapshot(ctx)
			for _, v := range judgeState(w.p, e, ctx, s) {
				res.Found = append(res.Found, Found{Rule: v.Rule, Msg: v.Msg, Trace: tr})
			}
		}
		return
	}
	for pi, prefix := range j.Prefixes {
		w.cur = prefix
		ctx, ok := e.reach(ops, prefix)
		h := e.fingerprint(ctx)
		if !ok || h != j.Hashes[pi] {
			res.Diverged = append(res.Diverged, fmt.Sprint(traceNames(e, ops, prefix)))
		} else {
			res.Validated++
		}
		pre := e.Snapshot(ctx)
		var kids []Child
		for oi, op := range ops {
			c, _ := ctx.CacheContext()
			c = c.WithEventManager(sdk.NewEventManager())
			if op.Enable != nil && !op.Enable(e, c, pre) {
				continue
			}
			if op.DtFn != nil && op.DtFn(e, c) <= 0 {
				continue
			}
			tr := append(append([]uint16{}, prefix...), uint16(oi))
			w.cur = tr
			c2, steps := e.observe(c, op, pre)
			for _, s := range steps {
				s.PreC = ctx
				s.Trace = tr
			}
			res.Steps += len(steps)
			last := steps[len(steps)-1]
			k := res.ByKind[op.Kind]
			k[0]++
			if !last.OK() {
				k[1]++
				res.Refused++
			}
			res.ByKind[op.Kind] = k
			viols := judge(w.p, e, steps)
			cont := last.Post != nil
			var hh Hash
			if cont {
				hh = e.fingerprint(c2)
				if !seen[hh] {
					seen[hh] = true
					viols = append(viols, judgeState(w.p, e, c2, last.Post)...)
				}
				kids = append(kids, Child{Op: uint16(oi), H: hh, OK: true})
			}
			for _, v := range viols {
				res.Found = append(res.Found, Found{Rule: v.Rule, Msg: v.Msg, Trace: tr})
			}
		}
		res.Children = append(res.Children, kids)
	}
	return
}

func traceNames(e *Env, ops []*Op, trace []uint16) (l []string) {
	t := trace
	if e.Sc.InitN > 0 && len(t) > 0 {
		ctx, _ := e.Base.CacheContext()
		_, n := e.Sc.Init(e, ctx, int(t[0]))
		l = append(l, "init:"+n)
		t = t[1:]
	}
	for _, x := range t {
		l = append(l, ops[x].Name)
	}
	return
}

func workerMain(p *Property) {
	debug.SetGCPercent(200)
	if f := os.Getenv("MCPROF"); f != "" {
		fh, _ := os.Create(f)
		_ = pprof.StartCPUProfile(fh)
		go func() { time.Sleep(20 * time.Second); pprof.StopCPUProfile(); fh.Close() }()
	}
	runtime.GOMAXPROCS(2)
	in := gob.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	// keep the protocol channel clean: anything the code prints goes to stderr
	proto := os.Stdout
	os.Stdout = os.Stderr
	bw := bufio.NewWriterSize(proto, 1<<20)
	out := gob.NewEncoder(bw)
	w := &workerState{p: p, envs: map[int]*Env{}, ops: map[int][]*Op{}, seen: map[int]map[Hash]bool{}}
	for {
		var j Job
		if err := in.Decode(&j); err != nil {
			return
		}
		r := w.run(&j)
		if err := out.Encode(r); err != nil {
			return
		}
		bw.Flush()
	}
}

// ---------------------------------------------------------------------------------

type wproc struct {
	cmd *exec.Cmd
	enc *gob.Encoder
	bw  *bufio.Writer
	dec *gob.Decoder
}

type coord struct {
	p        *Property
	tier     string
	nw       int
	scratch  string
	patience time.Duration // longest time a piece of work may take
	procs    []*wproc
	free     chan *wproc
	deadline time.Time
	started  time.Time
	all      bool

	mu        sync.Mutex
	states    int
	trans     int
	refused   int
	validated int
	diverged  []string
	byKind    map[string][2]int
	found     []FoundX
	rulesSeen map[string]int
	scen      []map[string]any
	complete  bool
	fatal     string
}

type FoundX struct {
	Found
	Scenario string
	Names    []string
	Known    string
}

func (c *coord) spawn() *wproc {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-worker", "-prop", c.p.ID, "-tier", c.tier)
	cmd.Dir = c.scratch
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "HOME="+c.scratch, "GOMEMLIMIT=2500MiB")
	ip, _ := cmd.StdinPipe()
	op, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	bw := bufio.NewWriterSize(ip, 1<<20)
	return &wproc{cmd: cmd, bw: bw, enc: gob.NewEncoder(bw), dec: gob.NewDecoder(bufio.NewReaderSize(op, 1<<20))}
}

const maxRSS = 7 << 30

// rss returns the memory a process occupies.
func rss(pid int) int64 {
	bz, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(bz), &size, &res)
	return res * int64(os.Getpagesize())
}

func (c *coord) do(j *Job) *Result {
	w := <-c.free
	defer func() { c.free <- w }()
	if err := w.enc.Encode(j); err != nil {
		return &Result{Fatal: "worker write: " + err.Error()}
	}
	w.bw.Flush()
	var r Result
	hung, big := false, false
	t := time.AfterFunc(c.patience, func() { hung = true; _ = w.cmd.Process.Kill() })
	over := make(chan bool)
	go func() { // runaway work must not take the other processes down
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-over:
				return
			case <-tick.C:
				if rss(w.cmd.Process.Pid) > maxRSS {
					big = true
					_ = w.cmd.Process.Kill()
					return
				}
			}
		}
	}()
	err := w.dec.Decode(&r)
	close(over)
	if t.Stop(); err == nil {
		return &r
	}
	// the code under test took the process down or never came back
	st := w.cmd.Wait()
	f := Found{Rule: "crash", Msg: fmt.Sprintf("the process executing this work died: %v", st), Case: j.From}
	if big {
		f = Found{Rule: "memory", Msg: fmt.Sprintf("this work takes more than %d GiB", maxRSS>>30), Case: j.From}
	} else if hung {
		f = Found{Rule: "hang", Msg: fmt.Sprintf("this work was not finished after %s", c.patience), Case: j.From}
	} else if st != nil && strings.Contains(st.Error(), "killed") {
		w = c.spawn()
		return &Result{Fatal: "worker killed from outside: " + st.Error()}
	}
	if len(j.Prefixes) > 0 {
		f.Trace = j.Prefixes[0]
	}
	w = c.spawn()
	c.mu.Lock()
	c.procs = append(c.procs, w)
	c.mu.Unlock()
	return &Result{Found: []Found{f}, Fatal: "worker lost"}
}

func (c *coord) absorb(r *Result, sc string, names func([]uint16) []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if r.Fatal != "" && c.fatal == "" && len(r.Found) == 0 {
		c.fatal = r.Fatal
	}
	c.trans += r.Steps
	c.refused += r.Refused
	c.validated += r.Validated
	c.states += r.States
	c.diverged = append(c.diverged, r.Diverged...)
	for k, v := range r.ByKind {
		x := c.byKind[k]
		x[0] += v[0]
		x[1] += v[1]
		c.byKind[k] = x
	}
	for _, f := range r.Found {
		key := f.Rule
		c.rulesSeen[key]++
		if c.rulesSeen[key] > 400 { // bound memory; the count is kept
			continue
		}
		c.found = append(c.found, FoundX{Found: f, Scenario: sc, Names: names(f.Trace)})
	}
}

func (c *coord) stop() bool {
	if time.Now().After(c.deadline) {
		return true
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fatal != "" {
		return true
	}
	if c.all {
		return false
	}
	for _, f := range c.found {
		if matchKnown(c.p.ID, &f) == nil {
			return true
		}
	}
	return false
}

func (c *coord) explore(si int) {
	sc := c.p.Scenarios[si]
	t0 := time.Now()
	depth := sc.Quick
	if c.tier == "thorough" {
		depth = sc.Thor
		if depth == 0 {
			depth = sc.Quick + 2
		}
	}
	info := map[string]any{"scenario": sc.Name, "note": sc.Note, "depth_target": depth}
	var opNames []string
	var rootNames []string
	names := func(t []uint16) (l []string) {
		if sc.InitN > 0 && len(t) > 0 {
			if int(t[0]) < len(rootNames) {
				l = append(l, "init:"+rootNames[t[0]])
			}
			t = t[1:]
		}
		for _, x := range t {
			if int(x) < len(opNames) {
				l = append(l, opNames[x])
			}
		}
		return
	}
	// operation names are obtained without starting an application here
	opNames = scenarioOpNames(c, si)
	info["operations"] = len(opNames)
	r := c.do(&Job{Scenario: si, Roots: true, Tier: c.tier})
	rootNames = r.RootNames
	c.absorb(r, sc.Name, names)
	if r.Fatal != "" {
		return
	}
	seen := map[Hash]struct{}{}
	type node struct {
		t []uint16
		h Hash
	}
	var frontier []node
	for i, h := range r.RootHashes {
		if _, ok := seen[h]; ok {
			continue
		}
		seen[h] = struct{}{}
		if sc.InitN > 0 {
			frontier = append(frontier, node{[]uint16{uint16(i)}, h})
		} else {
			frontier = append(frontier, node{nil, h})
		}
	}
	c.mu.Lock()
	c.states += len(seen)
	c.mu.Unlock()
	done := 0
	partial := ""
	var perDepth []int
	perDepth = append(perDepth, len(frontier))
	var sampleTrace []string
	for d := 1; d <= depth && len(frontier) > 0 && !c.stop(); d++ {
		var next []node
		var mu sync.Mutex
		var wg sync.WaitGroup
		batch := len(frontier)/(c.nw*3) + 1
		if batch > 48 {
			batch = 48
		}
		expanded := 0
		sem := make(chan struct{}, c.nw*2)
		for i := 0; i < len(frontier); i += batch {
			if c.stop() {
				break
			}
			j := i + batch
			if j > len(frontier) {
				j = len(frontier)
			}
			part := frontier[i:j]
			sem <- struct{}{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				job := &Job{Scenario: si, Tier: c.tier}
				for _, n := range part {
					job.Prefixes = append(job.Prefixes, n.t)
					job.Hashes = append(job.Hashes, n.h)
				}
				r := c.do(job)
				c.absorb(r, sc.Name, names)
				if r.Fatal != "" {
					return
				}
				mu.Lock()
				defer mu.Unlock()
				expanded += len(part)
				for pi, kids := range r.Children {
					for _, k := range kids {
						if _, ok := seen[k.H]; ok {
							continue
						}
						seen[k.H] = struct{}{}
						c.mu.Lock()
						c.states++
						c.mu.Unlock()
						if d < depth {
							next = append(next, node{append(append([]uint16{}, part[pi].t...), k.Op), k.H})
						} else if len(sampleTrace) == 0 {
							sampleTrace = names(append(append([]uint16{}, part[pi].t...), k.Op))
						}
					}
				}
			}()
		}
		wg.Wait()
		if expanded < len(frontier) {
			partial = fmt.Sprintf("depth %d: %d of %d states expanded", d, expanded, len(frontier))
			c.mu.Lock()
			c.complete = false
			c.mu.Unlock()
			break
		}
		done = d
		perDepth = append(perDepth, len(seen))
		// deterministic order for the next level
		sort.Slice(next, func(a, b int) bool { return lessTrace(next[a].t, next[b].t) })
		frontier = next
	}
	if done < depth && len(frontier) > 0 {
		c.mu.Lock()
		c.complete = false
		c.mu.Unlock()
	}
	info["depth_completed"] = done
	info["states"] = len(seen)
	info["states_cumulative_per_depth"] = perDepth
	if partial != "" {
		info["partial"] = partial
	}
	info["sample_trace"] = sampleTrace
	info["wall_s"] = round1(time.Since(t0).Seconds())
	c.mu.Lock()
	c.scen = append(c.scen, info)
	c.mu.Unlock()
	fmt.Printf("  scenario %-28s depth %d/%d states %d ops %d %s (%.1fs)\n", sc.Name, done, depth, len(seen), len(opNames), partial, time.Since(t0).Seconds())
}

func lessTrace(a, b []uint16) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func scenarioOpNames(c *coord, si int) (l []string) {
	// Ops never need a started application to be named
	setPrefixes()
	for _, o := range c.p.Scenarios[si].Ops(&Env{Sc: c.p.Scenarios[si]}) {
		l = append(l, o.Name)
	}
	return
}

func (c *coord) runExtra(xi int) {
	x := c.p.Extra[xi]
	t0 := time.Now()
	n := x.N(c.tier)
	batch := n/(c.nw*6) + 1
	if batch > 512 {
		batch = 512
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, c.nw*2)
	doneCases := 0
	s0, tr0 := c.states, c.trans
	for i := 0; i < n; i += batch {
		if c.stop() {
			break
		}
		i := i
		j := i + batch
		if j > n {
			j = n
		}
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := c.do(&Job{Extra: xi + 1, From: i, To: j, Tier: c.tier})
			c.absorb(r, "extra:"+x.Name, func([]uint16) []string { return nil })
			if r.Fatal == "" {
				c.mu.Lock()
				doneCases += j - i
				c.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	info := map[string]any{"enumeration": x.Name, "note": x.Note, "cases": n, "cases_completed": doneCases,
		"states": c.states - s0, "transitions": c.trans - tr0, "wall_s": round1(time.Since(t0).Seconds())}
	if doneCases < n {
		c.complete = false
	}
	c.scen = append(c.scen, info)
	fmt.Printf("  enumeration %-25s cases %d/%d states %d transitions %d (%.1fs)\n", x.Name, doneCases, n, c.states-s0, c.trans-tr0, time.Since(t0).Seconds())
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.Bool("worker", false, "internal")
	replay := flag.String("replay", "", "replay file")
	all := flag.Bool("all", false, "keep exploring after a violation and print one example per rule")
	nw := flag.Int("workers", runtime.NumCPU(), "worker processes")
	budget := flag.Int("budget", 0, "seconds (0 = default of the tier)")
	root := flag.String("root", "/verif", "verif directory")
	scratch := flag.String("scratch", "", "scratch directory")
	only := flag.String("scenario", "", "only this scenario / enumeration (development)")
	depth := flag.Int("depth", 0, "override the depth (development)")
	sub := flag.String("sub", "", "internal: isolated sub process task")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	buildProps()
	if *list {
		for _, k := range sortedKeys(props) {
			fmt.Println(k)
		}
		return
	}
	if *sub != "" {
		subMain(*sub)
		return
	}
	p, ok := props[*prop]
	if !ok && *replay == "" {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker {
		workerMain(p)
		return
	}
	loadKnown(filepath.Join(*root, "known_findings.json"))
	if *replay != "" {
		os.Exit(replayMain(*replay))
	}
	if *depth > 0 {
		for _, s := range p.Scenarios {
			s.Quick, s.Thor = *depth, *depth
		}
	}
	own := false
	if *scratch == "" {
		d, err := os.MkdirTemp("", "verifmc")
		if err != nil {
			panic(err)
		}
		*scratch = d
		own = true
	}
	b := 300
	if *tier == "thorough" {
		b = 1500
	}
	if *budget > 0 {
		b = *budget
	}
	if *nw > 16 {
		*nw = 16
	}
	c := &coord{p: p, tier: *tier, nw: *nw, scratch: *scratch, started: time.Now(), all: *all,
		deadline: time.Now().Add(time.Duration(b) * time.Second), byKind: map[string][2]int{}, rulesSeen: map[string]int{}, complete: true}
	c.free = make(chan *wproc, *nw)
	c.patience = 420 * time.Second
	if *tier == "thorough" {
		c.patience = time.Hour
	}
	for i := 0; i < *nw; i++ {
		w := c.spawn()
		c.procs = append(c.procs, w)
		c.free <- w
	}
	total := time.Duration(b) * time.Second
	nparts := len(p.Extra) + len(p.Scenarios)
	// every part gets an equal share of the time that is left when it starts
	part := 0
	share := func() {
		left := c.started.Add(total).Sub(time.Now())
		c.deadline = time.Now().Add(left / time.Duration(nparts-part))
		part++
	}
	for i, x := range p.Extra {
		share()
		if *only == "" || *only == x.Name {
			c.runExtra(i)
		}
	}
	for i, s := range p.Scenarios {
		share()
		if *only == "" || *only == s.Name {
			c.explore(i)
		}
	}
	for _, w := range c.procs {
		_ = w.cmd.Process.Kill()
		_ = w.cmd.Wait()
	}
	if own {
		_ = os.RemoveAll(*scratch)
	}
	os.Exit(c.report(*root))
}

func (c *coord) report(root string) int {
	code := 0
	if c.p.ID == "X02" {
		for _, d := range c.diverged {
			c.found = append(c.found, FoundX{Found: Found{Rule: "nondeterministic-replay", Msg: "re-executing the same operations gave a different state"}, Names: []string{d}})
		}
	}
	nviol := 0
	knownHit := map[string]bool{}
	printed := map[string]int{}
	// shortest traces first
	sort.SliceStable(c.found, func(i, j int) bool { return len(c.found[i].Trace) < len(c.found[j].Trace) })
	var samples []any
	for i := range c.found {
		f := &c.found[i]
		if kf := matchKnown(c.p.ID, f); kf != nil {
			knownHit[kf.ID] = true
			continue
		}
		nviol++
		printed[f.Rule]++
		if printed[f.Rule] > 1 {
			continue
		}
		dir := filepath.Join(root, "evidence", "replay")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, c.p.ID+"-"+strconv.Itoa(len(printed))+".json")
		bz, _ := json.MarshalIndent(map[string]any{"property": c.p.ID, "scenario": f.Scenario, "rule": f.Rule, "message": f.Msg,
			"trace": f.Trace, "operations": f.Names, "case": f.Case, "tier": c.tier}, "", " ")
		_ = os.WriteFile(path, bz, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, path)
		fmt.Printf("  rule %s in scenario %s case %d\n  %s\n  trace: %s\n", f.Rule, f.Scenario, f.Case, f.Msg, strings.Join(f.Names, " ; "))
		code = 1
	}
	for _, kf := range known {
		if kf.Property == c.p.ID && kf.Status == "finding" && (knownHit[kf.ID]) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.p.ID, kf.What)
		}
	}
	if c.fatal != "" && code == 0 {
		fmt.Fprintf(os.Stderr, "FATAL: %s\n", c.fatal)
		code = 2
	}
	for _, s := range c.scen {
		if t, ok := s["sample_trace"].([]string); ok && len(t) > 0 {
			samples = append(samples, map[string]any{"scenario": s["scenario"], "trace": t})
		} else if s["enumeration"] != nil {
			samples = append(samples, map[string]any{"enumeration": s["enumeration"], "cases": s["cases"]})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	kinds := map[string]any{}
	for k, v := range c.byKind {
		kinds[k] = map[string]int{"executed": v[0], "refused": v[1]}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.p.ID, "tier": c.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": c.states, "transitions": c.trans, "refused_operations": c.refused,
			"traces_validated_against_impl": c.validated, "replay_divergences": len(c.diverged),
			"samples": samples, "exhaustive": c.complete, "parts": c.scen, "operations_by_kind": kinds,
			"method": "the states and transitions are those of the real application; every expanded state is re-established by re-executing its trace and compared by fingerprint",
		},
		"assumptions": c.p.Assume, "wall_s": round1(time.Since(c.started).Seconds()), "violations": nviol,
	}
	bz, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", c.p.ID+".json"), bz, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s: states %d transitions %d validated %d diverged %d complete %v violations %d (%.1fs)\n", c.p.ID, c.tier, c.states, c.trans, c.validated, len(c.diverged), c.complete, nviol, time.Since(c.started).Seconds())
	return code
}

func replayMain(path string) int {
	bz, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var r struct {
		Property, Scenario, Rule, Message, Tier string
		Operations                              []string
		Trace                                   []uint16
		Case                                    int
	}
	if err := json.Unmarshal(bz, &r); err != nil {
		panic(err)
	}
	p := props[r.Property]
	bad := false
	if strings.HasPrefix(r.Scenario, "extra:") {
		for _, x := range p.Extra {
			if "extra:"+x.Name == r.Scenario {
				x.Run(r.Tier, r.Case, func(rule, f string, a ...any) {
					bad = true
					fmt.Printf("  %s: %s\n", rule, fmt.Sprintf(f, a...))
				})
			}
		}
	}
	for _, sc := range p.Scenarios {
		if sc.Name != r.Scenario {
			continue
		}
		e, ops := sc.start()
		ctx, _ := e.Base.CacheContext()
		tr := r.Trace
		if sc.InitN > 0 {
			var n string
			ctx, n = sc.Init(e, ctx, int(tr[0]))
			fmt.Println("init", n)
			tr = tr[1:]
		}
		pre := e.Snapshot(ctx)
		for _, v := range judgeState(p, e, ctx, pre) {
			bad = true
			fmt.Printf("  initial %s: %s\n", v.Rule, v.Msg)
		}
		for _, t := range tr {
			fmt.Println("op", ops[t].Name)
			preC := ctx
			c2, _ := ctx.CacheContext()
			c2, steps := e.observe(c2, ops[t], pre)
			for _, s := range steps {
				s.PreC = preC
				s.Trace = tr
				fmt.Printf("   %s err=%v panic=%s\n", s.Phase, s.Err, s.Panic)
			}
			vs := judge(p, e, steps)
			last := steps[len(steps)-1]
			if last.Post != nil {
				vs = append(vs, judgeState(p, e, c2, last.Post)...)
			}
			for _, v := range vs {
				bad = true
				fmt.Printf("   VIOLATED %s: %s\n", v.Rule, v.Msg)
			}
			ctx = c2
			pre = last.Post
			if pre == nil {
				break
			}
		}
	}
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	}
	return 0
}
