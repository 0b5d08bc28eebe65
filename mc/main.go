// Command mc explores executions of the real program exhaustively within bounds and compares every
// one of them with a reference model.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Ctx is what a check knows about a case.
type Ctx struct {
	c     *Case
	e     *exp
	first *Obs // the run of the default schedule
	memo  map[string]string
}

func (x *Ctx) exp() *exp {
	if x.e == nil {
		x.e = expect(x.c)
	}

	return x.e
}

// Prop is a property with its cases and its oracle.
type Prop struct {
	ID    string
	Level string
	Race  bool
	Rule  string
	Note  string // assumptions
	Cases func(g *Gen)
	Check func(x *Ctx, o *Obs) string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	mix(p)
	scheduled(p)
	props[p.ID] = p
}

// Gen hands out cases.
type Gen struct {
	thorough bool
	n        int
	yield    func(i int, c func() *Case) bool
	done     bool
}

// add emits a case built on demand.
func (g *Gen) add(f func() *Case) {
	if g.done {
		return
	}

	if !g.yield(g.n, f) {
		g.done = true
	}

	g.n++
}

func (g *Gen) emit(c *Case) { g.add(func() *Case { return c }) }

type violation struct {
	Prop   string `json:"property"`
	Msg    string `json:"message"`
	Case   *Case  `json:"case"`
	Prefix []int  `json:"schedule"`
	Cmd    string `json:"command,omitempty"`
	Died   bool   `json:"died,omitempty"`
}

type report struct {
	T       string     `json:"t"` // s start, v violation, d chunk done, h hang, o out of memory
	I       int        `json:"i"`
	V       *violation `json:"v,omitempty"`
	Stats   stats      `json:"stats,omitempty"`
	Cases   int        `json:"cases,omitempty"`
	Hashes  []uint64   `json:"hashes,omitempty"`
	Outs    []uint64   `json:"outs,omitempty"`
	Samples []sample   `json:"samples,omitempty"`
	End     bool       `json:"end,omitempty"`
	Bye     bool       `json:"bye,omitempty"` // the worker has grown, another one goes on
	Late    bool       `json:"late,omitempty"`
	OK      int        `json:"ok,omitempty"`
	Failed  int        `json:"failed,omitempty"`
	Note    string     `json:"note,omitempty"`
}

type sample struct {
	Case  *Case  `json:"case"`
	Cmd   string `json:"args"`
	Execs int    `json:"executions"`
	Out   string `json:"observed"`
}

var (
	fProp     = flag.String("prop", "", "")
	fTier     = flag.String("tier", "quick", "")
	fWorker   = flag.Bool("worker", false, "")
	fReplay   = flag.String("replay", "", "")
	fOnce     = flag.Bool("once", false, "")
	fEvidence = flag.String("evidence", "", "")
	fReplays  = flag.String("replays", "", "")
	fKnown    = flag.String("known", "", "")
	fUntil    = flag.Int64("until", 0, "")
	fBudget   = flag.Int("budget", 0, "")
	fFree     = flag.Bool("free", false, "")
	fVerbose  = flag.Bool("v", false, "")
	fJobs     = flag.Int("j", 0, "")
	fKeep     = flag.Bool("keep-going", false, "")
)

var (
	execStart atomic.Int64
	execLimit = int64(20 * time.Second)
)

func main() {
	flag.Parse()

	freeMode = *fFree

	if fn := os.Getenv("MC_PROF"); fn != "" {
		f, _ := os.Create(fn)
		_ = pprof.StartCPUProfile(f)

		time.AfterFunc(8*time.Second, func() { pprof.StopCPUProfile(); _ = f.Close() })
	}

	switch {
	case *fWorker:
		os.Exit(workerMain())
	case *fReplay != "":
		os.Exit(replayMain())
	default:
		os.Exit(coordMain())
	}
}

// --- one case ---

// runCase explores a case; it returns the first violation.
func runCase(p *Prop, c *Case, stop func() bool, rep *report) *violation {
	x := &Ctx{c: c, memo: map[string]string{}}

	var v *violation

	outs := map[uint64]bool{}

	run := func(plan rt.Plan) rt.Result {
		execStart.Store(time.Now().UnixNano())
		o := c.exec(plan)
		execStart.Store(0)

		if o.Outcome == rt.OutPruned || o.Outcome == rt.OutDiverged {
			return o.Result
		}

		if x.first == nil {
			x.first = o
		}

		outs[o.hash()] = true

		if o.ok() {
			rep.OK++
		} else {
			rep.Failed++
		}

		if v == nil {
			if msg := checkAll(p, x, o); msg != "" {
				v = &violation{Prop: p.ID, Msg: msg, Case: c, Prefix: decisions(o.Steps), Cmd: strings.Join(c.args(), " ")}
			}
		}

		return o.Result
	}

	halt := func() bool { return v != nil || stop() }

	max := c.Max
	if max == 0 {
		max = 1 << 30
	}

	mode := c.Mode
	if freeMode {
		mode = ""
	}

	var st stats

	switch mode {
	case "dpor":
		d := dpor{run: run, base: c.basePlan(), max: max, stop: halt}
		st = d.explore()
	case "pb", "db", "env":
		b := bounded{run: run, base: c.basePlan(), max: max, stop: halt, bound: c.Bound, delay: mode == "db", env: mode == "env"}
		st = b.explore()
	default:
		pl := c.basePlan()
		pl.Record = c.Map == 2 || c.Map == 4 || strings.Contains(c.Heap, "?")
		res := run(pl)
		st = stats{Execs: 1, Steps: res.NSteps, States: 1, MaxThread: res.Threads}
	}

	rep.Stats.add(st)

	for h := range outs {
		rep.Outs = append(rep.Outs, h)
	}

	if len(rep.Samples) == 0 && x.first != nil {
		s := sample{Case: c, Cmd: strings.Join(c.args(), " "), Execs: st.Execs, Out: x.first.brief()}
		rep.Samples = append(rep.Samples, s)
	}

	return v
}

func (o *Obs) hash() uint64 {
	h := fnv.New64a()
	_, _ = io.WriteString(h, o.Outcome+itoa(o.ExitCode)+o.Stdout)

	for _, n := range sortedKeys(o.Files) {
		_, _ = io.WriteString(h, n)
		_, _ = h.Write(o.Files[n])
	}

	if o.DB != nil {
		b, _ := json.Marshal(o.DB)
		_, _ = h.Write(b)
	}

	return h.Sum64()
}

func (o *Obs) brief() string {
	s := o.Outcome
	if o.Outcome == rt.OutExit {
		s += itoa(o.ExitCode)
	}

	for _, n := range sortedKeys(o.Files) {
		s += " | " + n + ": " + strconv.Quote(clip(string(o.Files[n])))
	}

	return s
}

func caseKey(c *Case) string {
	b, _ := json.Marshal(c)
	return string(b)
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	_, _ = io.WriteString(h, s)

	return h.Sum64()
}

// --- worker ---

func watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)

		if st := execStart.Load(); st != 0 && time.Now().UnixNano()-st > execLimit {
			fmt.Println(`{"t":"h"}`)
			os.Exit(21)
		}

		if memUsed() > 3<<30 {
			fmt.Println(`{"t":"o"}`)
			os.Exit(22)
		}
	}
}

// memUsed is the resident memory of the process.
func memUsed() uint64 {
	if b, err := os.ReadFile("/proc/self/statm"); err == nil {
		if f := strings.Fields(string(b)); len(f) > 1 {
			n, _ := strconv.ParseUint(f[1], 10, 64)

			return n * uint64(os.Getpagesize())
		}
	}

	return 0
}

func limits() {
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(200)
}

func workerMain() int {
	p := props[*fProp]
	limits()

	d, err := scratch()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	defer os.RemoveAll(d)

	go watchdog()

	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)

	var (
		a, b int
		rep  = report{T: "d"}
		ends bool
	)

	next := func() bool {
		if !in.Scan() {
			ends = true
			return false
		}

		_, err := fmt.Sscanf(in.Text(), "%d %d", &a, &b)

		return err == nil
	}

	late := func() bool { return *fUntil != 0 && time.Now().Unix() >= *fUntil }

	if !next() {
		return 0
	}

	g := &Gen{thorough: *fTier == "thorough"}
	g.yield = func(i int, f func() *Case) bool {
		for i >= b {
			rep.I = b
			rep.Bye = memUsed() > 1<<30
			_ = out.Encode(rep)

			if rep.Bye {
				ends = true
				return false
			}

			rep = report{T: "d"}

			if !next() {
				return false
			}
		}

		if i < a {
			return true
		}

		if late() {
			rep.Late = true
			return true
		}

		c := f()

		_ = out.Encode(report{T: "s", I: i})

		before, t0 := rep.Stats.Execs, time.Now()
		v := runCase(p, c, late, &rep)

		if *fVerbose {
			_ = out.Encode(report{T: "c", I: i, Cases: rep.Stats.Execs - before, Note: fmt.Sprintf("%s %s C=%d lines=%d %.1fs", c.Tag, c.Mode,
				c.Opts.Concurrency, strings.Count(c.Files[0].Data, "\n"), time.Since(t0).Seconds())})
		}

		rep.Cases++
		rep.Hashes = append(rep.Hashes, hashStr(caseKey(c)))

		if v != nil {
			_ = out.Encode(report{T: "v", I: i, V: v})
		}

		return true
	}

	p.Cases(g)

	if !ends {
		rep.I = g.n
		rep.End = true
		_ = out.Encode(rep)

		for next() { // nothing left
			_ = out.Encode(report{T: "d", I: g.n, End: true})
		}
	}

	return 0
}

// --- replay ---

// replayMain re-runs a recorded violation. Exit 10: reproduced.
func replayMain() int {
	limits()

	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	p := props[v.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", v.Prop)
		return 3
	}

	d, err := scratch()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	defer os.RemoveAll(d)

	go watchdog()

	c := v.Case
	x := &Ctx{c: c, memo: map[string]string{}}
	runs := [][]int{nil}

	if len(v.Prefix) > 0 {
		runs = append(runs, v.Prefix)
	}

	for _, pre := range runs {
		pl := c.basePlan()
		pl.Prefix = pre
		pl.Record = c.Mode != "" || c.Map == 2 || c.Map == 4 || strings.Contains(c.Heap, "?")

		execStart.Store(time.Now().UnixNano())
		o := c.exec(pl)
		execStart.Store(0)

		if *fVerbose {
			fmt.Println("command: flatjsonl", strings.Join(c.args(), " "))
			for _, f := range append(c.Files, c.Extra...) {
				fmt.Printf("input %s: %q\n", f.Name, clip(f.Data))
			}

			fmt.Println("outcome:", o.status())

			for _, l := range o.Logs {
				fmt.Println("log:", l)
			}

			if o.Stdout != "" {
				fmt.Println("stdout:", o.Stdout)
			}

			for _, n := range sortedKeys(o.Files) {
				fmt.Printf("--- %s\n%s", n, o.Files[n])
			}

			for _, n := range sortedKeys(o.DB) {
				fmt.Printf("--- table %s %q\n", n, o.DB[n].Cols)
				for _, r := range o.DB[n].Rows {
					fmt.Println(r)
				}
			}
		}

		if o.Outcome == rt.OutDiverged {
			fmt.Println("diverged:", o.Detail)
			return 0
		}

		if x.first == nil {
			x.first = o
		}

		if msg := checkAll(p, x, o); msg != "" {
			fmt.Println(msg)
			return 10
		}
	}

	return 0
}

// --- coordinator ---

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known, fixed
	Case     string `json:"case,omitempty"`
	Message  string `json:"message,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(fn, prop string) []finding {
	var all, r []finding

	b, err := os.ReadFile(fn)
	if err != nil {
		return nil
	}

	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return nil
	}

	for _, f := range all {
		if f.Property == prop && f.Status == "known" {
			r = append(r, f)
		}
	}

	return r
}

type coord struct {
	mu       sync.Mutex
	p        *Prop
	next     int
	chunk    int
	end      bool
	stopped  bool
	late     bool
	total    report
	hashes   map[uint64]bool
	outs     map[uint64]bool
	known    []finding
	seen     map[string]bool
	confirm  []violation
	unconf   []string
	alone    bool  // each case gets its own process: executions were influenced by earlier ones
	again    []int // cases to repeat alone
	procs    map[*exec.Cmd]bool
	samples  []sample
	restarts int
	errs     []string
	raceDir  string
}

func coordMain() int {
	start := time.Now()

	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		return 3
	}

	budget := *fBudget
	if budget == 0 {
		budget = 240
		if *fTier == "thorough" {
			budget = 780
		}
	}

	*fUntil = time.Now().Unix() + int64(budget)

	k := &coord{
		p: p, hashes: map[uint64]bool{}, outs: map[uint64]bool{}, procs: map[*exec.Cmd]bool{}, seen: map[string]bool{},
		known: loadKnown(*fKnown, p.ID), chunk: 1,
	}

	jobs := *fJobs
	if jobs == 0 {
		jobs = runtime.NumCPU()
		if jobs > 8 {
			jobs = 8
		}
	}

	var wg sync.WaitGroup

	for i := 0; i < jobs; i++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for k.worker() {
			}
		}()
	}

	wg.Wait()

	if len(k.errs) > 0 && k.total.Cases == 0 {
		fmt.Fprintln(os.Stderr, "mc:", strings.Join(k.errs, "; "))
		return 3
	}

	k.evidence(start)

	if len(k.confirm) > 0 {
		for _, v := range k.confirm {
			fn := k.save(v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, fn)
			fmt.Println("  " + strings.ReplaceAll(clip(v.Msg), "\n", "\n  "))
			fmt.Println("  flatjsonl " + v.Cmd)
		}

		return 1
	}

	fmt.Printf("OK property=%s cases=%d executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", p.ID, k.total.Cases,
		k.total.Stats.Execs, k.total.Stats.States, k.total.Stats.Steps, !k.late && !k.total.Stats.Capped, time.Since(start).Seconds())

	return 0
}

func (k *coord) save(v violation) string {
	dir := *fReplays
	if dir == "" {
		dir = os.TempDir()
	}

	_ = os.MkdirAll(dir, 0o755)

	b, _ := json.MarshalIndent(v, "", " ")
	fn := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", v.Prop, hashStr(caseKey(v.Case)+fmt.Sprint(v.Prefix))))
	_ = os.WriteFile(fn, b, 0o644)

	return fn
}

// take hands out a chunk of cases.
func (k *coord) take() (a, b int, ok bool) {
	k.mu.Lock()
	defer k.mu.Unlock()

	if k.stopped {
		return 0, 0, false
	}

	if n := len(k.again); n > 0 {
		a = k.again[n-1]
		k.again = k.again[:n-1]

		return a, a + 1, true
	}

	if k.end {
		return 0, 0, false
	}

	a = k.next

	if k.alone {
		k.next++

		return a, k.next, true
	}

	k.next += k.chunk

	if k.chunk < 64 && k.next > 64*k.chunk {
		k.chunk *= 2
	}

	return a, k.next, true
}

func (k *coord) child(args ...string) *exec.Cmd {
	self, _ := os.Executable()

	base := []string{"-tier", *fTier}
	if *fVerbose && *fReplay == "" {
		base = append(base, "-v")
	}

	if *fFree {
		base = append(base, "-free")
	}

	cmd := exec.Command(self, append(base, args...)...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")

	return cmd
}

// worker runs a worker process; true: start another one.
func (k *coord) worker() bool {
	alone := k.isAlone() // Asked for before taking, chunks are single cases from then on.

	a, b, ok := k.take()
	if !ok {
		return false
	}

	cmd := k.child("-worker", "-prop", k.p.ID, "-until", strconv.FormatInt(*fUntil, 10))
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()

	errTail := &tail{}
	cmd.Stderr = errTail

	if err := cmd.Start(); err != nil {
		k.mu.Lock()
		k.errs = append(k.errs, err.Error())
		k.mu.Unlock()

		return false
	}

	k.mu.Lock()
	k.procs[cmd] = true
	k.mu.Unlock()

	defer func() {
		k.mu.Lock()
		delete(k.procs, cmd)
		k.mu.Unlock()
	}()

	fmt.Fprintf(in, "%d %d\n", a, b)

	cur := -1
	chunkEnd := b
	finished, more := false, false
	died := ""

	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)

	for sc.Scan() {
		var r report
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			continue
		}

		switch r.T {
		case "s":
			cur = r.I
		case "h":
			died = "an execution did not come to an end"
		case "o":
			died = "an execution used more than 3 GB of memory"
		case "v":
			k.candidate(*r.V, r.I, alone)
		case "c":
			fmt.Println("case", r.I, "executions", r.Cases, r.Note)
		case "d":
			cur = -1
			k.merge(r)

			if r.Bye || k.isAlone() {
				finished, more = true, true
				_ = in.Close()

				continue
			}

			a, b, ok := k.take()
			if !ok {
				finished = true
				_ = in.Close()

				continue
			}

			chunkEnd = b
			fmt.Fprintf(in, "%d %d\n", a, b)
		}
	}

	err := cmd.Wait()

	if finished || k.isStopped() {
		return more
	}

	// The process died within case cur.
	k.mu.Lock()
	k.restarts++
	k.unconf = append(k.unconf, fmt.Sprintf("case %d: worker ended: %s %v", cur, died, err))
	many := k.restarts > 40
	k.mu.Unlock()

	if cur < 0 || many {
		k.mu.Lock()
		k.errs = append(k.errs, fmt.Sprintf("worker ended: %v %s", err, errTail.String()))
		k.late = true
		k.mu.Unlock()

		return !many && cur >= 0
	}

	if died == "" {
		died = "the process died: " + lastPanic(errTail.String())
	}

	if c := k.nth(cur); c != nil {
		k.candidate(violation{Prop: k.p.ID, Msg: died, Case: c, Cmd: strings.Join(c.args(), " "), Died: true}, cur, alone)
	}

	// Go on behind it: the rest of the chunk is run by a fresh process.
	if cur+1 < chunkEnd {
		k.rest(cur+1, chunkEnd)
	}

	return true
}

// rest runs the remainder of a chunk whose worker died.
func (k *coord) rest(a, b int) {
	cmd := k.child("-worker", "-prop", k.p.ID, "-until", strconv.FormatInt(*fUntil, 10))
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()

	if cmd.Start() != nil {
		return
	}

	fmt.Fprintf(in, "%d %d\n", a, b)

	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)

	cur, ok := -1, false

	for sc.Scan() {
		var r report
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}

		switch r.T {
		case "s":
			cur = r.I
		case "v":
			k.candidate(*r.V, r.I, false)
		case "d":
			ok = true
			k.merge(r)
			_ = in.Close()
		}
	}

	_ = cmd.Wait()

	if !ok && cur >= 0 && !k.isStopped() {
		k.mu.Lock()
		k.restarts++
		many := k.restarts > 40
		k.mu.Unlock()

		if c := k.nth(cur); c != nil {
			k.candidate(violation{Prop: k.p.ID, Msg: "the process died", Case: c, Cmd: strings.Join(c.args(), " "), Died: true}, cur, true)
		}

		if cur+1 < b && !many {
			k.rest(cur+1, b)
		}
	}
}

func lastPanic(s string) string {
	for _, m := range []string{"fatal error: ", "panic: ", "runtime: "} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			if j := strings.IndexByte(s, '\n'); j > 0 {
				s = s[:j]
			}

			return s
		}
	}

	return clip(s)
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()

	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}

	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()

	return string(t.b)
}

func (k *coord) isAlone() bool {
	k.mu.Lock()
	defer k.mu.Unlock()

	return k.alone
}

func (k *coord) isStopped() bool {
	k.mu.Lock()
	defer k.mu.Unlock()

	return k.stopped
}

// nth regenerates a case.
func (k *coord) nth(n int) *Case {
	var c *Case

	g := &Gen{thorough: *fTier == "thorough"}
	g.yield = func(i int, f func() *Case) bool {
		if i == n {
			c = f()
			return false
		}

		return true
	}

	k.p.Cases(g)

	return c
}

func (k *coord) merge(r report) {
	k.mu.Lock()
	defer k.mu.Unlock()

	k.total.Stats.add(r.Stats)
	k.total.Cases += r.Cases
	k.total.OK += r.OK
	k.total.Failed += r.Failed
	k.late = k.late || r.Late

	if r.End {
		k.end = true
	}

	for _, h := range r.Hashes {
		k.hashes[h] = true
	}

	for _, h := range r.Outs {
		k.outs[h] = true
	}

	for _, s := range r.Samples {
		if len(k.samples) < 2 {
			k.samples = append(k.samples, s)
		} else if len(k.samples) == 2 {
			k.samples = append(k.samples, s)
		} else {
			k.samples[2] = s
		}
	}
}

// candidate re-runs a violation in fresh processes before it is believed.
func (k *coord) candidate(v violation, n int, alone bool) {
	key := caseKey(v.Case)

	k.mu.Lock()
	if k.stopped || k.seen[key] || len(k.unconf) > 60 {
		k.mu.Unlock()
		return
	}

	if k.alone && !alone && !v.Died {
		k.again = append(k.again, n)
		k.mu.Unlock()

		return
	}

	k.seen[key] = true
	k.mu.Unlock()

	for _, f := range k.known {
		if f.Case == key && strings.Contains(v.Msg, f.Message) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Prop, f.What)
			return
		}
	}

	fn := k.save(v)
	hits := 0
	tries := 5

	if v.Died {
		tries = 3
	}

	for i := 0; i < tries; i++ {
		cmd := k.child("-replay", fn)

		var sb tail
		cmd.Stderr = &sb

		b, err := cmd.Output()

		code := -1
		if cmd.ProcessState != nil {
			code = cmd.ProcessState.ExitCode()
		}

		switch {
		case code == 10:
			hits++

			if v.Died {
				v.Msg = strings.TrimSpace(string(b))
			}
		case err != nil && code != 3:
			hits++
		}
	}

	if hits < tries {
		k.mu.Lock()
		k.unconf = append(k.unconf, fmt.Sprintf("%d/%d: %s: %s", hits, tries, clip(v.Msg), clip(key)))
		k.mu.Unlock()

		if hits == 0 || v.Died {
			_ = os.Remove(fn)

			// An earlier execution of the process had influence, the case shows what it does on its own.
			if !v.Died && !alone {
				k.mu.Lock()
				k.alone = true
				k.again = append(k.again, n)
				delete(k.seen, key)
				k.mu.Unlock()
			}

			return
		}
	}

	k.mu.Lock()
	defer k.mu.Unlock()

	if k.stopped {
		return
	}

	k.confirm = append(k.confirm, v)

	if *fKeep && len(k.confirm) < 200 {
		return
	}

	k.stopped = true

	for c := range k.procs {
		_ = c.Process.Kill()
	}
}

// short cuts long texts of samples, the evidence is for reading.
func short(v any) any {
	b, _ := json.Marshal(v)

	var g any
	_ = json.Unmarshal(b, &g)

	return cutLong(g)
}

func cutLong(v any) any {
	const most = 1000

	switch x := v.(type) {
	case string:
		if len(x) > most {
			return x[:most] + fmt.Sprintf("... (%d bytes)", len(x))
		}
	case []any:
		for i := range x {
			x[i] = cutLong(x[i])
		}

		if len(x) > 50 {
			return append(x[:50:50], fmt.Sprintf("... (%d elements)", len(x)))
		}
	case map[string]any:
		for k := range x {
			x[k] = cutLong(x[k])
		}
	}

	return v
}

func (k *coord) evidence(start time.Time) {
	if *fEvidence == "" {
		return
	}

	st := k.total.Stats
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	exhaustive := k.end && !k.late && !st.Capped && !k.stopped && len(k.errs) == 0

	cov := map[string]any{
		"evaluations":         st.Execs,
		"distinct_nontrivial": len(k.hashes),
		"distinct_outcomes":   len(k.outs),
		"rule":                k.p.Rule,
		"samples":             short(k.samples),
		"exhaustive":          exhaustive,
		"runs_succeeded":      k.total.OK,
		"runs_refused":        k.total.Failed,
	}

	if k.p.Level == "model_checking" {
		cov["states"] = st.States
		cov["transitions"] = st.Steps
		cov["traces_validated_against_impl"] = st.Execs - st.Pruned - st.Diverged
		cov["threads"] = st.MaxThread
		cov["pruned"] = st.Pruned
		cov["diverged"] = st.Diverged
	}

	if len(k.unconf) > 0 {
		cov["unconfirmed"] = k.unconf
	}

	if len(k.errs) > 0 {
		cov["errors"] = k.errs
	}

	if freeMode {
		cov["mode"] = "scheduling shims did not compile; free-running executions"
	}

	doc := map[string]any{
		"property": k.p.ID, "tier": *fTier, "seed": seed, "level": k.p.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(k.confirm),
	}

	if k.p.Note != "" {
		as := strings.Split(k.p.Note, "; ")
		sort.Strings(as)
		doc["assumptions"] = as
	}

	b, _ := json.MarshalIndent(doc, "", " ")
	_ = os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
	_ = os.WriteFile(*fEvidence, b, 0o644)
}
