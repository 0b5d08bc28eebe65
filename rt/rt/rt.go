// Package rt is a cooperative scheduler for model checking real Go code.
//
// Instrumented code runs in real goroutines, but exactly one of them (the token
// holder) executes at any time. Before every synchronisation operation a thread
// announces the operation (Point); the scheduler then decides who goes next. A
// complete run is a sequence of such decisions, so it can be recorded, replayed
// and enumerated.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// Kind classifies operations for the dependency relation.
type Kind uint8

// Kinds.
const (
	KStart Kind = iota
	KRead
	KWrite
	KAdd // commutative update with an unused result
	KLock
	KUnlock
	KSend
	KRecv
	KSleep
	KChoice
	KYield
	KExit   // end of the program: ordered against everything
	KSelect // ordered against every channel operation
)

var kindNames = [...]string{"start", "read", "write", "add", "lock", "unlock", "send", "recv", "sleep", "choice", "yield", "exit", "select"}

func (k Kind) String() string { return kindNames[k] }

// Op is an announced operation.
type Op struct {
	Obj  uintptr
	Sub  uint64
	Kind Kind
}

// OnChan tells whether the operation is about a channel.
//
//go:norace
func (o Op) OnChan() bool { return o.Kind == KSend || o.Kind == KRecv || o.Kind == KSelect }

// Dependent tells whether the order of two operations can matter.
//
//go:norace
func Dependent(a, b Op) bool {
	if a.Kind == KExit || b.Kind == KExit {
		return a.Kind != KStart && b.Kind != KStart && a.Kind != KSleep && b.Kind != KSleep
	}

	if a.Kind == KSelect || b.Kind == KSelect {
		return a.OnChan() && b.OnChan()
	}

	if a.Obj != b.Obj || a.Obj == 0 {
		return false
	}

	if a.Sub != 0 && b.Sub != 0 && a.Sub != b.Sub {
		return false
	}

	if a.Kind == KRead && b.Kind == KRead {
		return false
	}

	if a.Kind == KAdd && b.Kind == KAdd {
		return false
	}

	return true
}

// CoEnabled is false for dependent operations that can never both be enabled in one state.
func CoEnabled(a, b Op) bool {
	if a.Kind == KUnlock && b.Kind == KLock || a.Kind == KLock && b.Kind == KUnlock || a.Kind == KUnlock && b.Kind == KUnlock {
		return false
	}

	return true
}

type thread struct {
	id      int
	wake    chan struct{}
	op      Op
	en      func() bool
	wakeAt  int64
	sleep   bool
	started bool
	done    bool
	killed  bool
	ops     int // operations it was granted
}

// Step is one decision of a recorded run.
type Step struct {
	Tid     int
	Prev    int    // token holder before the decision
	Op      Op     // operation executed (KChoice: an environment decision)
	Enabled uint64 // enabled threads
	Late    uint64 // enabled only because time is allowed to pass
	N       int    // alternatives of a KChoice
	Label   string
}

// SleepEntry is an element of a sleep set.
type SleepEntry struct {
	Tid int
	Op  Op
}

// Plan tells a run what to do.
type Plan struct {
	Prefix   []int        // decisions to replay: thread ids, or alternatives of choices
	Sleep    []SleepEntry // sleep set at the end of the prefix
	UseSleep bool
	Record   bool // record steps (else: default schedule only)
	// Window: when > 0, decisions are recorded only while Window(ctx) phase equals it.
	Window  int
	MapMode int // 0 ascending, 1 descending, 2 explored (Choose), 3 rotated by one
	MaxStep int
	MaxTime time.Duration
	NoTime  bool // sleepers are never woken early
	Free    bool // no scheduling at all
	Fine    bool // extra scheduling points after releasing operations
	Stmts   bool // extra scheduling points before each statement
}

// Outcome kinds.
const (
	OutDone     = "done"
	OutExit     = "exit"
	OutCrash    = "crash"
	OutDeadlock = "deadlock"
	OutLivelock = "livelock"
	OutPruned   = "pruned"
	OutDiverged = "diverged"
)

// Result of a run.
type Result struct {
	Outcome  string
	ExitCode int
	Detail   string
	Steps    []Step
	NSteps   int
	Threads  int
	Peak     int // threads alive at once
	Races    int
	Choices  int
	Parents  []Spawn      // by thread id
	Pending  []SleepEntry // operations announced but never executed
	Time     int64        // virtual time that passed
}

// Spawn tells who started a thread, and how many steps were recorded by then.
type Spawn struct {
	Tid  int
	Step int
}

// Exec is a run in progress.
type Exec struct {
	hbEnd    int64 // synchronises the end of threads with the harness
	plan     Plan
	live     []*thread // in the order of ids
	threads  []*thread
	cur      *thread
	now      int64
	nsteps   int
	choices  int
	pos      int
	phase    int
	steps    []Step
	sleep    []SleepEntry
	ended    bool
	killing  bool
	res      Result
	doneCh   chan struct{}
	ackCh    chan struct{}
	objs     []unsafe.Pointer // open addressing; a plain map would be seen by the race detector
	objIDs   []uintptr
	nobj     int
	mainDone bool
}

// X is the current run.
var X *Exec

var freeMu sync.Mutex

// On tells whether a scheduled run is in progress and the caller may use Point.
//
//go:norace
func On() bool {
	return X != nil && !X.plan.Free
}

// Ended tells whether the run is over (writes after this are ignored).
//
//go:norace
func Ended() bool {
	return X == nil || X.ended
}

// Killed tells whether the current thread is being torn down.
//
//go:norace
func Killed() bool {
	return X != nil && !X.plan.Free && (X.cur == nil || X.cur.killed)
}

// SetPhase moves the recording window.
//
//go:norace
func SetPhase(n int) {
	if X != nil {
		X.phase = n
	}
}

// Alive counts the other threads that have not ended.
//
//go:norace
func Alive() (n int) {
	if X == nil {
		return 0
	}

	for _, t := range X.threads {
		if t != X.cur && !t.done {
			n++
		}
	}

	return n
}

// Ops counts the operations that other threads have done.
//
//go:norace
func Ops() (n int) {
	if X == nil {
		return 0
	}

	for _, t := range X.threads {
		if t != X.cur {
			n += t.ops
		}
	}

	return n
}

// Phase returns the current phase.
//
//go:norace
func Phase() int {
	if X == nil {
		return 0
	}

	return X.phase
}

// Now is the virtual time in nanoseconds.
//
//go:norace
func Now() int64 {
	if X == nil {
		return 0
	}

	return X.now
}

// Tid returns the id of the running thread.
//
//go:norace
func Tid() int {
	if X == nil || X.cur == nil {
		return 0
	}

	return X.cur.id
}

// objID names an object by the order of its first announcement, which is the same in every run that
// shares the prefix. The map keeps the objects alive, so that no address is used twice.
//
//go:norace
func (x *Exec) objID(p unsafe.Pointer) uintptr {
	if p == nil || !x.plan.Record {
		return 0
	}

	if 2*x.nobj >= len(x.objs) {
		old, ids := x.objs, x.objIDs
		x.objs = make([]unsafe.Pointer, 2*len(old)+64)
		x.objIDs = make([]uintptr, len(x.objs))

		for i, q := range old {
			if q != nil {
				j := x.objSlot(q)
				x.objs[j] = q
				x.objIDs[j] = ids[i]
			}
		}
	}

	j := x.objSlot(p)
	if x.objs[j] == nil {
		x.nobj++
		x.objs[j] = p
		x.objIDs[j] = uintptr(x.nobj)
	}

	return x.objIDs[j]
}

//go:norace
func (x *Exec) objSlot(p unsafe.Pointer) int {
	h := int((uintptr(p) >> 3) * 0x9E3779B1 % uintptr(len(x.objs)))
	for x.objs[h] != nil && x.objs[h] != p {
		h++
		if h == len(x.objs) {
			h = 0
		}
	}

	return h
}

// Point announces an operation and waits until the scheduler grants it.
// It returns false if the thread is being torn down: the operation must then do nothing.
//
//go:norace
func Point(obj unsafe.Pointer, sub uint64, k Kind, en func() bool) bool {
	x := X
	if x == nil || x.plan.Free {
		return true
	}

	t := x.cur
	if t == nil || t.killed {
		return false
	}

	t.op = Op{Obj: x.objID(obj), Sub: sub, Kind: k}
	t.en = en

	x.schedule(t)
	t.ops++

	return true
}

// Note records an operation that needs no decision of its own (unlocking).
//
//go:norace
func Note(obj unsafe.Pointer, k Kind) {
	x := X
	if x == nil || x.plan.Free || x.cur == nil || x.cur.killed || !x.recording() {
		return
	}

	x.steps = append(x.steps, Step{Tid: x.cur.id, Prev: x.cur.id, Op: Op{Obj: x.objID(obj), Kind: k}})
}

// After is an extra scheduling point after a releasing operation, in fine mode.
//
//go:norace
func After() {
	if x := X; x != nil && x.plan.Fine {
		Point(nil, 0, KYield, nil)
	}
}

// stmts tells that statements are scheduling points.
var stmts bool

// S is an extra scheduling point before a statement.
//
//go:norace
func S() {
	if stmts {
		if x := X; x != nil && x.cur != nil && !x.cur.killed && x.recording() {
			Point(nil, 0, KYield, nil)
		}
	}
}

// Sleep parks the thread until virtual time has passed.
//
//go:norace
func Sleep(d int64) bool {
	x := X
	if x == nil {
		return true
	}

	if x.plan.Free {
		time.Sleep(time.Duration(d) / 100)
		return true
	}

	t := x.cur
	if t == nil || t.killed {
		return false
	}

	if d < 0 {
		d = 0
	}

	t.op = Op{Kind: KSleep}
	t.en = nil
	t.sleep = true
	t.wakeAt = x.now + d

	x.schedule(t)

	t.sleep = false
	if t.wakeAt > x.now {
		x.now = t.wakeAt
	}

	return true
}

// Choose is an environment decision with n alternatives; 0 is the default.
//
//go:norace
func Choose(n int, label string) int {
	x := X
	if x == nil || x.plan.Free || n <= 1 || x.cur == nil || x.cur.killed {
		return 0
	}

	if !x.recording() {
		return 0
	}

	c := 0

	if x.pos < len(x.plan.Prefix) {
		c = x.plan.Prefix[x.pos]
		if c >= n || c < 0 {
			x.end(OutDiverged, 0, fmt.Sprintf("choice %d of %d at %s", c, n, label))
			x.park(x.cur)
		}
	}

	x.pos++
	x.choices++

	if x.pos == len(x.plan.Prefix) && x.plan.UseSleep {
		x.sleep = append(x.sleep[:0], x.plan.Sleep...)
	}

	x.steps = append(x.steps, Step{Tid: c, Prev: x.cur.id, Op: Op{Kind: KChoice}, N: n, Label: label})

	return c
}

//go:norace
func (x *Exec) recording() bool {
	return x.plan.Record && (x.plan.Window == 0 || x.phase == x.plan.Window)
}

// pick decides which thread runs next. nil: the run is over.
//
//go:norace
func (x *Exec) pick(t *thread) *thread {
	x.nsteps++

	if x.nsteps > x.plan.MaxStep {
		x.end(OutLivelock, 0, "step limit reached: "+x.dump())
		return nil
	}

	var (
		first   *thread // default: current thread if enabled, else lowest id
		late    *thread
		enabled uint64
		lateM   uint64
	)

	rec := x.recording()

	live := x.live[:0]

	for _, o := range x.live {
		if o.done {
			continue
		}

		live = append(live, o)

		if o.sleep {
			if late == nil || o.wakeAt < late.wakeAt {
				late = o
			}

			if o.id < 64 {
				lateM |= 1 << uint(o.id)
			}

			continue
		}

		if o.en != nil && !o.en() {
			continue
		}

		if first == nil || o == t {
			first = o
		}

		if o.id < 64 {
			enabled |= 1 << uint(o.id)
		}
	}

	x.live = live

	if first == nil {
		if late == nil {
			x.end(OutDeadlock, 0, x.dump())
			return nil
		}

		if late.wakeAt > int64(x.plan.MaxTime) {
			x.end(OutLivelock, 0, "virtual time limit reached: "+x.dump())
			return nil
		}

		// Time passes: only the earliest sleeper may go.
		first = late
		enabled = 0
		lateM = 0

		if late.id < 64 {
			enabled = 1 << uint(late.id)
		}
	} else if x.plan.NoTime {
		lateM = 0
	}

	if !rec {
		return first
	}

	all := enabled | lateM
	next := first

	if x.pos < len(x.plan.Prefix) {
		id := x.plan.Prefix[x.pos]
		if id < 0 || id >= 64 || all&(1<<uint(id)) == 0 {
			x.end(OutDiverged, 0, fmt.Sprintf("thread %d is not enabled at step %d", id, x.pos))
			return nil
		}

		next = x.threads[id]
	} else if x.plan.UseSleep {
		asleep := uint64(0)
		for _, e := range x.sleep {
			asleep |= 1 << uint(e.Tid)
		}

		if next.id < 64 && asleep&(1<<uint(next.id)) != 0 {
			next = nil

			for _, o := range x.threads {
				if o.id < 64 && enabled&(1<<uint(o.id)) != 0 && asleep&(1<<uint(o.id)) == 0 {
					next = o
					break
				}
			}

			if next == nil {
				x.end(OutPruned, 0, "")
				return nil
			}
		}
	}

	prev := -1
	if t != nil {
		prev = t.id
	}

	x.steps = append(x.steps, Step{Tid: next.id, Prev: prev, Op: next.op, Enabled: enabled, Late: lateM})
	x.pos++

	if x.plan.UseSleep {
		if x.pos == len(x.plan.Prefix) {
			x.sleep = append(x.sleep[:0], x.plan.Sleep...)
		} else if x.pos > len(x.plan.Prefix) {
			k := 0

			for _, e := range x.sleep {
				if e.Tid != next.id && !Dependent(e.Op, next.op) {
					x.sleep[k] = e
					k++
				}
			}

			x.sleep = x.sleep[:k]
		}
	}

	return next
}

//go:norace
func (x *Exec) dump() string {
	s := ""

	for _, o := range x.threads {
		if !o.done {
			s += fmt.Sprintf("[thread %d at %s]", o.id, o.op.Kind)
		}
	}

	return s
}

//go:norace
func (x *Exec) schedule(t *thread) {
	raceOff()

	next := x.pick(t)
	if next == nil {
		raceOn()
		x.park(t)

		return
	}

	if next != t {
		x.cur = next
		next.wake <- struct{}{}
		<-t.wake
	}

	raceOn()

	if t.killed {
		runtime.Goexit()
	}
}

// park waits for the tear-down.
//
//go:norace
func (x *Exec) park(t *thread) {
	raceOff()
	<-t.wake
	raceOn()
	runtime.Goexit()
}

//go:norace
func (x *Exec) end(outcome string, code int, detail string) {
	if x.ended {
		return
	}

	x.ended = true
	x.res.Outcome = outcome
	x.res.ExitCode = code
	x.res.Detail = detail
	x.doneCh <- struct{}{}
}

// Exit ends the run the way os.Exit does.
//
//go:norace
func Exit(code int, detail string) {
	x := X
	if x == nil {
		return
	}

	if x.plan.Free {
		freeMu.Lock()
		if !x.ended {
			x.ended = true
			x.res.Outcome = OutExit
			x.res.ExitCode = code
			x.res.Detail = detail
		}
		freeMu.Unlock()

		select {
		case x.doneCh <- struct{}{}:
		default:
		}

		runtime.Goexit()
	}

	t := x.cur
	if t == nil || t.killed || x.ended {
		runtime.Goexit()
	}

	Point(nil, 0, KExit, nil)

	raceOff()
	x.end(OutExit, code, detail)
	raceOn()
	x.park(t)
}

// Go starts a thread.
//
//go:norace
func Go(f func()) {
	x := X
	if x == nil || x.plan.Free {
		go f()
		return
	}

	if x.cur == nil || x.cur.killed {
		return
	}

	x.spawn(f)
}

//go:norace
func (x *Exec) spawn(f func()) *thread {
	t := &thread{id: len(x.threads), wake: make(chan struct{}, 1), op: Op{Kind: KStart}}
	x.threads = append(x.threads, t)
	x.live = append(x.live, t)

	n := 0

	for _, o := range x.live {
		if !o.done {
			n++
		}
	}

	x.res.Peak = max(x.res.Peak, n)

	if x.plan.Record && len(x.res.Parents) < 64 {
		sp := Spawn{Tid: -1}
		if x.cur != nil {
			sp = Spawn{x.cur.id, len(x.steps)}
		}

		x.res.Parents = append(x.res.Parents, sp)
	}

	go x.body(t, f)

	return t
}

//go:norace
func (x *Exec) body(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()

	Release(unsafe.Pointer(&x.hbEnd))

	if t.killed {
		t.done = true
		raceOff()
		x.ackCh <- struct{}{}
		raceOn()

		return
	}

	normal := false

	defer func() { x.bodyEnd(t, recover(), &normal) }()

	t.started = true

	f()

	if t.id == 0 {
		Point(nil, 0, KExit, nil)
	}

	normal = true
}

//go:norace
func (x *Exec) bodyEnd(t *thread, r any, normal *bool) {
	Release(unsafe.Pointer(&x.hbEnd))

	if t.killed {
		t.done = true
		raceOff()
		x.ackCh <- struct{}{}
		raceOn()

		return
	}

	t.done = true

	raceOff()
	defer raceOn()

	if r != nil {
		x.end(OutCrash, 2, fmt.Sprintf("panic in thread %d: %v\n%s", t.id, r, debug.Stack()))
		return
	}

	if t.id == 0 {
		if !*normal {
			x.end(OutCrash, 2, "main goroutine exited")
			return
		}

		x.end(OutDone, 0, "")

		return
	}

	next := x.pick(t)
	if next != nil {
		x.cur = next
		next.wake <- struct{}{}
	}
}

// Run executes body under the plan and returns what happened.
//
//go:norace
func Run(plan Plan, body func()) Result {
	if plan.MaxStep == 0 {
		plan.MaxStep = 200000
	}

	if plan.MaxTime == 0 {
		plan.MaxTime = 10 * time.Minute
	}

	stmts = plan.Stmts
	x := &Exec{plan: plan, doneCh: make(chan struct{}, 4), ackCh: make(chan struct{}, 4)}
	x.steps = make([]Step, 0, 256)
	X = x

	if plan.UseSleep && len(plan.Prefix) == 0 {
		x.sleep = append(x.sleep, plan.Sleep...)
	}

	races := RaceErrors()

	if plan.Free {
		return x.runFree(body)
	}

	t := x.spawn(body)
	x.cur = t

	raceOff()
	t.wake <- struct{}{}
	<-x.doneCh
	raceOn()

	x.res.Races = RaceErrors() - races
	x.pending()
	x.kill()
	Acquire(unsafe.Pointer(&x.hbEnd))

	x.res.Steps = x.steps
	x.res.NSteps = x.nsteps
	x.res.Threads = len(x.threads)
	x.res.Choices = x.choices
	x.res.Time = x.now
	X = nil

	return x.res
}

//go:norace
func (x *Exec) pending() {
	for _, t := range x.threads {
		if !t.done && !t.sleep && t.id < 64 {
			x.res.Pending = append(x.res.Pending, SleepEntry{t.id, t.op})
		}
	}
}

//go:norace
func (x *Exec) kill() {
	raceOff()
	defer raceOn()

	for i := 0; i < len(x.threads); i++ {
		t := x.threads[i]
		if t.done {
			continue
		}

		t.killed = true
		x.cur = t
		t.wake <- struct{}{}
		<-x.ackCh
	}

	x.cur = nil
}

func (x *Exec) runFree(body func()) Result {
	go func() {
		normal := false

		defer func() {
			r := recover()

			freeMu.Lock()
			if !x.ended {
				x.ended = true

				switch {
				case r != nil:
					x.res.Outcome = OutCrash
					x.res.ExitCode = 2
					x.res.Detail = fmt.Sprint(r)
				case normal:
					x.res.Outcome = OutDone
				default:
					x.res.Outcome = OutCrash
					x.res.Detail = "main goroutine exited"
				}
			}
			freeMu.Unlock()

			select {
			case x.doneCh <- struct{}{}:
			default:
			}
		}()

		body()

		normal = true
	}()

	<-x.doneCh

	freeMu.Lock()
	defer freeMu.Unlock()

	return x.res
}

// RangeMap iterates a map in an order the run decides.
func RangeMap[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}

		OrderKeys(keys)

		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				// Deleted meanwhile (NaN keys cannot be looked up; nobody uses them).
				continue
			}

			if !yield(k, v) {
				return
			}
		}
	}
}

//go:norace
func mapMode() int {
	if X == nil {
		return 0
	}

	return X.plan.MapMode
}

// OrderKeys sorts keys canonically and applies the map order of the run.
func OrderKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}

	sortKeys(keys)

	switch mapMode() {
	case 1:
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case 2:
		for i := 0; i < len(keys)-1; i++ {
			if c := Choose(len(keys)-i, "map"); c > 0 {
				k := keys[i+c]
				copy(keys[i+1:i+c+1], keys[i:i+c])
				keys[i] = k
			}
		}
	case 4:
		n := len(keys)

		switch c := Choose(n+1, "map"); {
		case c == 0:
		case c == n:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		default:
			k := keys[c]
			copy(keys[1:c+1], keys[:c])
			keys[0] = k
		}
	case 3:
		k := keys[0]
		copy(keys, keys[1:])
		keys[len(keys)-1] = k
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	case []int64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	default:
		type sk struct {
			k K
			s string
		}

		s := make([]sk, len(keys))
		for i, k := range keys {
			s[i] = sk{k, keyString(k)}
		}

		sort.SliceStable(s, func(i, j int) bool { return s[i].s < s[j].s })

		for i := range s {
			keys[i] = s[i].k
		}
	}
}

func keyString(k any) string {
	if s, ok := k.(fmt.Stringer); ok {
		return s.String()
	}

	return fmt.Sprint(k)
}

// Hash maps a key to a non-zero sub-object id.
func Hash(k any) uint64 {
	h := uint64(14695981039346656037)

	mix := func(v uint64) {
		for i := 0; i < 8; i++ {
			h ^= v & 0xff
			h *= 1099511628211
			v >>= 8
		}
	}

	switch k := k.(type) {
	case int:
		mix(uint64(k))
	case int64:
		mix(uint64(k))
	case uint64:
		mix(k)
	case string:
		for i := 0; i < len(k); i++ {
			h ^= uint64(k[i])
			h *= 1099511628211
		}
	default:
		return 0
	}

	if h == 0 {
		h = 1
	}

	return h
}
