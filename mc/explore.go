package main

import (
	"math/bits"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// stats of an exploration.
type stats struct {
	Execs     int  `json:"execs"`
	Steps     int  `json:"steps"`    // transitions executed
	States    int  `json:"states"`   // distinct decision points reached
	Pruned    int  `json:"pruned"`   // sleep-set blocked runs
	Capped    bool `json:"capped"`   // a cap was hit
	Diverged  int  `json:"diverged"` // replays that did not reproduce (never a verdict)
	MaxThread int  `json:"max_thread"`
}

func (s *stats) add(o stats) {
	s.Execs += o.Execs
	s.Steps += o.Steps
	s.States += o.States
	s.Pruned += o.Pruned
	s.Diverged += o.Diverged
	s.Capped = s.Capped || o.Capped

	if o.MaxThread > s.MaxThread {
		s.MaxThread = o.MaxThread
	}
}

// runner executes one plan and returns the result; check is called for each complete run and
// returns false to stop the exploration.
type runner func(plan rt.Plan) rt.Result

func decisions(steps []rt.Step) []int {
	var r []int

	for _, s := range steps {
		if s.Enabled != 0 || s.Op.Kind == rt.KChoice {
			r = append(r, s.Tid)
		}
	}

	return r
}

// --- preemption / delay bounded exploration ---

type bounded struct {
	run    runner
	base   rt.Plan
	bound  int
	delay  bool // every departure from the default costs 1, also at blocking points
	env    bool // only environment decisions; at no cost unless there is a bound
	max    int
	stop   func() bool
	st     stats
	halted bool
}

// altsOf lists the alternatives of a decision with their costs, the default (taken) first.
func (b *bounded) alts(s rt.Step) (ids []int, costs []int) {
	if s.Op.Kind == rt.KChoice {
		for i := 0; i < s.N; i++ {
			if i != s.Tid {
				c := 1
				if b.env && b.bound == 0 {
					c = 0
				}

				ids = append(ids, i)
				costs = append(costs, c)
			}
		}

		return ids, costs
	}

	if b.env {
		return nil, nil
	}

	running := s.Prev >= 0 && s.Prev < 64 && s.Enabled&(1<<uint(s.Prev)) != 0

	for m := s.Enabled &^ (1 << uint(s.Tid)); m != 0; m &= m - 1 {
		c := 0
		if running || b.delay {
			c = 1
		}

		ids = append(ids, bits.TrailingZeros64(m))
		costs = append(costs, c)
	}

	for m := s.Late &^ (1 << uint(s.Tid)); m != 0; m &= m - 1 {
		ids = append(ids, bits.TrailingZeros64(m))
		costs = append(costs, 1)
	}

	return ids, costs
}

func (b *bounded) explore() stats {
	b.rec(nil, 0)
	return b.st
}

func (b *bounded) rec(prefix []int, cost int) {
	if b.halted {
		return
	}

	if b.st.Execs >= b.max || b.stop != nil && b.stop() {
		b.st.Capped = true
		b.halted = true

		return
	}

	p := b.base
	p.Prefix = prefix
	p.Record = true
	res := b.run(p)
	b.st.Execs++
	b.st.Steps += res.NSteps

	if res.Threads > b.st.MaxThread {
		b.st.MaxThread = res.Threads
	}

	if res.Outcome == rt.OutDiverged {
		b.st.Diverged++
		return
	}

	var dec []rt.Step

	for _, s := range res.Steps {
		if s.Enabled != 0 || s.Op.Kind == rt.KChoice {
			dec = append(dec, s)
		}
	}

	if len(dec) > len(prefix) {
		b.st.States += len(dec) - len(prefix)
	}

	ch := make([]int, len(dec))
	for i, s := range dec {
		ch[i] = s.Tid
	}

	for i := len(prefix); i < len(dec); i++ {
		ids, costs := b.alts(dec[i])
		for k, id := range ids {
			if cost+costs[k] > b.bound {
				continue
			}

			np := make([]int, i+1)
			copy(np, ch[:i])
			np[i] = id
			b.rec(np, cost+costs[k])

			if b.halted {
				return
			}
		}
	}
}

// --- dynamic partial order reduction with sleep sets ---

type dnode struct {
	prev      int
	enabled   uint64
	chosen    int
	op        rt.Op
	backtrack uint64
	done      []rt.SleepEntry
	sleep     []rt.SleepEntry
	choice    bool
	n         int
}

type dpor struct {
	run  runner
	base rt.Plan
	max  int
	stop func() bool
	st   stats
}

func (d *dpor) explore() stats {
	var stack []*dnode

	for {
		if d.st.Execs >= d.max || d.stop != nil && d.stop() {
			d.st.Capped = true
			return d.st
		}

		prefix := make([]int, len(stack))
		for i, n := range stack {
			prefix[i] = n.chosen
		}

		p := d.base
		p.Record = true
		p.UseSleep = true
		p.Prefix = prefix

		if len(stack) > 0 {
			p.Sleep = nextSleep(stack[len(stack)-1])
		}

		res := d.run(p)
		d.st.Execs++
		d.st.Steps += res.NSteps

		if res.Threads > d.st.MaxThread {
			d.st.MaxThread = res.Threads
		}

		switch res.Outcome {
		case rt.OutDiverged:
			d.st.Diverged++
			d.st.Capped = true

			return d.st
		case rt.OutPruned:
			d.st.Pruned++
		}

		// Extend the stack.
		i := 0

		for _, s := range res.Steps {
			if s.Enabled == 0 && s.Op.Kind != rt.KChoice {
				continue
			}

			if i >= len(stack) {
				n := &dnode{prev: s.Prev, enabled: s.Enabled, chosen: s.Tid, op: s.Op}
				if s.Op.Kind == rt.KChoice {
					n.choice = true
					n.n = s.N
				}

				if i > 0 {
					n.sleep = nextSleep(stack[i-1])
				}

				stack = append(stack, n)
				d.st.States++
			}

			i++
		}

		if i < len(stack) {
			// Must not happen: the prefix was replayed.
			d.st.Diverged++
			d.st.Capped = true

			return d.st
		}

		races(res, stack)

		// Next branch.
		for len(stack) > 0 {
			n := stack[len(stack)-1]

			if n.choice {
				if n.chosen+1 < n.n {
					n.chosen++
					break
				}

				stack = stack[:len(stack)-1]

				continue
			}

			n.done = append(n.done, rt.SleepEntry{Tid: n.chosen, Op: n.op})

			var skip uint64
			for _, e := range n.done {
				skip |= 1 << uint(e.Tid)
			}

			for _, e := range n.sleep {
				skip |= 1 << uint(e.Tid)
			}

			todo := n.backtrack & n.enabled &^ skip
			if todo == 0 {
				stack = stack[:len(stack)-1]
				continue
			}

			n.chosen = bits.TrailingZeros64(todo)
			n.op = rt.Op{} // learnt when executed

			break
		}

		if len(stack) == 0 {
			return d.st
		}

		// The operation of the newly chosen thread is needed for sleep sets: it is the pending
		// operation, which equals its next executed operation in the previous run if it ran later.
		top := stack[len(stack)-1]
		if !top.choice {
			top.op = pendingOp(res, len(stack)-1, top.chosen)
		}
	}
}

// pendingOp finds the announced operation of thread tid at decision index at.
func pendingOp(res rt.Result, at, tid int) rt.Op {
	i := 0

	for _, s := range res.Steps {
		if s.Enabled == 0 && s.Op.Kind != rt.KChoice {
			continue
		}

		if i >= at && s.Op.Kind != rt.KChoice && s.Tid == tid {
			return s.Op
		}

		i++
	}

	for _, e := range res.Pending {
		if e.Tid == tid {
			return e.Op
		}
	}

	return rt.Op{}
}

// nextSleep computes the sleep set after n's chosen operation.
func nextSleep(n *dnode) []rt.SleepEntry {
	if n.choice {
		return n.sleep
	}

	var r []rt.SleepEntry

	for _, l := range [][]rt.SleepEntry{n.sleep, n.done} {
		for _, e := range l {
			if e.Tid != n.chosen && !rt.Dependent(e.Op, n.op) {
				r = append(r, e)
			}
		}
	}

	return r
}

type access struct {
	step  int // index into res.Steps
	node  int // decision index, -1 for notes
	tid   int
	op    rt.Op
	clock []int
}

// races adds backtracking points for every reversible race of the run.
func races(res rt.Result, stack []*dnode) {
	nt := res.Threads
	if nt > 64 {
		nt = 64
	}

	clocks := make([][]int, nt) // thread -> thread -> last step index known (+1)
	for i := range clocks {
		clocks[i] = make([]int, nt)
	}

	byObj := map[uintptr][]access{}

	var (
		all     []access
		selects bool
	)

	for _, s := range res.Steps {
		selects = selects || s.Op.Kind == rt.KSelect
	}

	node := -1
	seen := make([]bool, nt)

	process := func(si int, tid int, op rt.Op, nodeIdx int, virtual bool) {
		if tid >= nt {
			return
		}

		var cand []access
		if op.Kind == rt.KExit || op.Kind == rt.KSelect || selects && op.OnChan() || virtual && op.Kind == rt.KStart {
			cand = all
		} else {
			cand = byObj[op.Obj]
		}

		// Latest racing access not ordered before this one.
		for k := len(cand) - 1; k >= 0; k-- {
			a := cand[k]
			if a.tid == tid || a.node < 0 {
				continue
			}

			dep := rt.Dependent(a.op, op)
			if virtual && op.Kind == rt.KStart && a.op.Kind == rt.KExit {
				dep = true
			}

			if !dep || !rt.CoEnabled(a.op, op) {
				continue
			}

			if clocks[tid][a.tid] > a.step {
				// Happens before; earlier accesses of other threads may still race.
				continue
			}

			n := stack[a.node]
			bit := uint64(1) << uint(tid)

			if n.enabled&bit != 0 {
				n.backtrack |= bit
			} else {
				// Some thread that leads to this operation.
				added := false

				for _, b := range all {
					if b.node > a.node && b.tid < 64 && n.enabled&(1<<uint(b.tid)) != 0 && clocks[tid][b.tid] > b.step {
						n.backtrack |= 1 << uint(b.tid)
						added = true

						break
					}
				}

				if !added {
					n.backtrack |= n.enabled
				}
			}

			break
		}

		if virtual {
			return
		}

		c := clocks[tid]

		for _, a := range cand {
			if a.tid != tid && (rt.Dependent(a.op, op)) {
				for i, v := range a.clock {
					if v > c[i] {
						c[i] = v
					}
				}
			}
		}

		c[tid] = si + 1
		snap := append([]int(nil), c...)
		ac := access{step: si, node: nodeIdx, tid: tid, op: op, clock: snap}
		all = append(all, ac)

		if op.Obj != 0 {
			byObj[op.Obj] = append(byObj[op.Obj], ac)
		}
	}

	for si, s := range res.Steps {
		if s.Op.Kind == rt.KChoice {
			node++
			continue
		}

		nodeIdx := -1

		if s.Enabled != 0 {
			node++
			nodeIdx = node
		}

		if s.Tid >= nt {
			continue
		}

		if !seen[s.Tid] {
			seen[s.Tid] = true
		}

		if s.Op.Kind == rt.KStart {
			// Spawned by an earlier step of the parent: the recorded parent clock.
			if p := parentClock(res, s.Tid, all); p != nil {
				copy(clocks[s.Tid], p)
			}
		}

		process(si, s.Tid, s.Op, nodeIdx, false)
	}

	for _, e := range res.Pending {
		process(len(res.Steps), e.Tid, e.Op, -1, true)
	}
}

// parentClock returns the clock of the step during which a thread was spawned.
func parentClock(res rt.Result, tid int, all []access) []int {
	if tid >= len(res.Parents) {
		return nil
	}

	p := res.Parents[tid]

	for i := len(all) - 1; i >= 0; i-- {
		if all[i].tid == p.Tid && all[i].step < p.Step {
			return all[i].clock
		}
	}

	return nil
}
