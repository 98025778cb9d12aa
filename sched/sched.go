// Package sched is a cooperative scheduler. The build-time overlay made by
// cmd/instr calls P before every statement of the library, so that an execution
// of several goroutines can be forced through any chosen interleaving.
//
// The hand-over from one goroutine to the next uses plain variables in
// functions the race detector does not look at. It therefore creates no
// happens-before edge: under -race the goroutines stay concurrent for the
// detector although only one runs at a time, and any pair of conflicting
// accesses of the execution is reported, whatever the interleaving was. All
// this needs GOMAXPROCS(1).
package sched

import "runtime"

const maxThreads = 8

// A decision is a place where another thread could have gone on.
type Decision struct {
	Running int8 // the thread that was running and is still enabled, or -1
	Chosen  int8
	Enabled uint8 // bit mask
}

// Dev says: at decision Pos, thread Thread goes on.
type Dev struct{ Pos, Thread int }

// A Pattern is a periodic schedule: the threads take turns, thread i going on
// for Quantum[i] scheduling points, or calls of Op, at a time. Patterns are for
// scripts too long to record the decisions of.
type Pattern struct {
	Ops     bool // count calls of Op
	Quantum [maxThreads]int
}

var (
	active   bool
	turn     int
	nthreads int
	enabled  uint8
	plan     []Dev
	next     int
	trace    []Decision
	points   int64
	maxTrace int
	overflow bool
	diverged bool
	steals   int64
	moved    int64 // any progress
	lost     uint8 // threads that were blocked when they lost the turn
	goid     [maxThreads]int64
	pattern  *Pattern
	used     int // of the running thread's quantum
)

// Op is called between the operations of a thread's script.
//
//go:norace
func Op() {
	if active && pattern != nil && pattern.Ops && lost == 0 {
		tick(turn)
	}
}

// tick uses up a unit of the running thread's quantum.
//
//go:norace
func tick(me int) {
	if used++; used < pattern.Quantum[me] {
		return
	}
	used = 0
	to := (me + 1) % nthreads
	for enabled>>to&1 == 0 {
		to = (to + 1) % nthreads
	}
	if to != me {
		turn = to
		wait(me)
	}
}

// P is a scheduling point.
//
//go:norace
func P() {
	if active {
		point()
	}
}

//go:norace
func point() {
	me := turn
	if lost != 0 {
		// Some thread may be running without the turn, having been unblocked.
		if me = whoami(); me < 0 {
			return
		}
		if me != turn {
			moved++
			lost &^= 1 << me
			wait(me)
			return
		}
	}
	points++
	moved++
	if pattern != nil {
		if !pattern.Ops && lost == 0 {
			tick(me)
		}
		return
	}
	to := me
	if len(trace) >= maxTrace {
		overflow = true
	} else {
		if next < len(plan) && plan[next].Pos == len(trace) {
			to = plan[next].Thread
			next++
			if enabled>>to&1 == 0 {
				diverged = true
				to = me
			}
		}
		trace = append(trace, Decision{int8(me), int8(to), enabled})
	}
	if to != me {
		turn = to
		wait(me)
	}
}

// wait until it is this thread's turn. If the thread whose turn it is makes no
// progress although this one had thousands of chances to run, it is blocked
// (on a lock, say): then this thread goes on.
//
//go:norace
func wait(me int) {
	last, spins := moved, 0
	for turn != me {
		runtime.Gosched()
		if spins++; moved != last {
			last, spins = moved, 0
		} else if spins > 50000 && enabled>>me&1 == 1 {
			if turn >= 0 {
				lost |= 1 << turn
			}
			turn = me
			steals++
			return
		}
	}
}

//go:norace
func finish(me int) {
	moved++
	enabled &^= 1 << me
	lost &^= 1 << me
	if turn != me {
		// finished without the turn (after having been blocked)
		return
	}
	if enabled == 0 {
		turn = -1
		return
	}
	choose()
}

//go:norace
func choose() {
	to := 0
	for enabled>>to&1 == 0 {
		to++
	}
	if next < len(plan) && plan[next].Pos == len(trace) {
		to = plan[next].Thread
		next++
		if enabled>>to&1 == 0 {
			diverged = true
			to = 0
			for enabled>>to&1 == 0 {
				to++
			}
		}
	}
	if len(trace) < maxTrace {
		trace = append(trace, Decision{-1, int8(to), enabled})
	}
	turn = to
}

//go:norace
func begin(n int, p []Dev, max int) {
	nthreads, enabled, plan, next = n, 1<<n-1, p, 0
	if cap(trace) < max {
		trace = make([]Decision, 0, max) // appending must never grow it
	}
	trace = trace[:0]
	lost = 0
	maxTrace = max
	overflow, diverged = false, false
	turn = -1
	moved++
}

//go:norace
func start() {
	active = true
	choose()
}

//go:norace
func end() { active = false }

// Result of one execution.
type Result struct {
	Trace    []Decision // valid until the next Run
	Overflow bool       // more decisions than recorded
	Diverged bool       // the plan did not fit
	Panic    any
	Who      int
}

// Run executes the threads under the plan.
func Run(threads []func(), p []Dev, max int) (r Result) {
	return run(threads, p, nil, max)
}

// RunPattern executes the threads under a periodic schedule.
func RunPattern(threads []func(), p *Pattern) (r Result) {
	return run(threads, nil, p, 64)
}

func run(threads []func(), p []Dev, pat *Pattern, max int) (r Result) {
	n := len(threads)
	pattern, used = pat, 0
	begin(n, p, max)
	type ending struct {
		who int
		p   any
	}
	dones := make([]chan ending, n)
	for i := range threads {
		dones[i] = make(chan ending, 1)
		go func(i int, f func(), done chan ending) {
			wait0(i)
			defer func() {
				e := ending{i, recover()}
				finish(i)
				done <- e
			}()
			f()
		}(i, threads[i], dones[i])
	}
	start()
	for i := range dones {
		if e := <-dones[i]; e.p != nil && r.Panic == nil {
			r.Panic, r.Who = e.p, e.who
		}
	}
	end()
	pattern = nil
	r.Trace, r.Overflow, r.Diverged = trace, overflow, diverged
	return
}

//go:norace
func wait0(me int) {
	goid[me] = curGoid()
	if turn != me {
		wait(me)
	}
}

// curGoid parses "goroutine 123 [running]".
//
//go:norace
func curGoid() (id int64) {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	for i := 10; i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + int64(buf[i]-'0')
	}
	return
}

//go:norace
func whoami() int {
	g := curGoid()
	for i := 0; i < nthreads; i++ {
		if goid[i] == g {
			return i
		}
	}
	return -1
}

// Points is the number of scheduling points passed so far.
func Points() int64 { return points }

// Steals is the number of times a blocked thread lost its turn.
func Steals() int64 { return steals }
