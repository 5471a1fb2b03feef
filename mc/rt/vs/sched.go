// Package vs is the controlled scheduler the instrumented code runs under: one token,
// explicit scheduling points, virtual time, and every nondeterministic decision taken
// from (and recorded in) a choice sequence.
package vs

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- hashing

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	return a
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Obj is the happens-before summary of one shared object.
type Obj struct {
	epoch uint64
	w     uint64 // hash of the last write-like access
	r     uint64 // commutative hash of the read-like accesses since
}

func (o *Obj) fresh() {
	if o.epoch != E.epoch {
		o.epoch = E.epoch
		o.w, o.r = 0, 0
	}
}

// Write records a write-like access by the running thread.
func (o *Obj) Write(op uint64) {
	o.fresh()
	t := E.cur
	t.h = mix(mix(t.h, op), mix(o.w, o.r))
	o.w, o.r = t.h, 0
	racq(&o.w)
	racq(&o.r)
	rrel(&o.w)
}

// Mark is Write without the meaning of a synchronisation (arrivals, polls).
func (o *Obj) Mark(op uint64) {
	o.fresh()
	t := E.cur
	t.h = mix(mix(t.h, op), mix(o.w, o.r))
	o.w, o.r = t.h, 0
}

// Acquire records a read-like access that later writes depend on.
func (o *Obj) Acquire(op uint64) {
	o.fresh()
	t := E.cur
	t.h = mix(mix(t.h, op), o.w)
	o.r += mix(t.h, 0x51)
	racq(&o.w)
	rrel(&o.r)
}

// Read records a pure observation.
func (o *Obj) Read(op uint64) {
	o.Peek(op)
	racq(&o.w)
	racq(&o.r)
}

// Peek is Read without the meaning of a synchronisation.
func (o *Obj) Peek(op uint64) {
	o.fresh()
	t := E.cur
	t.h = mix(mix(t.h, op), mix(o.w, o.r))
}

// ---------------------------------------------------------------- threads

// Waiter is something a thread can be blocked on.
type Waiter interface{ Ready(t *Thread) bool }

type Thread struct {
	Name    string
	path    []int32
	idHash  uint64
	h       uint64
	seq     int
	nspawn  int32
	nid     int
	wake    chan struct{}
	exited  chan struct{}
	w       Waiter // nil: always enabled
	label   string
	granted bool // used by grants (rwmutex, waitgroup, channel completion)
	sel     *selState
	done    bool
	daemon  bool
	mapDir  int8
	harness bool
	lastCh  int
	proc    *Proc
	tag     any
	clk     uint64 // what other threads hand to this one (race detector)
	endClk  uint64
}

// Proc is a process: its threads stop for good when it is dead.
type Proc struct {
	Dead bool
	Data any
}

// In starts the current thread's descendants in process p from now on, and the thread itself.
func In(p *Proc) { E.cur.proc = p }

// CurProc is the process of the running thread.
func CurProc() *Proc { return E.cur.proc }

func (t *Thread) ready() bool {
	return (t.proc == nil || !t.proc.Dead) && (t.w == nil || t.w.Ready(t))
}

func (t *Thread) Granted() bool { return t.granted }
func (t *Thread) ClearGrant()   { t.granted = false }
func (t *Thread) ID() uint64    { return t.idHash }

// Within tells how many threads lie between t and a that it descends from, -1 if it does not.
func (t *Thread) Within(a *Thread) int {
	if len(t.path) < len(a.path) {
		return -1
	}
	for i, x := range a.path {
		if t.path[i] != x {
			return -1
		}
	}
	return len(t.path) - len(a.path)
}

func (t *Thread) Hash() uint64  { return t.h }
func (t *Thread) Label() string { return t.label }

// Grant marks a blocked thread as released by the running thread.
func (t *Thread) Grant() {
	t.granted = true
	t.h = mix(t.h, mix(E.cur.h, 0x77))
	rrel(&t.clk)
}

// GrantFromTimer marks a blocked thread as released by the environment.
func (t *Thread) grantHash(x uint64) {
	t.granted = true
	t.h = mix(t.h, x)
}

type grantW struct{}

func (grantW) Ready(t *Thread) bool { return t.granted }

// GrantWait blocks the current thread until it has been granted.
var GrantWait Waiter = grantW{}

type pathLess struct{}

func lessPath(a, b []int32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// ---------------------------------------------------------------- choices

type choice struct {
	n      int32 // alternatives
	pick   int32
	cost   int32 // cost of any alternative but 0
	cut    bool  // alternatives not to be explored below this node
	remain int32 // budget left when reached
	kind   uint8
}

const (
	kSched = iota
	kSelect
	kTimer
	kChoose
)

type Failure struct {
	Kind   string // panic, deadlock, hang, oracle, divergence, steps
	Key    string
	Detail string
	Trace  []string
}

// Exec is the state of the execution in progress.
type Exec struct {
	epoch   uint64
	cur     *Thread
	threads []*Thread // sorted by path
	live    int
	doneCh  chan struct{}
	aborted bool
	over    bool
	now     time.Duration
	timers  []*Timer
	timerSq int
	gh      uint64 // hash of environment events

	choices []choice
	pos     int // position in choices
	replay  int // length of prefix to replay
	budget  int32
	maxB    int32

	steps    int64
	maxSteps int64
	horizon  time.Duration
	fail     *Failure
	merging  bool // visit is called by Merge
	pruned   bool
	unlocks  bool
	calm     bool
	earlyTm  bool
	lastRun  *Thread
	inEnv    bool // the running step is one of the environment (a timer)
	races    int  // reports of the race detector so far
	race0    int

	chans map[unsafe.Pointer]*chanState
	addrs map[unsafe.Pointer]*Obj

	visit   func(key uint64, remain int32) bool // true = already covered
	trace   []string
	tracing bool
	locals  map[string]any
	nodes   int64
	freeze  int
	devs    int

	histories int64 // accounted by a search inside the execution
	xsteps    int64
	depth     int
	open      bool
}

// DetailHook, when set, describes the history of a failing execution.
var DetailHook func() string

var E *Exec
var epochCtr uint64

// Cur returns the running thread.
func Cur() *Thread { return E.cur }

// Active reports whether an execution is in progress.
func Active() bool { return E != nil && !E.over }

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ENGINE ERROR: "+format+"\n", a...)
	if E != nil {
		for _, s := range E.trace {
			fmt.Fprintln(os.Stderr, s)
		}
	}
	debug.PrintStack()
	os.Exit(3)
}

// ---------------------------------------------------------------- scheduling

// Point is a scheduling point in front of an always enabled operation.
func Point(label string) {
	e := E
	if e == nil || e.over {
		deadPoint()
		return
	}
	if e.freeze > 0 {
		return
	}
	e.cur.w = nil
	e.cur.label = label
	e.schedule()
	// every step is part of the state, also one without an effect on a shared object
	e.cur.h = mix(e.cur.h, 0x77)
}

// UnlockPoint is a scheduling point in front of a release operation (only when enabled for the scenario).
func UnlockPoint(label string) {
	if e := E; e != nil && !e.over && !e.unlocks {
		return
	}
	Point(label)
}

// Block suspends the running thread until w is ready (a scheduling point).
func Block(w Waiter, label string) {
	e := E
	if e == nil || e.over {
		deadPoint()
		return
	}
	t := e.cur
	if e.freeze > 0 {
		if w.Ready(t) {
			return
		}
		fatal("blocking inside an atomic section: %s", label)
	}
	t.w = w
	t.label = label
	e.schedule()
	t.w = nil
	t.h = mix(t.h, 0x78)
	racq(&t.clk)
}

// Atomic runs f without scheduling points. f must not block.
func Atomic(f func()) {
	E.freeze++
	defer func() { E.freeze-- }()
	f()
}

func deadPoint() {
	// the execution is over: unwind
	if E != nil && E.aborted {
		runtime.Goexit()
	}
	if E == nil {
		return // initialisation code outside of any execution
	}
	runtime.Goexit()
}

// decide takes the next choice out of n alternatives.
func (e *Exec) decide(n int, cost int32, kind uint8) int {
	if n <= 1 || e.calm && kind != kChoose {
		return 0
	}
	if e.pos < e.replay {
		c := &e.choices[e.pos]
		if int(c.n) != n || c.cost != cost || c.kind != kind {
			fatal("divergence at choice %d: recorded n=%d cost=%d kind=%d, now n=%d cost=%d kind=%d", e.pos, c.n, c.cost, c.kind, n, cost, kind)
		}
		c.remain = e.budget
		e.pos++
		if c.pick != 0 {
			e.budget -= c.cost
		}
		if c.dev() {
			e.devs++
		}
		return int(c.pick)
	}
	c := choice{n: int32(n), cost: cost, remain: e.budget, kind: kind}
	if freePicks != nil {
		if e.pos < len(freePicks) {
			if int(freePicks[e.pos]) >= n {
				fatal("replay: choice %d has only %d alternatives on this tree", e.pos, n)
			}
			c.pick = freePicks[e.pos]
		}
		e.choices = append(e.choices, c)
		e.pos++
		e.replay = e.pos
		return int(c.pick)
	}
	if e.visit != nil && kind != kChoose {
		if e.visit(e.stateKey(kind), e.budget) {
			c.cut = true
			e.choices = append(e.choices, c)
			e.pos++
			e.replay = e.pos
			e.pruned = true
			return -1
		}
	}
	e.nodes++
	e.choices = append(e.choices, c)
	e.pos++
	e.replay = e.pos
	return 0
}

// Merge declares that everything the rest of this execution depends on is summarised by key: when the same key was
// already explored with at least the same remaining depth, the execution is cut here. Only for histories run by one
// thread (key must then cover the whole state of the objects and of the reference model).
func Merge(key uint64, remain int) {
	e := E
	if e == nil || e.over || e.visit == nil || e.pos < e.replay {
		return
	}
	e.nodes++
	e.merging = true
	cut := e.visit(mix(key, 0x3e), int32(remain))
	e.merging = false
	if cut {
		e.pruned = true
		e.end(nil)
		t := e.cur
		hide()
		<-t.wake
		show()
		runtime.Goexit()
	}
}

// Account adds the work of a search run inside one execution.
func Account(states, transitions int64, closed bool, depth int) {
	E.nodes += states
	E.xsteps += transitions
	E.histories += transitions
	if depth > E.depth {
		E.depth = depth
	}
	if !closed {
		E.open = true
	}
}

// Tick counts loop iterations and calls of instrumented code: an execution that spins without ever reaching a
// scheduling point is a livelock.
//
//go:noinline
func Tick() {
	ticks++
	if ticks > maxTicks {
		tickOver()
	}
}

// Progress tells the livelock detector that an enumeration inside one execution got on.
func Progress() { ticks = 0 }

const maxTicks = 2000000

var ticks int

func tickOver() {
	ticks = 0
	e := E
	if e == nil {
		return
	}
	if e.over {
		if e.aborted {
			runtime.Goexit()
		}
		return
	}
	Fail("steps", "endless loop", fmt.Sprintf("thread %s executed %d loop iterations and calls without reaching a scheduling point", e.cur.Name, maxTicks))
}

func (e *Exec) stateKey(kind uint8) uint64 {
	var s uint64
	for _, t := range e.threads {
		x := mix(t.h, t.idHash)
		if t.done {
			x = mix(x, 3)
		}
		s += x
	}
	s = mix(s, e.cur.idHash)
	s = mix(s, uint64(e.now)+uint64(kind)<<56)
	s = mix(s, e.gh)
	return s
}

var debugTrace = os.Getenv("VS_TRACE") != ""

func (e *Exec) note(s string) {
	if e.tracing {
		e.trace = append(e.trace, s)
		if debugTrace {
			fmt.Fprintln(os.Stderr, s)
		}
	}
}

// Note adds a line to the trace of a violating execution.
func Note(format string, a ...any) {
	if E != nil && E.tracing {
		E.note(fmt.Sprintf("      %s", fmt.Sprintf(format, a...)))
	}
}

// Tracing reports whether a trace is being recorded.
func Tracing() bool { return E != nil && E.tracing }

var enabledBuf []*Thread

func (e *Exec) schedule() {
	me := e.cur
	ticks = 0
	for {
		e.steps++
		if e.steps > e.maxSteps {
			e.end(&Failure{Kind: "steps", Key: "steps", Detail: fmt.Sprintf("no end after %d scheduling steps (livelock)", e.maxSteps)})
			e.park(me)
		}
		// enabled threads in canonical order: current, then the others cyclically after it
		en := enabledBuf[:0]
		idx := 0
		for i, t := range e.threads {
			if t == e.cur {
				idx = i
				break
			}
		}
		n := len(e.threads)
		for k := 0; k < n; k++ {
			j := idx + k
			if j >= n {
				j -= n
			}
			t := e.threads[j]
			if t.done {
				continue
			}
			if t.ready() {
				en = append(en, t)
			}
		}
		enabledBuf = en
		nt := 0
		next := e.nextTimer()
		if next != nil && len(en) > 0 && e.earlyTm {
			nt = 1
		}
		if len(en) == 0 {
			if next == nil {
				e.end(e.deadlock("deadlock", "every remaining thread is blocked and no timer is pending"))
				e.park(me)
			}
			if next.when > e.horizon {
				e.end(e.deadlock("hang", fmt.Sprintf("not finished after %v of virtual time", e.horizon)))
				e.park(me)
			}
			if !e.fireNext() {
				e.end(nil)
				e.park(me)
			}
			continue
		}
		k := e.decide(len(en)+nt, 1, kSched)
		if k < 0 {
			e.end(nil)
			e.park(me)
		}
		if k == len(en) {
			if !e.fireNext() {
				e.end(nil)
				e.park(me)
			}
			continue
		}
		t := en[k]
		if e.tracing {
			e.note(fmt.Sprintf("%4d %-14s %s", e.steps, t.Name, t.label))
		}
		if t == me && !me.done {
			e.cur = t
			return
		}
		e.cur = t
		if me.done {
			hide()
			t.wake <- struct{}{}
			show()
			return
		}
		hide()
		t.wake <- struct{}{}
		show()
		hide()
		<-me.wake
		show()
		if e.aborted {
			runtime.Goexit()
		}
		return
	}
}

func (e *Exec) park(me *Thread) {
	if me.done {
		return
	}
	hide()
	<-me.wake
	show()
	runtime.Goexit()
}

func (e *Exec) deadlock(kind, why string) *Failure {
	var b []string
	var hb []string
	for _, t := range e.threads {
		if t.done || t.proc != nil && t.proc.Dead {
			continue
		}
		b = append(b, fmt.Sprintf("%s blocked at %s", t.Name, t.label))
		if t.harness && !t.daemon {
			hb = append(hb, t.Name)
		}
	}
	sort.Strings(hb)
	return &Failure{Kind: kind, Key: kind + "[" + strings.Join(hb, ",") + "]", Detail: why + ": " + strings.Join(b, "; ")}
}

// end finishes the execution with the given verdict.
func (e *Exec) end(f *Failure) {
	if e.over {
		return
	}
	e.over = true
	if e.fail == nil {
		e.fail = f
	}
	if RaceMode {
		e.races = raceErrors() - e.race0
	}
	if f != nil && DetailHook != nil {
		if h := DetailHook(); h != "" && !strings.Contains(f.Detail, h) {
			f.Detail += "\nhistory: " + h
		}
	}
	if e.fail != nil && e.fail.Trace == nil {
		e.fail.Trace = e.trace
	}
	hide()
	e.doneCh <- struct{}{}
	show()
}

// Fail ends the execution with a violation (never returns).
func Fail(kind, key, detail string) {
	e := E
	if e.over {
		runtime.Goexit()
	}
	e.end(&Failure{Kind: kind, Key: key, Detail: detail})
	t := e.cur
	hide()
	<-t.wake
	show()
	runtime.Goexit()
}

// Stop ends the execution without a violation.
func Stop() {
	e := E
	if e.over {
		runtime.Goexit()
	}
	e.end(nil)
	t := e.cur
	hide()
	<-t.wake
	show()
	runtime.Goexit()
}

func (e *Exec) insert(t *Thread) {
	i := sort.Search(len(e.threads), func(i int) bool { return lessPath(t.path, e.threads[i].path) })
	e.threads = append(e.threads, nil)
	copy(e.threads[i+1:], e.threads[i:])
	e.threads[i] = t
}

func (e *Exec) spawn(name string, f func()) *Thread {
	var path []int32
	var idh, h uint64
	if p := e.cur; p != nil {
		p.nspawn++
		path = append(append(path, p.path...), p.nspawn)
		p.h = mix(p.h, 0x5150)
		idh = mix(p.idHash, uint64(p.nspawn)+0x1000)
		h = mix(p.h, 0x1111)
		if name == "" {
			name = fmt.Sprintf("%s.%d", p.Name, p.nspawn)
		}
	} else {
		idh, h = 0x4242, 0x4242
	}
	t := &Thread{Name: name, path: path, idHash: idh, h: h, wake: make(chan struct{}, 1), exited: make(chan struct{}), label: "start"}
	if e.cur != nil {
		t.proc = e.cur.proc
	}
	e.insert(t)
	e.live++
	rrel(&t.clk)
	raceSpawn(func() { go t.run(e, f) })
	return t
}

func (t *Thread) run(e *Exec, f func()) {
	normal := false
	defer func() {
		rrelExec()
		hide()
		close(t.exited)
		show()
	}()
	defer func() {
		if r := recover(); r != nil {
			if !e.over {
				st := string(debug.Stack())
				e.end(&Failure{Kind: "panic", Key: "panic: " + panicKey(r), Detail: fmt.Sprintf("thread %s panicked: %v\n%s", t.Name, r, st)})
			}
			return
		}
		if !normal && !e.over {
			// runtime.Goexit called by the code under test: treat as a finished thread
			t.finish(e)
		}
	}()
	hide()
	<-t.wake
	show()
	if e.aborted {
		normal = true
		return
	}
	racq(&execClk)
	racq(&t.clk)
	f()
	normal = true
	if !e.over {
		t.finish(e)
	}
}

var hexRE = regexp.MustCompile("0x[0-9a-f]+")

func panicKey(r any) string {
	s := hexRE.ReplaceAllString(fmt.Sprint(r), "0x#")
	// drop addresses and identifiers so that the key is stable
	var b strings.Builder
	digits := 0
	for _, c := range s {
		if c >= '0' && c <= '9' {
			digits++
			if digits == 1 {
				b.WriteByte('#')
			}
			continue
		}
		digits = 0
		b.WriteRune(c)
		if b.Len() > 160 {
			break
		}
	}
	return b.String()
}

func (t *Thread) finish(e *Exec) {
	t.done = true
	rrel(&t.endClk)
	t.h = mix(t.h, 0xdead)
	e.live--
	// remove to keep the list short, but keep its hash
	e.gh += mix(t.h, t.idHash)
	for i, x := range e.threads {
		if x == t {
			e.threads = append(e.threads[:i], e.threads[i+1:]...)
			break
		}
	}
	if t.path == nil {
		// the root thread: the scenario is complete
		e.end(nil)
		return
	}
	// the token moves on; keep "current" position by choosing from the next thread cyclically
	if len(e.threads) == 0 {
		e.end(nil)
		return
	}
	nxt := e.threads[0]
	for _, x := range e.threads {
		if lessPath(t.path, x.path) {
			nxt = x
			break
		}
	}
	ghost := t
	e.cur = ghost
	e.scheduleFrom(ghost, nxt)
}

// scheduleFrom hands the token on after a thread has finished.
func (e *Exec) scheduleFrom(ghost, pivot *Thread) {
	for {
		e.steps++
		if e.steps > e.maxSteps {
			e.end(&Failure{Kind: "steps", Key: "steps", Detail: fmt.Sprintf("no end after %d scheduling steps (livelock)", e.maxSteps)})
			return
		}
		en := enabledBuf[:0]
		idx := 0
		for i, t := range e.threads {
			if t == pivot {
				idx = i
			}
		}
		n := len(e.threads)
		for k := 0; k < n; k++ {
			t := e.threads[(idx+k)%n]
			if t.ready() {
				en = append(en, t)
			}
		}
		enabledBuf = en
		next := e.nextTimer()
		nt := 0
		if next != nil && len(en) > 0 && e.earlyTm {
			nt = 1
		}
		if len(en) == 0 {
			if next == nil {
				e.end(e.deadlock("deadlock", "every remaining thread is blocked and no timer is pending"))
				return
			}
			if next.when > e.horizon {
				e.end(e.deadlock("hang", fmt.Sprintf("not finished after %v of virtual time", e.horizon)))
				return
			}
			if !e.fireNext() {
				e.end(nil)
				return
			}
			continue
		}
		k := e.decide(len(en)+nt, 1, kSched)
		if k < 0 {
			e.end(nil)
			return
		}
		if k == len(en) {
			if !e.fireNext() {
				e.end(nil)
				return
			}
			continue
		}
		t := en[k]
		if e.tracing {
			e.note(fmt.Sprintf("%4d %-14s %s", e.steps, t.Name, t.label))
		}
		e.cur = t
		hide()
		t.wake <- struct{}{}
		show()
		return
	}
}

// Go starts a thread of the code under test.
func Go(f func()) {
	e := E
	if e == nil || e.over {
		if e != nil {
			deadPoint()
		}
		go f()
		return
	}
	e.spawn("", f)
	// the new thread may run first: the creator reaches its next point later
}

// Spawn starts a named harness thread.
func Spawn(name string, f func()) *Thread {
	t := E.spawn(name, f)
	t.harness = true
	return t
}

// SpawnIn starts a named harness thread in process p (nil: none).
func SpawnIn(p *Proc, name string, f func()) *Thread {
	t := Spawn(name, f)
	t.proc = p
	return t
}

type joinW struct{ t *Thread }

func (j joinW) Ready(*Thread) bool { return j.t.done }

// Join waits for a thread to finish.
func Join(t *Thread) {
	if t.done {
		E.cur.h = mix(E.cur.h, t.h)
		racq(&t.endClk)
		return
	}
	Block(joinW{t}, "join "+t.Name)
	E.cur.h = mix(E.cur.h, t.h)
	racq(&t.endClk)
}

// Done reports whether a thread has finished.
func (t *Thread) Done() bool { return t.done }

type funcW struct{ f func() bool }

func (f funcW) Ready(*Thread) bool { return f.f() }

// Until blocks the running (harness) thread until f holds.
func Until(label string, o *Obj, f func() bool) {
	Block(funcW{f}, label)
	if o != nil {
		o.Read(hashString(label))
	}
}

// Choose is a free (zero cost) harness decision.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	k := E.decide(n, 0, kChoose)
	if k < 0 {
		Stop()
	}
	E.cur.h = mix(E.cur.h, uint64(k)+0x1234)
	if E.tracing {
		E.note(fmt.Sprintf("      choose %d of %d", k, n))
	}
	return k
}

// ChooseCost is a harness decision whose non-default alternatives use up one unit of the deviation budget.
func ChooseCost(n int) int {
	if n <= 1 {
		return 0
	}
	k := E.decide(n, 1, kChoose)
	if k < 0 {
		Stop()
	}
	E.cur.h = mix(E.cur.h, uint64(k)+0x4321)
	if E.tracing {
		E.note(fmt.Sprintf("      fault choice %d of %d", k, n))
	}
	return k
}

// NextID is a per thread counter, deterministic under every schedule.
func NextID() (thread []int32, n int) {
	if E == nil || E.over {
		return nil, 0
	}
	E.cur.nid++
	return E.cur.path, E.cur.nid
}

// AddrObj returns the object summary for a plain address.
func AddrObj(p unsafe.Pointer) *Obj {
	e := E
	if e == nil {
		return &Obj{}
	}
	o := e.addrs[p]
	if o == nil {
		o = &Obj{}
		e.addrs[p] = o
	}
	return o
}

// Local is per execution storage for the harness.
func Local(key string, mk func() any) any {
	v, ok := E.locals[key]
	if !ok {
		v = mk()
		E.locals[key] = v
	}
	return v
}

func SetHorizon(d time.Duration) { E.horizon = E.now + d }
func SetUnlockPoints(b bool)     { E.unlocks = b }

// Calm turns the exploration of schedules off for a part of an execution (its setup): only the default schedule is run.
func Calm(b bool) { E.calm = b }

func SetEarlyTimers(b bool)      { E.earlyTm = b }
func Now() time.Duration         { return E.now }
func Daemon(t *Thread)           { t.daemon = true }
func MixCur(x uint64)            { E.cur.h = mix(E.cur.h, x) }
func HashString(s string) uint64 { return hashString(s) }
func Steps() int64               { return E.steps }
