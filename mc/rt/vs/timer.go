package vs

import (
	"fmt"
	"runtime"
	"strings"
	"time"
)

// Base is the wall clock time at virtual time zero.
var Base = time.Date(2024, 7, 1, 12, 0, 0, 0, time.UTC)

type Timer struct {
	o      Obj
	when   time.Duration
	period time.Duration
	active bool
	seq    int
	id     uint64
	fired  uint64
	ch     chan time.Time
	f      func()
	env    func()
	wake   *Thread
	proc   *Proc
	clk    uint64
}

// NewTimer registers a timer. ch (capacity 1, owned) receives ticks, or f is run in a new thread.
func NewTimer(d, period time.Duration, ch chan time.Time, f func()) *Timer {
	t := &Timer{ch: ch, f: f, period: period}
	if Dead() {
		return t
	}
	e := E
	t.proc = e.cur.proc
	t.id = mix(e.cur.h, 0x71)
	e.cur.h = mix(e.cur.h, 0x72)
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	e := E
	if d < 0 {
		d = 0
	}
	t.when = e.now + d
	if t.when < e.now { // overflow
		t.when = 1<<63 - 1
	}
	t.active = true
	rrel(&t.clk)
	e.timerSq++
	t.seq = e.timerSq
	for _, x := range e.timers {
		if x == t {
			return
		}
	}
	e.timers = append(e.timers, t)
}

// Stop deactivates the timer.
func (t *Timer) Stop() bool {
	if Dead() {
		return false
	}
	Point(lbl("timer stop"))
	t.o.Write(0x73)
	was := t.active
	t.disarm()
	return was
}

func (t *Timer) disarm() {
	t.active = false
	e := E
	for i, x := range e.timers {
		if x == t {
			e.timers = append(e.timers[:i], e.timers[i+1:]...)
			break
		}
	}
}

// Reset re-arms the timer. A tick already in the channel stays there (go 1.22 semantics).
func (t *Timer) Reset(d, period time.Duration) bool {
	if Dead() {
		return false
	}
	Point(lbl("timer reset"))
	t.o.Write(0x74)
	was := t.active
	t.disarm()
	t.period = period
	t.arm(d)
	return was
}

func (e *Exec) nextTimer() *Timer {
	var best *Timer
	for _, t := range e.timers {
		if t.proc != nil && t.proc.Dead {
			continue
		}
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

// fireNext advances the clock to the earliest deadline and fires one timer due then. False: cut.
func (e *Exec) fireNext() bool {
	best := e.nextTimer()
	var due []*Timer
	for _, t := range e.timers {
		if t.when == best.when && (t.proc == nil || !t.proc.Dead) {
			due = append(due, t)
		}
	}
	t := best
	if len(due) > 1 {
		// seq order first
		for i := 1; i < len(due); i++ {
			for j := i; j > 0 && due[j].seq < due[j-1].seq; j-- {
				due[j], due[j-1] = due[j-1], due[j]
			}
		}
		k := e.decide(len(due), 1, kTimer)
		if k < 0 {
			return false
		}
		t = due[k]
	}
	if t.when > e.now {
		e.now = t.when
	}
	t.fired++
	if t.o.epoch != e.epoch {
		t.o.epoch, t.o.w, t.o.r = e.epoch, 0, 0
	}
	hv := mix(mix(t.id, t.fired), mix(t.o.w, uint64(e.now)))
	t.o.w = hv
	e.gh += mix(hv, 0x75)
	if e.tracing {
		e.note(fmt.Sprintf("     -- clock %v: timer fires", e.now))
	}
	if t.period > 0 {
		e.timerSq++
		t.seq = e.timerSq
		t.when += t.period
	} else {
		t.disarm()
	}
	e.inEnv = true
	defer func() { e.inEnv = false }()
	switch {
	case t.wake != nil:
		t.wake.grantHash(hv)
	case t.f != nil || t.env != nil:
		save := e.cur
		e.cur = &Thread{proc: t.proc, path: append([]int32{1 << 30}, int32(t.id&0x3fffffff), int32(t.fired)), idHash: hv, h: hv, Name: "timer"}
		if t.env != nil {
			e.freeze++
			t.env()
			e.freeze--
			e.gh += mix(e.cur.h, 0x78)
		} else {
			f := t.f
			e.spawn("timerfunc", func() { racq(&t.clk); f() })
		}
		e.cur = save
	default:
		cs := e.chans[ptrOf(t.ch)]
		if len(cs.buf) < cs.cap {
			save := e.cur
			e.cur = &Thread{h: hv, idHash: hv}
			cs.o.Write(0x76)
			// a blocked receiver takes it from the buffer when it runs (or another ready case)
			cs.buf = append(cs.buf, Base.Add(e.now))
			e.cur = save
		}
	}
	return true
}

// NewEnvTimer registers a timer whose action runs inside the environment step (must not block).
func NewEnvTimer(d time.Duration, f func()) *Timer {
	t := &Timer{env: f}
	if Dead() {
		return t
	}
	e := E
	t.proc = e.cur.proc
	t.id = mix(e.cur.h, 0x71)
	e.cur.h = mix(e.cur.h, 0x72)
	t.arm(d)
	return t
}

// StopNow deactivates without a scheduling point.
func (t *Timer) StopNow() {
	if Dead() {
		return
	}
	t.disarm()
}

// Sleep blocks the running thread for d of virtual time.
func Sleep(d time.Duration) {
	if Dead() {
		deadPoint()
		return
	}
	if d <= 0 {
		Point(lbl("sleep 0"))
		return
	}
	Point(lbl("sleep"))
	t := &Timer{wake: E.cur, proc: E.cur.proc, id: mix(E.cur.h, 0x71)}
	E.cur.h = mix(E.cur.h, 0x72)
	E.cur.granted = false
	t.arm(d)
	Block(GrantWait, "sleeping")
	E.cur.granted = false
}

// lbl adds the call site of the code under test while tracing.
func lbl(s string) string {
	if E == nil || !E.tracing {
		return s
	}
	var pcs [12]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if f.File != "" && !strings.Contains(f.File, "/verifmc/v") {
			p := f.File
			if i := strings.Index(p, "/mod/"); i >= 0 {
				p = p[i+5:]
			}
			return fmt.Sprintf("%s %s:%d", s, p, f.Line)
		}
		if !more {
			return s
		}
	}
}

// Label is lbl for the other runtime packages.
func Label(s string) string { return lbl(s) }
