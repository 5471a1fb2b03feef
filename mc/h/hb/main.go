// Heartbeater scenarios.
package main

import (
	"time"

	"github.com/DanLavine/willow/internal/heartbeater"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
	"github.com/DanLavine/willow/verifmc/vtime"
)

const timeout = 10 * time.Second

// lease supervises one heartbeater and records everything the oracle needs.
type lease struct {
	h        *hx.H
	hb       heartbeater.Heartbeater
	cancel   func()
	exec     *vs.Thread
	timeouts int
	shuts    int
	stops    int
	lastOK   time.Duration // lower bound of the last (re)start of the lease
	started  bool
	startInv time.Duration
	o        vs.Obj
	ended    bool // Execute has returned
}

func newLease(onShutdown bool) *lease {
	l := &lease{h: hx.New()}
	sd := func() {
		l.o.Write(1)
		l.shuts++
	}
	if !onShutdown {
		sd = nil
	}
	hb, err := heartbeater.New(timeout, sd, func() {
		l.o.Write(1)
		l.timeouts++
		if !l.started {
			hx.Fail("timed out before it was started", "onTimeout ran although Start was never called")
		}
		if vs.Now() < l.lastOK+timeout {
			hx.Fail("lease expired early", "timeout fired at %v, but the lease was renewed at or after %v (timeout %v)", vs.Now(), l.lastOK, timeout)
		}
		if l.stops > 0 {
			hx.Fail("timed out after a successful stop", "onTimeout ran after Stop returned true")
		}
	})
	if err != nil {
		hx.Fail("construction failed", "%v", err)
	}
	l.hb = hb
	ctx, cancel := vctx.WithCancel(vctx.Background())
	l.cancel = cancel
	l.exec = vs.Spawn("execute", func() {
		_ = hb.Execute(ctx)
		l.o.Write(1)
		l.ended = true
	})
	return l
}

func (l *lease) start() bool {
	l.o.Write(1)
	if !l.started {
		l.started = true
		l.lastOK = vs.Now()
	}
	return l.hb.Start()
}

func (l *lease) beat() bool {
	inv := vs.Now()
	l.o.Write(1)
	over := l.ended
	ok := l.hb.Heartbeat()
	l.o.Write(1)
	if ok {
		if over {
			hx.Fail("heartbeat accepted after the end", "Heartbeat returned true although the lease had ended before the call")
		}
		if inv > l.lastOK {
			l.lastOK = inv
		}
	}
	return ok
}

func (l *lease) stop() bool {
	l.o.Write(1)
	over := l.ended
	ok := l.hb.Stop()
	l.o.Write(1)
	if ok {
		l.stops++
		if over {
			hx.Fail("stop accepted after the end", "Stop returned true although the lease had ended before the call")
		}
		if l.timeouts+l.shuts > 0 {
			hx.Fail("stop accepted after expiry", "Stop returned true although the lease timed out or was shut down")
		}
	}
	return ok
}

// finish waits for the end of the lease and judges it.
func (l *lease) finish(shutdownCallback bool, cancelled bool) {
	l.h.Wait()
	vs.Join(l.exec)
	ends := l.timeouts + l.shuts + l.stops
	if ends > 1 {
		hx.Fail("lease ended twice", "timeouts=%d shutdowns=%d stops=%d", l.timeouts, l.shuts, l.stops)
	}
	if ends == 0 && (shutdownCallback || !cancelled) {
		hx.Fail("lease ended without a reason", "Execute returned although nothing stopped, timed out or shut down")
	}
	if l.hb.Stop() {
		hx.Fail("stop accepted after the end", "Stop returned true after Execute had returned")
	}
	if l.hb.Heartbeat() {
		hx.Fail("heartbeat accepted after the end", "Heartbeat returned true after Execute had returned")
	}
	if l.hb.Start() {
		hx.Fail("start accepted after the end", "Start returned true after Execute had returned")
	}
}

func sc(name string, q, t int, body func()) {
	s := hx.Sched("P09", "hb/"+name, q, t, body)
	s.Early = true
	s.Unlocks = false
	s.Horizon = time.Hour
}

func init() {
	// the owner heartbeats k times and then goes silent
	sc("silent", 4, 8, func() {
		l := newLease(true)
		l.h.Go("owner", func() {
			l.start()
			n := vs.Choose(3)
			for i := 0; i < n; i++ {
				vs.Sleep(time.Duration(1+vs.Choose(2)) * 4 * time.Second)
				l.beat()
			}
		})
		l.finish(true, false)
		if l.timeouts != 1 {
			hx.Fail("silent lease not taken back", "timeouts=%d", l.timeouts)
		}
	})
	// a heartbeat that coincides with the expiry: either refused, or it keeps the lease for a full timeout
	sc("race-at-expiry", 5, 9, func() {
		l := newLease(true)
		l.h.Go("owner", func() {
			l.start()
			vs.Sleep(timeout)
			if l.beat() {
				if l.stop() {
					return
				}
			}
		})
		l.finish(true, false)
	})
	sc("two-heartbeaters-and-stop", 3, 6, func() {
		l := newLease(true)
		l.start()
		l.h.Go("hb1", func() { l.beat(); l.beat() })
		l.h.Go("hb2", func() { vs.Sleep(timeout); l.beat() })
		l.h.Go("stop", func() { l.stop() })
		l.finish(true, false)
	})
	sc("two-stops", 4, 8, func() {
		l := newLease(true)
		l.start()
		l.h.Go("s1", func() { l.stop() })
		l.h.Go("s2", func() { l.stop() })
		l.finish(true, false)
	})
	sc("stop-vs-timeout-vs-shutdown", 4, 7, func() {
		l := newLease(true)
		l.start()
		l.h.Go("stop", func() { vs.Sleep(timeout); l.stop() })
		l.h.Go("shutdown", func() { vs.Sleep(timeout); l.cancel() })
		l.finish(true, true)
	})
	sc("shutdown-vs-heartbeat", 4, 8, func() {
		l := newLease(true)
		l.start()
		l.h.Go("beat", func() { l.beat(); l.beat() })
		l.h.Go("shutdown", func() { l.cancel() })
		l.finish(true, true)
	})
	sc("two-starts", 4, 8, func() {
		l := newLease(true)
		n := 0
		var o vs.Obj
		f := func() {
			if l.start() {
				o.Write(1)
				n++
			}
		}
		l.h.Go("s1", f)
		l.h.Go("s2", f)
		l.h.Wait()
		if n != 1 {
			hx.Fail("start count", "%d calls of Start returned true", n)
		}
		l.stop()
		l.finish(true, false)
	})
	sc("start-vs-stop", 4, 8, func() {
		l := newLease(true)
		l.h.Go("start", func() { l.start() })
		l.h.Go("stop", func() { l.stop() })
		l.finish(true, false)
	})
	// the time of the last heartbeat, as others see it
	sc("last-heartbeat", 3, 5, func() {
		l := newLease(true)
		epoch := vtime.Now().Add(-vs.Now())
		l.h.Go("owner", func() {
			l.start()
			vs.Sleep(3 * time.Second)
			l.beat()
			vs.Sleep(time.Second)
			l.hb.GetLastHeartbeat()
			if !l.stop() {
				return
			}
			if at := l.hb.GetLastHeartbeat().Sub(epoch); at < l.lastOK || at > vs.Now() {
				hx.Fail("wrong time of the last heartbeat", "%v, the heartbeat was accepted from %v on", at, l.lastOK)
			}
		})
		l.h.Go("reader", func() {
			a := l.hb.GetLastHeartbeat()
			vs.Sleep(3 * time.Second)
			now := vs.Now()
			b := l.hb.GetLastHeartbeat()
			if d := b.Sub(epoch); b.Before(a) || d > vs.Now() {
				hx.Fail("wrong time of the last heartbeat", "%v after %v, read from %v to %v", d, a.Sub(epoch), now, vs.Now())
			}
		})
		l.finish(true, false)
	})
	// shutdown of a lease that was never started
	sc("shutdown-before-start", 3, 5, func() {
		l := newLease(false)
		l.h.Go("shutdown", func() { l.cancel() })
		l.h.Go("later", func() { vs.Sleep(time.Second); l.start() })
		l.finish(false, true)
	})
}

func main() { hx.Main() }
