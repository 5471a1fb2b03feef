// Lock manager scenarios: the real exclusive locker with its task manager, virtual time for the leases.
package main

import (
	"fmt"
	"time"

	lockmanager "github.com/DanLavine/willow/internal/locker/lock_manager"
	"github.com/DanLavine/willow/internal/middleware"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
	"go.uber.org/zap"
)

const (
	short = 10 * time.Second
	long  = 1000 * time.Second
)

func main() { hx.Main() }

// grant is one lock that a client obtained.
type grant struct {
	name     string
	kv       string
	id, sess string
	inv, ret time.Duration
	lb       time.Duration // lower bound of the last (re)start of the lease
	timeout  time.Duration
	relInv   bool
	relAt    time.Duration
	relOK    bool
	rels     int // releases in progress or done
}

type locker interface {
	lockmanager.ExcluiveLocker
	Execute(vctx.Context) error
}

type world struct {
	h      *hx.H
	l      locker
	stop   func()
	down   bool // shutdown was requested
	exec   *vs.Thread
	base   vctx.Context
	grants []*grant
	o      vs.Obj
}

var kvs = map[string]datatypes.KeyValues{
	"a":  {"a": datatypes.Int(1)},
	"ab": {"a": datatypes.Int(1), "b": datatypes.Int(1)},
	"b":  {"b": datatypes.Int(1)},
}

func newWorld() *world {
	w := &world{h: hx.New()}
	w.l = lockmanager.NewExclusiveLocker()
	ctx, stop := vctx.WithCancel(vctx.Background())
	w.stop = func() {
		w.o.Write(9)
		w.down = true
		stop()
	}
	w.base = vctx.WithValue(vctx.Background(), middleware.LoggerCtxKey, zap.NewNop())
	w.exec = vs.Spawn("locker", func() { _ = w.l.Execute(ctx) })
	return w
}

func (g *grant) held(now time.Duration) bool { return !g.relInv && now < g.lb+g.timeout }

// obtain asks for the lock and waits for it. It returns nil if the call returned without the lock.
func (w *world) obtain(name, kv string, timeout time.Duration, ctx vctx.Context) *grant {
	if ctx == nil {
		ctx = w.base
	}
	inv := vs.Now()
	to := timeout
	lock := w.l.ObtainLock(ctx, &v1locker.Lock{Spec: &v1locker.LockSpec{
		DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.TypedKeyValues(kvs[kv])},
		Properties:   &v1locker.LockProperties{Timeout: &to},
	}})
	now := vs.Now()
	if lock == nil {
		w.o.Write(1)
		if !w.down && ctx.Err() == nil {
			hx.Fail("obtain returned nothing", "%s: ObtainLock returned nil without a cancellation or shutdown", name)
		}
		return nil
	}
	w.o.Write(2)
	g := &grant{name: name, kv: kv, id: lock.State.LockID, sess: lock.State.SessionID, inv: inv, ret: now, lb: inv, timeout: timeout}
	if g.id == "" || g.sess == "" {
		hx.Fail("a grant without identity", "%s: %+v", name, *lock.State)
	}
	if lock.State.TimeTillExipre != timeout {
		hx.Fail("a grant with another timeout", "%s: asked for %v, got %v", name, timeout, lock.State.TimeTillExipre)
	}
	for _, p := range w.grants {
		if p.sess == g.sess {
			hx.Fail("session reused", "%s and %s have session %s", p.name, g.name, g.sess)
		}
		if p.kv != kv {
			if p.id == g.id {
				hx.Fail("different locks share an id", "%s (%s) and %s (%s): %s", p.name, p.kv, g.name, g.kv, p.id)
			}
			continue
		}
		// a grant that is returned late can be older than p: it is only judged when it surely is still valid
		if p.held(now) && now < g.inv+g.timeout {
			hx.Fail("two holders", "at %v %s obtained %s while %s holds it (renewed at %v, timeout %v)", now, g.name, kv, p.name, p.lb, p.timeout)
		}
		end := p.lb + p.timeout
		if p.relInv {
			end = p.relAt
		}
		if end > g.lb && end <= now {
			g.lb = end
		}
	}
	w.grants = append(w.grants, g)
	return g
}

func (w *world) others(g *grant, now time.Duration, what string) {
	for _, p := range w.grants {
		if p != g && p.kv == g.kv && p.held(now) {
			hx.Fail("two holders", "at %v a %s of %s was accepted while %s holds the lock (renewed at %v, timeout %v)", now, what, g.name, p.name, p.lb, p.timeout)
		}
	}
}

func (w *world) beat(g *grant) bool {
	w.o.Write(3)
	inv := vs.Now()
	over := g.relOK
	err := w.l.Heartbeat(w.base, g.id, &v1locker.LockClaim{SessionID: g.sess})
	now := vs.Now()
	w.o.Write(4)
	if err == nil {
		if over {
			hx.Fail("heartbeat accepted after the release", "%s", g.name)
		}
		if inv > g.lb {
			g.lb = inv
		}
		w.others(g, now, "heartbeat")
		return true
	}
	if !w.down && g.held(now) && !over {
		hx.Fail("heartbeat of the holder refused", "%s at %v (renewed at %v, timeout %v): %v", g.name, now, g.lb, g.timeout, err)
	}
	return false
}

func (w *world) release(g *grant) bool {
	w.o.Write(5)
	held := g.held(vs.Now())
	g.rels++
	over := g.relOK
	if !g.relInv {
		g.relAt = vs.Now()
	}
	g.relInv = true
	err := w.l.Release(w.base, g.id, &v1locker.LockClaim{SessionID: g.sess})
	now := vs.Now()
	w.o.Write(6)
	if err == nil {
		if over || g.relOK {
			hx.Fail("released twice", "%s", g.name)
		}
		g.relOK = true
		// the lock may already be obtained by the next client when this call returns
		return true
	}
	if g.rels == 1 && held && !w.down && now < g.lb+g.timeout {
		hx.Fail("release of the holder refused", "%s at %v (renewed at %v, timeout %v): %v", g.name, now, g.lb, g.timeout, err)
	}
	return false
}

// stray sends a heartbeat or release that does not own the lock.
func (w *world) stray(kind, id, sess string) {
	w.o.Write(7)
	claim := &v1locker.LockClaim{SessionID: sess}
	var err any
	switch kind {
	case "heartbeat":
		if e := w.l.Heartbeat(w.base, id, claim); e != nil {
			err = e
		}
	case "release":
		if e := w.l.Release(w.base, id, claim); e != nil {
			err = e
		}
	}
	if err == nil {
		hx.Fail("stray "+kind+" accepted", "id %q session %q", id, sess)
	}
}

func (w *world) query() v1locker.Locks {
	return w.l.LocksQuery(w.base, &queryassociatedaction.AssociatedActionQuery{})
}

func show(ls v1locker.Locks) string {
	s := ""
	for _, l := range ls {
		s += fmt.Sprintf("{%v session %q waiting %d} ", l.Spec.DBDefinition.KeyValues, l.State.SessionID, l.State.LocksHeldOrWaiting)
	}
	return s
}

// idle is called when nobody holds or waits.
func (w *world) idle() {
	if ls := w.query(); len(ls) != 0 {
		hx.Fail("a lock exists that nobody holds or waits for", "%s", show(ls))
	}
}

// finish waits for the clients, for silent holders to expire, and shuts the service down.
func (w *world) finish() {
	w.h.Wait()
	w.o.Write(8)
	if !w.down {
		vs.Sleep(2 * long)
		w.idle()
		w.stop()
	}
	vs.Join(w.exec)
}

func (w *world) cancellable() (vctx.Context, func()) {
	ctx, cancel := vctx.WithCancel(w.base)
	return ctx, cancel
}

type opt func(*hx.Scen)

func early(s *hx.Scen) { s.Early = true }

func sc(props, name string, q, t int, body func(), opts ...opt) {
	s := hx.Sched(props, "lk/"+name, q, t, body)
	s.Horizon = 100 * long
	for _, o := range opts {
		o(s)
	}
}

func init() {
	sc("P07 P08", "two-clients", 2, 3, func() {
		w := newWorld()
		for _, n := range []string{"c1", "c2"} {
			w.h.Go(n, func() {
				if g := w.obtain(n, "a", short, nil); g != nil {
					if n == "c1" {
						w.beat(g)
					}
					w.release(g)
				}
			})
		}
		w.finish()
	})
	sc("P07 P08", "three-clients", 1, 2, func() {
		w := newWorld()
		for _, n := range []string{"c1", "c2", "c3"} {
			w.h.Go(n, func() {
				if g := w.obtain(n, "a", short, nil); g != nil {
					w.release(g)
				}
			})
		}
		w.finish()
	})
	sc("P07 P08", "again", 2, 3, func() {
		w := newWorld()
		w.h.Go("c1", func() {
			for i := 0; i < 2; i++ {
				if g := w.obtain("c1", "a", short, nil); g != nil {
					w.release(g)
				}
			}
		})
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", short, nil); g != nil {
				w.release(g)
			}
		})
		w.finish()
	})
	// a holder goes silent, the next one obtains the lock, then the first one comes back
	sc("P07 P08 P09", "silent-holder", 2, 3, func() {
		w := newWorld()
		w.h.Go("c1", func() {
			g := w.obtain("c1", "a", short, nil)
			if g == nil {
				return
			}
			n := vs.Choose(2)
			for i := 0; i < n; i++ {
				vs.Sleep(6 * time.Second)
				w.beat(g)
			}
			vs.Sleep(11 * time.Second)
			if vs.Choose(2) == 0 {
				w.beat(g)
			} else {
				w.release(g)
			}
		})
		w.h.Go("c2", func() {
			vs.Sleep(time.Second)
			g := w.obtain("c2", "a", long, nil)
			if g != nil {
				vs.Sleep(short)
				w.beat(g)
				w.release(g)
			}
		})
		w.finish()
	})
	// heartbeat, release and the expiry at the same moment, with a waiting client
	sc("P07 P08 P09", "expiry-race", 2, 3, func() {
		w := newWorld()
		g := w.obtain("c1", "a", short, nil)
		w.h.Go("c1", func() {
			vs.Sleep(short)
			if vs.Choose(2) == 0 {
				w.release(g)
			} else if w.beat(g) {
				vs.Sleep(short - 1)
				w.release(g)
			}
		})
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", long, nil); g != nil {
				w.release(g)
			}
		})
		w.finish()
	}, early)
	sc("P07 P08 P09", "expiry-alone", 3, 4, func() {
		w := newWorld()
		g := w.obtain("c1", "a", short, nil)
		w.h.Go("beat", func() {
			vs.Sleep(short)
			w.beat(g)
		})
		w.h.Go("release", func() {
			vs.Sleep(short)
			w.release(g)
		})
		w.finish()
	}, early)
	// a waiting client is cancelled at any moment
	sc("P07 P08", "cancelled-waiter", 2, 3, func() {
		w := newWorld()
		ctx, cancel := w.cancellable()
		w.h.Go("c1", func() {
			if g := w.obtain("c1", "a", short, nil); g != nil {
				w.release(g)
			}
		})
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", short, ctx); g != nil {
				w.release(g)
			}
		})
		w.h.Go("cancel", cancel)
		w.finish()
	})
	sc("P07 P08", "cancelled-alone", 4, 6, func() {
		w := newWorld()
		ctx, cancel := w.cancellable()
		w.h.Go("c1", func() {
			if g := w.obtain("c1", "a", short, ctx); g != nil {
				w.release(g)
			}
		})
		w.h.Go("cancel", cancel)
		w.finish()
	})
	sc("P07 P08", "cancelled-vs-expiry", 2, 3, func() {
		w := newWorld()
		ctx, cancel := w.cancellable()
		w.obtain("c1", "a", short, nil)
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", short, ctx); g != nil {
				w.release(g)
			}
		})
		w.h.Go("cancel", func() {
			vs.Sleep(short)
			cancel()
		})
		w.finish()
	}, early)
	sc("P07 P08", "both-cancelled", 2, 3, func() {
		w := newWorld()
		ctx, cancel := w.cancellable()
		for _, n := range []string{"c1", "c2"} {
			w.h.Go(n, func() {
				if g := w.obtain(n, "a", short, ctx); g != nil {
					w.release(g)
				}
			})
		}
		w.h.Go("cancel", cancel)
		w.finish()
	})
	// heartbeats and releases that do not own the lock, at any moment
	sc("P07 P08", "stray", 2, 3, func() {
		w := newWorld()
		g := w.obtain("c1", "a", short, nil)
		id := g.id
		kind := []string{"heartbeat", "release"}[vs.Choose(2)]
		w.h.Go("c1", func() {
			if vs.Choose(2) == 0 {
				w.beat(g)
			}
			w.release(g)
		})
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", short, nil); g != nil {
				w.beat(g)
				w.release(g)
			}
		})
		w.h.Go("stray", func() { w.stray(kind, id, "nobody") })
		w.finish()
	})
	sc("P07 P08", "stray-vs-cancel", 2, 3, func() {
		w := newWorld()
		ctx, cancel := w.cancellable()
		g := w.obtain("c1", "a", short, nil)
		id := g.id
		kind := []string{"heartbeat", "release"}[vs.Choose(2)]
		w.h.Go("c1", func() { w.release(g) })
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", short, ctx); g != nil {
				w.release(g)
			}
		})
		w.h.Go("cancel", cancel)
		w.h.Go("stray", func() { w.stray(kind, id, "nobody") })
		w.finish()
	})
	sc("P07 P08", "release-twice", 2, 3, func() {
		w := newWorld()
		g := w.obtain("c1", "a", short, nil)
		for _, n := range []string{"r1", "r2"} {
			w.h.Go(n, func() { w.release(g) })
		}
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", short, nil); g != nil {
				w.release(g)
			}
		})
		w.finish()
	})
	// different key value sets are different locks
	sc("P07 P08", "independent-locks", 2, 3, func() {
		w := newWorld()
		a := w.obtain("a", "a", long, nil)
		w.h.Go("ab", func() {
			if g := w.obtain("ab", "ab", short, nil); g != nil {
				w.stray("release", a.id, g.sess)
				w.stray("heartbeat", g.id, a.sess)
				w.release(g)
			}
		})
		w.h.Go("b", func() {
			if g := w.obtain("b", "b", short, nil); g != nil {
				w.release(g)
			}
		})
		w.h.Wait()
		w.beat(a)
		w.release(a)
		w.finish()
	})
	sc("P07 P08", "query", 2, 3, func() {
		w := newWorld()
		w.h.Go("c1", func() {
			if g := w.obtain("c1", "a", short, nil); g != nil {
				w.release(g)
			}
		})
		w.h.Go("c2", func() {
			if g := w.obtain("c2", "a", short, nil); g != nil {
				w.release(g)
			}
		})
		w.h.Go("query", func() {
			if ls := w.query(); len(ls) > 1 {
				hx.Fail("two locks for the same key values", "%s", show(ls))
			}
		})
		w.finish()
	})
	// shutdown
	sc("P08", "shutdown-waiters", 2, 3, func() {
		w := newWorld()
		for _, n := range []string{"c1", "c2"} {
			w.h.Go(n, func() {
				if g := w.obtain(n, "a", short, nil); g != nil {
					if n == "c1" {
						w.release(g)
					}
				}
			})
		}
		w.h.Go("shutdown", w.stop)
		w.finish()
	})
	sc("P08", "shutdown-holder", 2, 3, func() {
		w := newWorld()
		g := w.obtain("c1", "a", short, nil)
		w.h.Go("beat", func() { w.beat(g) })
		w.h.Go("release", func() { w.release(g) })
		w.h.Go("shutdown", w.stop)
		w.finish()
	})
	sc("P08", "shutdown-expiry", 3, 4, func() {
		w := newWorld()
		w.obtain("c1", "a", short, nil)
		w.h.Go("c2", func() { w.obtain("c2", "a", short, nil) })
		w.h.Go("shutdown", func() {
			vs.Sleep(short)
			w.stop()
		})
		w.finish()
	}, early)
	sc("P08", "shutdown-cancel", 2, 3, func() {
		w := newWorld()
		ctx, cancel := w.cancellable()
		w.h.Go("c1", func() { w.obtain("c1", "a", short, ctx) })
		w.h.Go("c2", func() { w.obtain("c2", "a", short, ctx) })
		w.h.Go("cancel", cancel)
		w.h.Go("shutdown", w.stop)
		w.finish()
	})
	// a lock that shares a key value with the first one is created during the shutdown
	sc("P08", "shutdown-other-lock", 2, 4, func() {
		w := newWorld()
		w.obtain("c1", "a", short, nil)
		vs.Sleep(short - 1)
		w.h.Go("c2", func() { w.obtain("c2", "ab", short, nil) })
		w.h.Go("shutdown", func() {
			vs.Sleep(1)
			w.stop()
		})
		w.finish()
	}, early)
	sc("P08", "shutdown-other-lock-cancel", 2, 3, func() {
		w := newWorld()
		ctx, cancel := w.cancellable()
		g := w.obtain("c1", "a", short, nil)
		w.h.Go("waiter", func() { w.obtain("waiter", "a", short, ctx) })
		w.h.Go("c1", func() { w.release(g) })
		w.h.Go("c2", func() { w.obtain("c2", "ab", short, nil) })
		w.h.Go("shutdown", func() {
			w.stop()
			cancel()
		})
		w.finish()
	})
}
