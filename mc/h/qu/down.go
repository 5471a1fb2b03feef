package main

import (
	"fmt"

	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// ------------------------------------------------------------------ shutdown of the service

func init() {
	down := func(w *cw) { w.h.Go("stop", func() { w.stop() }) }
	sd := func(name string, q, t int, body func()) *hx.Scen { return sc("P18", "shutdown-"+name, q, t, body) }

	sd("idle", 2, 4, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.begin()
		down(w)
		w.finish()
	})
	sd("waiting-consumers", 2, 3, func() {
		w := newCW()
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, nil) })
		w.h.Go("c2", func() { w.work("c2", having("a"), nil) })
		down(w)
		w.finish()
	})
	sd("canceled-consumer", 2, 3, func() {
		w := newCW()
		ctx, cancel := w.cancellable()
		w.put("d1", ka, ckind())
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, ctx) })
		w.h.Go("cancel", cancel)
		down(w)
		w.finish()
	})
	sd("consumer", 2, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, nil) })
		down(w)
		w.finish()
	})
	sd("two-consumers", 1, 2, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.put("d2", ka, ckind())
		w.put("d3", kb, ckind())
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, nil) })
		w.h.Go("c2", func() { w.work("c2", any_, nil) })
		down(w)
		w.finish()
	})
	for _, kv := range []kvs{ka, kb} {
		n := map[bool]string{true: "enqueue", false: "enqueue-new-channel"}[same(kv, ka)]
		sd(n, 2, 3, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			w.begin()
			w.h.Go("p", func() { w.put("d2", kv, ckind()) })
			down(w)
			w.finish()
		})
		sd(n+"-consumer", 1, 2, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			w.begin()
			w.h.Go("c", func() { w.work("c", any_, nil) })
			w.h.Go("p", func() { w.put("d2", kv, ckind()) })
			down(w)
			w.finish()
		})
	}
	for _, pass := range []bool{true, false} {
		n := map[bool]string{true: "ack", false: "fail"}[pass]
		for _, items := range []int{1, 2} {
			sd(fmt.Sprint(n, "-of-", items), 2, 3, func() {
				w := newCW()
				l := w.hold("d1", ka, ckind())
				if items == 2 {
					w.put("d2", ka, ckind())
				}
				w.begin()
				w.h.Go("ack", func() { w.ack(l, pass) })
				down(w)
				w.finish()
			})
		}
	}
	sd("heartbeat", 2, 4, func() {
		w := newCW()
		l := w.hold("d1", ka, ckind())
		w.begin()
		w.h.Go("beat", func() { w.beat(l) })
		down(w)
		w.finish()
	})
	for _, att := range []uint64{0, 1} {
		sd(fmt.Sprint("expiry-attempts-", att), 2, 3, func() {
			w := newCW()
			l := w.hold("d1", ka, kind{false, att, "front", to})
			w.begin()
			w.h.Go("stop", func() {
				vs.Sleep(l.end() - vs.Now())
				w.stop()
			})
			w.finish()
		}).Early = true
	}
	sd("delivery", 2, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		l := w.take("c1", any_, nil)
		good := vs.Choose(2) == 0
		w.begin()
		w.h.Go("deliver", func() {
			if good {
				w.deliver(l)
			} else {
				w.undelivered(l)
			}
		})
		down(w)
		w.finish()
	})
	sd("late-reaction", 1, 2, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.put("d2", kb, ckind())
		l := w.take("c1", any_, nil)
		op := vs.Choose(5)
		w.begin()
		down(w)
		w.h.Wait()
		w.h.Go("late", func() {
			switch op {
			case 0:
				w.deliver(l)
				w.ack(l, true)
			case 1:
				w.undelivered(l)
			case 2:
				w.ack(l, true)
				w.deliver(l)
			case 3:
				w.deliver(l)
				w.beat(l)
			case 4:
				w.ack(l, false)
				w.undelivered(l)
			}
		})
		w.finish()
	})
	sd("then-anything", 1, 2, func() {
		w := newCW()
		l := w.hold("d1", ka, ckind())
		w.put("d2", kb, ckind())
		op := vs.Choose(8)
		w.begin()
		down(w)
		w.h.Wait()
		w.h.Go("late", func() {
			switch op {
			case 0:
				w.put("d3", ka, ckind())
			case 1:
				w.put("d3", kab, ckind())
			case 2:
				w.work("c", any_, nil)
			case 3:
				w.ack(l, true)
			case 4:
				w.ack(l, false)
			case 5:
				w.beat(l)
			case 6:
				w.deleteChannel(kb)
			case 7:
				w.deleteQueue()
			}
		})
		w.finish()
	})
	sd("delete-channel", 2, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.hold("d2", kb, ckind())
		w.begin()
		w.h.Go("delete", func() { w.deleteChannel(kb) })
		down(w)
		w.finish()
	})
	sd("delete-queue", 1, 2, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.hold("d2", kb, ckind())
		w.begin()
		w.h.Go("delete", func() { w.deleteQueue() })
		down(w)
		w.finish()
	})
	sd("limited", 2, 3, func() {
		w := newCW()
		w.limit = 1
		w.lim.rule("user", kvs{"_willow_queue_name": anyValue(), "_willow_running": anyValue()}, 1)
		w.hold("d1", kb, kind{false, 0, "front", 10 * to})
		w.put("d2", ka, ckind())
		w.h.Go("c", func() { w.work("c", any_, nil) })
		vs.Sleep(to / 4)
		w.begin()
		down(w)
		w.finish()
	})
}
