package main

import (
	"fmt"
	"net/http"

	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// ------------------------------------------------------------------ deletion of channels and queues

// del runs a deletion; every item it concerns is gone when it succeeds.
func (w *cw) del(concerns func(queue string, kv kvs) bool, f func() *errors.ServerError) *errors.ServerError {
	w.sync()
	var sure []*citem
	for _, it := range w.order {
		if concerns(w.queue, it.kv) {
			if it.flying {
				it.gone = true
			} else if it.ok {
				it.dying = true
				sure = append(sure, it)
			}
		}
	}
	n := len(w.dels)
	w.dels = append(w.dels, concerns)
	err := f()
	w.sync()
	w.dels[n] = func(string, kvs) bool { return false }
	w.h.Saw(fmt.Sprint("deleted ", status(err)))
	if err == nil {
		for _, it := range sure {
			if !it.dead {
				it.dead, it.deadAt = true, vs.Now()
			}
		}
	}
	return err
}

func (w *cw) deleteChannel(kv kvs) *errors.ServerError {
	return w.del(func(q string, k kvs) bool { return q == w.queue && same(k, kv) }, func() *errors.ServerError {
		return w.q.DeleteChannel(w.base, w.queue, copyKV(kv))
	})
}

func (w *cw) deleteQueue() *errors.ServerError {
	w.wild = true
	return w.del(func(q string, k kvs) bool { return q == w.queue }, func() *errors.ServerError {
		return w.q.DeleteQueue(w.base, w.queue)
	})
}

// delKind is what is deleted in a scenario.
type delKind struct {
	name string
	f    func(w *cw) *errors.ServerError
}

func init() {
	kinds := []delKind{
		{"channel", func(w *cw) *errors.ServerError { return w.deleteChannel(ka) }},
		{"queue", func(w *cw) *errors.ServerError { return w.deleteQueue() }},
	}
	for _, k := range kinds {
		del := func(w *cw) {
			if k.name == "queue" {
				w.wild = true
			}
			w.h.Go("delete", func() { accepted(k.f(w), "delete "+k.name) })
		}
		name := func(n string) string { return "delete-" + k.name + "-" + n }
		sc("P18 P17", name("enqueue"), 2, 3, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			w.begin()
			del(w)
			w.h.Go("p", func() { w.put("d2", ka, ckind()) })
			w.finish()
		})
		sc("P18 P17", name("enqueue-new-channel"), 2, 3, func() {
			w := newCW()
			w.put("d1", kb, ckind())
			w.begin()
			del(w)
			w.h.Go("p", func() { w.put("d2", ka, ckind()) })
			w.finish()
		})
		sc("P18 P17", name("enqueue-updateable"), 1, 3, func() {
			w := newCW()
			u := kind{true, 1, "front", to}
			w.put("d1", ka, u)
			w.begin()
			del(w)
			w.h.Go("p", func() { w.put("d2", ka, u) })
			w.finish()
		})
		sc("P18 P17", name("consumer"), 1, 2, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			w.begin()
			g := w.guest("c", any_)
			del(w)
			g.leave()
			w.finish()
		})
		sc("P18 P17", name("consumer-other-channel"), 1, 2, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			w.put("d2", kb, ckind())
			w.begin()
			g := w.guest("c", having("b"))
			del(w)
			g.leave()
			w.finish()
		})
		sc("P18", name("consumer-enqueue"), 1, 1, func() {
			w := newCW()
			w.begin()
			g := w.guest("c", any_)
			w.h.Go("p", func() { w.put("d1", ka, ckind()) })
			del(w)
			g.leave()
			w.finish()
		})
		for _, pass := range []bool{true, false} {
			pn := map[bool]string{true: "ack", false: "fail"}[pass]
			sc("P18 P17", name(pn), 2, 3, func() {
				w := newCW()
				l := w.hold("d1", ka, ckind())
				w.begin()
				del(w)
				w.h.Go("ack", func() { w.ack(l, pass) })
				w.finish()
			})
			sc("P18", name(pn+"-two-items"), 1, 2, func() {
				w := newCW()
				w.put("d1", ka, ckind())
				w.put("d2", ka, ckind())
				l := w.take("c", any_, nil)
				w.deliver(l)
				w.begin()
				del(w)
				w.h.Go("ack", func() { w.ack(l, pass) })
				w.finish()
			})
		}
		sc("P18", name("heartbeat"), 2, 3, func() {
			w := newCW()
			l := w.hold("d1", ka, ckind())
			w.begin()
			del(w)
			w.h.Go("beat", func() { w.beat(l) })
			w.finish()
		})
		for _, att := range []uint64{0, 1} {
			sc("P18 P17", name(fmt.Sprint("expiry-attempts-", att)), 2, 3, func() {
				w := newCW()
				l := w.hold("d1", ka, kind{false, att, "front", to})
				w.begin()
				if k.name == "queue" {
					w.wild = true
				}
				w.h.Go("delete", func() {
					vs.Sleep(l.end() - vs.Now())
					accepted(k.f(w), "delete "+k.name)
				})
				w.finish()
			}).Early = true
		}
		sc("P18", name("delivery"), 1, 3, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			l := w.take("c1", any_, nil)
			w.begin()
			del(w)
			w.h.Go("deliver", func() { w.deliver(l) })
			w.finish()
		})
		sc("P18", name("failed-delivery"), 1, 3, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			l := w.take("c1", any_, nil)
			w.begin()
			del(w)
			w.h.Go("deliver", func() { w.undelivered(l) })
			w.finish()
		})
		sc("P18", name("late-delivery"), 1, 2, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			l := w.take("c1", any_, nil)
			good := vs.Choose(2) == 0
			w.begin()
			del(w)
			w.h.Wait()
			if good {
				w.deliver(l)
			} else {
				w.undelivered(l)
			}
			w.finish()
		})
		sc("P18 P17", name("two-items"), 1, 2, func() {
			w := newCW()
			w.put("d1", ka, ckind())
			w.put("d2", ka, ckind())
			w.put("d3", kab, ckind())
			w.begin()
			del(w)
			w.finish()
		})
		sc("P18 P17", name("other-ack"), 1, 3, func() {
			w := newCW()
			l := w.hold("d1", kb, ckind())
			w.put("d2", ka, ckind())
			w.begin()
			del(w)
			w.h.Go("ack", func() { w.ack(l, true) })
			w.finish()
		})
		sc("P18", name("limited"), 1, 2, func() {
			w := newCW()
			w.limit = 1
			w.lim.rule("user", kvs{"_willow_queue_name": anyValue(), "_willow_running": anyValue()}, 1)
			w.hold("d1", kb, kind{false, 0, "front", to})
			w.put("d2", ka, ckind())
			g := w.guest("c", any_)
			vs.Sleep(to / 4)
			w.begin()
			del(w)
			g.leave()
			w.finish()
		})
	}
	sc("P18 P17", "delete-channel-twice", 2, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.begin()
		w.h.Go("d1", func() { w.deleteChannel(ka) })
		w.h.Go("d2", func() { w.deleteChannel(ka) })
		w.finish()
	})
	sc("P18 P17", "delete-channel-and-queue", 1, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.put("d2", kb, ckind())
		w.wild = true
		w.begin()
		w.h.Go("d1", func() { w.deleteChannel(ka) })
		w.h.Go("d2", func() { accepted(w.deleteQueue(), "delete queue") })
		w.finish()
	})
	sc("P18 P17", "delete-queue-twice", 2, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.wild = true
		w.begin()
		n := 0
		for i := 0; i < 2; i++ {
			w.h.Go(fmt.Sprint("d", i), func() {
				if err := w.deleteQueue(); err == nil {
					n++
				} else if err.StatusCode != http.StatusConflict {
					hx.Fail("refused with another status: deletion", "%v", err)
				}
			})
		}
		w.h.Wait()
		w.sync()
		if n == 0 {
			hx.Fail("refused: delete queue", "both deletions")
		}
		w.finish()
	})
	sc("P18 P17", "delete-queue-create", 2, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.wild = true
		w.begin()
		w.h.Go("delete", func() { accepted(w.deleteQueue(), "delete queue") })
		w.h.Go("create", func() {
			w.sync()
			err := w.create("q", -1)
			w.sync()
			w.h.Saw(status(err))
			if err != nil && err.StatusCode != http.StatusConflict {
				hx.Fail("refused with another status: create queue", "%v", err)
			}
		})
		w.finish()
	})
	sc("P17", "create-queue-twice", 2, 4, func() {
		w := newCW()
		w.begin()
		n := 0
		for i := 0; i < 2; i++ {
			w.h.Go(fmt.Sprint("c", i), func() {
				if err := w.create("new", int64(i)); err == nil {
					n++
				} else if err.StatusCode != http.StatusConflict {
					hx.Fail("refused with another status: create queue", "%v", err)
				}
			})
		}
		w.h.Wait()
		w.sync()
		if n != 1 {
			hx.Fail("a queue is created twice", "%d accepted", n)
		}
		q, err := w.q.GetQueue(w.base, "new")
		if err != nil {
			hx.Fail("a created queue is missing", "%v", err)
		}
		w.limitIs("a queue", "new", *q.Spec.Properties.MaxItems)
		w.finish()
	})
	sc("P17", "update-delete-queue", 2, 4, func() {
		w := newCW()
		w.wild = true
		w.begin()
		w.h.Go("update", func() {
			w.sync()
			err := w.q.UpdateQueue(w.base, "q", &v1willow.QueueProperties{MaxItems: ptr[int64](3)})
			w.h.Saw(status(err))
			if err != nil && err.StatusCode != http.StatusNotFound && err.StatusCode != http.StatusConflict {
				hx.Fail("refused with another status: update queue", "%v", err)
			}
		})
		w.h.Go("delete", func() { accepted(w.deleteQueue(), "delete queue") })
		w.finish()
	})
	sc("P17", "update-queue-twice", 2, 4, func() {
		w := newCW()
		w.begin()
		for i := 1; i < 3; i++ {
			w.h.Go(fmt.Sprint("u", i), func() {
				accepted(w.q.UpdateQueue(w.base, "q", &v1willow.QueueProperties{MaxItems: ptr(int64(i))}), "update queue")
			})
		}
		w.h.Wait()
		w.sync()
		q, err := w.q.GetQueue(w.base, "q")
		if err != nil {
			hx.Fail("a queue is missing", "%v", err)
		}
		w.limitIs("a queue", "q", *q.Spec.Properties.MaxItems)
		w.finish()
	})
	sc("P17", "delete-queue-read", 2, 4, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.put("d2", kb, ckind())
		w.wild = true
		w.begin()
		w.h.Go("delete", func() { accepted(w.deleteQueue(), "delete queue") })
		w.h.Go("read", func() {
			w.sync()
			q, err := w.q.GetQueue(w.base, "q")
			w.h.Saw(status(err))
			if err == nil && (*q.Spec.DBDefinition.Name != "q" || *q.Spec.Properties.MaxItems != -1) {
				hx.Fail("a queue is shown with other properties", "%v", q)
			}
			l, lerr := w.q.ListQueues(w.base)
			if lerr != nil {
				hx.Fail("list of queues", "%v", lerr)
			}
			if len(l) > 1 || status(err) == http.StatusNotFound && len(l) != 0 {
				hx.Fail("a deleted queue is listed", "%d", len(l))
			}
			ch, cerr := w.q.QueryChannels(w.base, "q", any_)
			w.h.Saw(fmt.Sprint(len(l), len(ch), status(cerr)))
			if len(l) == 0 && cerr == nil {
				hx.Fail("channels of a deleted queue are listed", "%d", len(ch))
			}
		})
		w.finish()
	})
	sc("P17", "delete-channel-read", 2, 4, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		w.put("d2", kb, ckind())
		w.begin()
		w.h.Go("delete", func() { accepted(w.deleteChannel(ka), "delete channel") })
		w.h.Go("read", func() {
			for i := 0; i < 2; i++ {
				w.sync()
				gone := w.items["d1"].dead
				ch, err := w.q.QueryChannels(w.base, "q", any_)
				w.h.Saw(fmt.Sprint(len(ch), status(err)))
				if err != nil {
					hx.Fail("query of channels", "%v", err)
				}
				if len(ch) > 2 || len(ch) < 1 || gone && len(ch) != 1 {
					hx.Fail("channels are not shown as they are", "%d channels", len(ch))
				}
			}
		})
		w.finish()
	})
	for i, kv := range []kvs{ka, kb} {
		sc("P17 P18", fmt.Sprint("delete-queue-next-to-queue-", i), 1, 2, func() {
			w := newCW()
			accepted(w.create("other", -1), "create queue")
			accepted(w.enqueue("other", kv, ckind(), "x"), "enqueue")
			w.put("d1", ka, ckind())
			w.wild = true
			w.begin()
			w.h.Go("delete", func() { accepted(w.deleteQueue(), "delete queue") })
			w.h.Go("c", func() {
				item, ok, _, err := w.q.Dequeue(w.base, "other", any_)
				accepted(err, "dequeue of another queue")
				if string(item.Spec.Properties.Data) != "x" {
					hx.Fail("an item of another queue", "%s", item.Spec.Properties.Data)
				}
				ok()
				accepted(w.sys.ack("other", kv, item.State.ID, true), "acknowledgement in another queue")
			})
			w.h.Wait()
			accepted(w.q.DeleteQueue(w.base, "other"), "delete queue")
			w.finish()
		})
	}
}
