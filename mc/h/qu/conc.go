package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// ------------------------------------------------------------------ monitors of concurrent histories

// citem is one enqueued item; its data is unique.
type citem struct {
	data   string
	kv     kvs
	k      kind
	sent   bool // enqueue was called
	ok     bool // and accepted
	passed bool // acknowledged
	fails  int  // processing attempts that failed
	flying bool // the enqueue is under way
	gone   bool // enqueued while its channel or queue was deleted: it may be gone or not
	dying  bool // the deletion of its channel or queue started
	dead   bool // and is done
	deadAt time.Duration
	late   bool // a consumer whose time was over reacted to it: the reaction counts for the next attempt
	leases []*lease
	t0, t1 int // order of the beginnings and ends of enqueues
}

// lease is an item in the hands of one consumer.
type lease struct {
	who   string
	it    *citem
	id    string
	ok    func()
	bad   func()
	live  bool          // delivered
	lb    time.Duration // lower bound of the last (re)start of its time
	begun time.Duration
	over  bool // acknowledged, failed or undelivered
	acks  int
	open  int  // acknowledgements under way
	bad_  bool // reported as undelivered
}

type cw struct {
	*sys
	queue string
	items map[string]*citem
	order []*citem
	ls    []*lease
	limit int                               // running items at most, 0 none
	dels  []func(queue string, kv kvs) bool // deletions under way
	wild  bool                              // queues are deleted
	puts  int
}

// replaced reports whether other work may have taken the place of an updateable item: an enqueue that was not over
// when the item's began, a newer item when it was retried, an item that was put to the back behind it.
func (w *cw) replaced(it *citem) bool {
	if !it.k.upd {
		return false
	}
	for _, o := range w.order {
		if o != it && same(o.kv, it.kv) && (o.ok && o.t1 > it.t0 || o.k.pos == "back" && len(o.leases) > 0) {
			return true
		}
	}
	return false
}

const to = 10 * time.Second

func ckind() kind { return kind{false, 1, "front", to} }

func newCW() *cw {
	vs.Calm(true)
	w := &cw{sys: newSys(), queue: "q", items: map[string]*citem{}}
	accepted(w.create("q", -1), "create queue")
	vs.Sleep(1)
	return w
}

// begin starts the exploration of schedules.
func (w *cw) begin() {
	vs.Sleep(1)
	vs.Calm(false)
}

func (w *cw) sync() { w.o.Write(0x61) }

// put enqueues an item and reports whether it was accepted.
func (w *cw) put(data string, kv kvs, k kind) bool {
	it := &citem{data: data, kv: kv, k: k, sent: true, flying: true}
	w.sync()
	w.puts++
	it.t0 = w.puts
	w.items[data] = it
	w.order = append(w.order, it)
	for _, d := range w.dels {
		if d(w.queue, kv) {
			it.gone = true
		}
	}
	err := w.enqueue(w.queue, kv, k, data)
	w.sync()
	w.puts++
	it.t1 = w.puts
	it.flying = false
	if err == nil {
		it.ok = true
		w.h.Saw(data + " in")
		return true
	}
	w.h.Saw(data + " out")
	if !w.wild && !w.down {
		hx.Fail("refused: enqueue", "%s: %v", data, err)
	}
	return false
}

func (l *lease) end() time.Duration { return l.lb + l.it.k.time }

// held: the item surely belongs to this consumer.
func (l *lease) held(now time.Duration) bool { return !l.over && (!l.live || now < l.end()) }

// take waits for an item; nil when the call was canceled or the service stops.
func (w *cw) take(who string, q *query, ctx vctx.Context) *lease {
	if ctx == nil {
		ctx = w.base
	}
	w.sync()
	was := map[*citem]bool{}
	for _, it := range w.order {
		was[it] = it.dead
	}
	item, ok, bad, err := w.q.Dequeue(ctx, w.queue, q)
	now := vs.Now()
	w.o.Write(0x62)
	if item == nil {
		w.h.Saw(who + " nothing")
		if err == nil {
			hx.Fail("neither an item nor an error", "%s", who)
		}
		if ctx.Err() == nil && !w.down && !w.wild {
			hx.Fail("a consumer is turned away", "%s: %v", who, err)
		}
		return nil
	}
	if err != nil {
		hx.Fail("an item and an error", "%s: %v", who, err)
	}
	data := string(item.Spec.Properties.Data)
	w.h.Saw(who + " " + data)
	it := w.items[data]
	if it == nil || !it.sent {
		hx.Fail("an item that nobody enqueued", "%s got %q", who, data)
	}
	w.fits(who, it, item)
	if was[it] || it.dead && now > it.deadAt {
		hx.Fail("an item of a deleted channel is handed out", "%s got %q", who, data)
	}
	if it.passed && !it.late {
		hx.Fail("an item is handed out after it was acknowledged", "%s got %q", who, data)
	}
	if it.fails > int(it.k.att) && !it.late {
		hx.Fail("an item is handed out more often than allowed", "%s got %q", who, data)
	}
	for _, l := range it.leases {
		if l.held(now) {
			hx.Fail("two consumers have the same item", "%s got %q while %s has it", who, data, l.who)
		}
		if l.id != item.State.ID {
			hx.Fail("an item changed its id", "%q", data)
		}
	}
	for _, l := range w.ls {
		if l.it != it && l.id == item.State.ID && !l.it.k.upd {
			hx.Fail("two items have the same id", "%q and %q", data, l.it.data)
		}
	}
	if w.limit > 0 {
		n := 1
		for _, l := range w.ls {
			if l.held(now) {
				n++
			}
		}
		if n > w.limit {
			hx.Fail("more items are processed than the limit allows", "%d, limit %d", n, w.limit)
		}
	}
	l := &lease{who: who, it: it, id: item.State.ID, ok: ok, bad: bad, begun: now}
	it.leases = append(it.leases, l)
	w.ls = append(w.ls, l)
	return l
}

func (w *cw) fits(who string, it *citem, got *v1willow.Item) {
	p := got.Spec.Properties
	if !same(copyKV(got.Spec.DBDefinition.KeyValues), it.kv) || *p.Updateable != it.k.upd || *p.RetryAttempts != it.k.att || *p.RetryPosition != it.k.pos || *p.TimeoutDuration != it.k.time {
		hx.Fail("an item is handed out with other properties", "%s got %q with %v %v %v %v", who, it.data, *p.Updateable, *p.RetryAttempts, *p.RetryPosition, *p.TimeoutDuration)
	}
}

func (w *cw) deliver(l *lease) {
	w.sync()
	l.live = true
	l.lb = vs.Now()
	l.ok()
	w.sync()
}

// undelivered reports that the consumer never got the item.
func (w *cw) undelivered(l *lease) {
	w.sync()
	l.over, l.bad_ = true, true
	l.bad()
	w.sync()
}

// ack acknowledges the item and reports whether that was accepted.
func (w *cw) ack(l *lease, passed bool) bool {
	w.sync()
	now := vs.Now()
	was := l.held(now)
	it := l.it
	for _, x := range it.leases {
		if x != l && x.begun >= l.begun && !l.held(now) {
			it.late = true
		}
	}
	if l.live && now >= l.end() {
		it.late = true
	}
	l.acks++
	alone := l.acks == 1
	held := l.over
	dead := it.dead
	l.over = true
	err := w.sys.ack(w.queue, it.kv, l.id, passed)
	w.sync()
	if err == nil {
		w.h.Saw("accepted")
		if dead {
			hx.Fail("an item of a deleted channel is acknowledged", "%s %q", l.who, it.data)
		}
		if held && !it.late && l.open != 0 {
			hx.Fail("an item is acknowledged twice", "%s %q", l.who, it.data)
		}
		l.open = 1
		if passed {
			it.passed = true
		} else {
			it.fails++
		}
		return true
	}
	w.h.Saw("refused")
	if was && alone && l.acks == 1 && !it.late && !it.dying && !it.gone && !l.bad_ && !w.down && (!l.live || vs.Now() < l.end()) {
		hx.Fail("refused: acknowledgement of a processing item", "%s %q: %v", l.who, it.data, err)
	}
	if err.StatusCode != http.StatusNotFound && !w.wild && !w.down {
		hx.Fail("refused with another status: acknowledgement", "%s %q: %v", l.who, it.data, err)
	}
	return false
}

func (w *cw) beat(l *lease) bool {
	w.sync()
	inv := vs.Now()
	was := l.held(inv)
	over := l.over
	dead := l.it.dead
	err := w.sys.heartbeat(w.queue, l.it.kv, l.id)
	w.sync()
	if err == nil {
		w.h.Saw("beat")
		if dead {
			hx.Fail("a heartbeat for an item of a deleted channel is accepted", "%s %q", l.who, l.it.data)
		}
		if over && l.open == 1 && len(l.it.leases) == 1 {
			hx.Fail("heartbeat accepted after the acknowledgement", "%s %q", l.who, l.it.data)
		}
		if inv > l.lb {
			l.lb = inv
		}
		return true
	}
	w.h.Saw("no beat")
	if was && !l.over && vs.Now() < l.end() && !l.it.dying && !l.it.gone && !w.down {
		hx.Fail("refused: heartbeat of a processing item", "%s %q: %v", l.who, l.it.data, err)
	}
	return false
}

// work takes one item, delivers and acknowledges it.
func (w *cw) work(who string, q *query, ctx vctx.Context) {
	if l := w.take(who, q, ctx); l != nil {
		w.deliver(l)
		w.ack(l, true)
	}
}

func (w *cw) cancellable() (vctx.Context, func()) { return vctx.WithCancel(w.base) }

// finish waits for every call, lets the items of silent consumers expire, and compares what is left.
func (w *cw) finish() {
	w.h.Wait()
	w.sync()
	if w.down {
		vs.Join(w.exec)
		return
	}
	vs.Calm(true)
	vs.Sleep(1)
	w.counters("when every call returned")
	vs.Sleep(10 * to)
	w.rest()
	w.stop()
	vs.Join(w.exec)
}

// counters compares the counters of the limiter with the items that are held by consumers.
func (w *cw) counters(when string) {
	now := vs.Now()
	run := map[string]int64{}
	skip := map[string]bool{}
	for _, it := range w.order {
		for i, l := range it.leases {
			switch {
			case it.dead:
			case it.gone && l.held(now):
				skip[show(it.kv)] = true
			case i == len(it.leases)-1 && l.held(now):
				run[show(it.kv)]++
			case l.live && now >= l.end() && l.acks == 0:
				skip[show(it.kv)] = true // expires at this moment
			}
		}
	}
	for _, it := range w.order {
		if s := show(it.kv); !skip[s] {
			if n := w.lim.value(runKV(w.queue, it.kv)); n != run[s] {
				hx.Fail("the number of running items is wrong", "%s: %s has %d, %d are processing\n%s", when, s, n, run[s], w.lim.key())
			}
		}
	}
}

// rest empties the queue; every item that must be there is handed out exactly once more.
func (w *cw) rest() {
	for _, it := range w.order {
		for i, l := range it.leases {
			if i == len(it.leases)-1 && !l.over && l.live {
				l.over = true
				it.fails++ // its time is over
			}
		}
	}
	must := map[string]bool{}
	may := map[string]bool{}
	left := map[string]int64{}
	for _, it := range w.order {
		left[show(it.kv)] = w.lim.value(enqKV(w.queue, it.kv))
		switch {
		case it.dead || !it.ok:
		case it.passed && !it.late:
		case it.fails > int(it.k.att) && !it.late:
		case it.late || it.gone || w.replaced(it):
			may[it.data] = true
		default:
			must[it.data] = true
		}
	}
	_, missing := w.q.GetQueue(w.base, w.queue)
	if missing != nil && !w.wild {
		hx.Fail("the queue is gone", "%v", missing)
	}
	for missing == nil {
		ctx, cancel := w.cancellable()
		var got *lease
		done := false
		vs.Spawn("drain", func() {
			got = w.take("drain", &query{}, ctx)
			if got != nil {
				w.deliver(got)
				if !w.ack(got, true) {
					hx.Fail("refused: acknowledgement of a processing item", "drain %q", got.it.data)
				}
			}
			done = true
		})
		vs.Sleep(6 * time.Second)
		w.sync()
		if !done {
			cancel()
			vs.Sleep(1)
			w.sync()
			if !done {
				hx.Fail("a canceled consumer does not return", "drain")
			}
			break
		}
		if got == nil {
			break
		}
		if !must[got.it.data] && !may[got.it.data] {
			hx.Fail("an item that should be gone is handed out", "%q", got.it.data)
		}
		delete(must, got.it.data)
		delete(may, got.it.data)
		left[show(got.it.kv)]--
	}
	if len(must) > 0 {
		var l []string
		for d := range must {
			l = append(l, d)
		}
		sort.Strings(l)
		hx.Fail("items are lost", "%s\n%s", strings.Join(l, " "), w.lim.key())
	}
	for k, n := range left {
		if n != 0 {
			hx.Fail("the number of enqueued items is wrong", "%s was %d more than what was left", k, n)
		}
	}
	// nothing is left
	if missing == nil {
		l, err := w.q.QueryChannels(w.base, w.queue, &query{})
		if err != nil {
			hx.Fail("query of channels", "%v", err)
		}
		if len(l) != 0 {
			hx.Fail("an empty channel is left", "%v", l[0].Spec.DBDefinition.KeyValues)
		}
		if w.wild {
			w.limitIs("the queue", w.queue, -1)
		}
	} else {
		w.limitIs("a deleted queue", w.queue, -2)
		// the name can be used again
		accepted(w.create(w.queue, -1), "create a deleted queue again")
		w.wild = false
		l := w.hold("again", datatypes.KeyValues{"again": datatypes.Int(1)}, ckind())
		if !w.ack(l, true) {
			hx.Fail("refused: acknowledgement in a new queue", "")
		}
	}
	if len(w.lim.ctrs) != 0 {
		hx.Fail("counters are left", "%s", w.lim.key())
	}
}

// limitIs checks the override of a queue; -2 for none.
func (w *cw) limitIs(what, queue string, want int64) {
	got := int64(-2)
	for _, r := range w.lim.rules {
		for _, o := range r.ovr {
			if o.group["_willow_queue_name"].Data == queue && r.id == ruleID {
				if got != -2 {
					hx.Fail("two limits of a queue", "%s", w.lim.key())
				}
				got = o.limit
			}
		}
	}
	if got != want {
		hx.Fail("limit of "+what, "%d, want %d\n%s", got, want, w.lim.key())
	}
}

// hold prepares an item that is processed by a consumer.
func (w *cw) hold(data string, kv kvs, k kind) *lease {
	w.put(data, kv, k)
	l := w.take("holder", &query{}, nil)
	if l == nil {
		hx.Fail("nothing to hold", "%s", data)
	}
	w.deliver(l)
	return l
}

func sc(props, name string, q, t int, body func()) *hx.Scen {
	s := hx.Sched(props, "qc/"+name, q, t, body)
	s.Horizon = 100 * to
	return s
}

var (
	ka   = datatypes.KeyValues{"a": datatypes.Int(1)}
	kb   = datatypes.KeyValues{"b": datatypes.Int(1)}
	kab  = datatypes.KeyValues{"a": datatypes.Int(1), "b": datatypes.Int(1)}
	any_ = &query{}
)

// guests are consumers that are canceled when everything else is done.
type guests struct {
	w      *cw
	ts     []*vs.Thread
	cancel []func()
}

func (w *cw) guest(who string, q *query) *guests { return (&guests{w: w}).add(who, q) }

func (g *guests) add(who string, q *query) *guests {
	ctx, cancel := g.w.cancellable()
	g.cancel = append(g.cancel, cancel)
	g.ts = append(g.ts, vs.Spawn(who, func() { g.w.work(who, q, ctx) }))
	return g
}

// leave cancels the guests that still wait.
func (g *guests) leave() {
	g.w.h.Wait()
	vs.Sleep(1)
	for _, c := range g.cancel {
		c()
	}
	for _, t := range g.ts {
		vs.Join(t)
	}
}

func init() {
	sc("P14 P16", "two-consumers-one-item", 2, 3, func() {
		w := newCW()
		w.begin()
		g := w.guest("c1", any_).add("c2", any_)
		w.h.Go("p", func() { w.put("d1", ka, ckind()) })
		g.leave()
		w.finish()
	})
	sc("P14 P16", "two-items-of-a-channel", 1, 2, func() {
		w := newCW()
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, nil) })
		w.h.Go("c2", func() { w.work("c2", any_, nil) })
		w.h.Go("p1", func() { w.put("d1", ka, ckind()) })
		w.h.Go("p2", func() { w.put("d2", ka, ckind()) })
		w.finish()
	})
	sc("P14 P16", "two-channels", 1, 2, func() {
		w := newCW()
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, nil) })
		w.h.Go("c2", func() { w.work("c2", having("a"), nil) })
		w.h.Go("p1", func() { w.put("d1", ka, ckind()) })
		w.h.Go("p2", func() { w.put("d2", kab, ckind()) })
		w.finish()
	})
	sc("P14 P16", "one-consumer-new-channel", 2, 4, func() {
		w := newCW()
		w.begin()
		w.h.Go("c", func() { w.work("c", any_, nil) })
		w.h.Go("p", func() { w.put("d1", ka, ckind()) })
		w.finish()
	})
	sc("P16 P14", "canceled-consumer", 2, 3, func() {
		w := newCW()
		ctx, cancel := w.cancellable()
		w.begin()
		w.h.Go("c", func() { w.work("c", any_, ctx) })
		w.h.Go("p", func() { w.put("d1", ka, ckind()) })
		w.h.Go("cancel", cancel)
		w.finish()
	})
	sc("P16 P14", "canceled-next-to-waiting", 1, 2, func() {
		w := newCW()
		ctx, cancel := w.cancellable()
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, ctx) })
		g := w.guest("c2", any_)
		w.h.Go("p", func() { w.put("d1", ka, ckind()) })
		w.h.Go("cancel", cancel)
		g.leave()
		w.finish()
	})
	sc("P16 P14", "canceled-existing-item", 2, 4, func() {
		w := newCW()
		ctx, cancel := w.cancellable()
		w.put("d1", ka, ckind())
		w.begin()
		w.h.Go("c", func() { w.work("c", any_, ctx) })
		w.h.Go("cancel", cancel)
		w.finish()
	})
	// the end of the processing time
	for _, pass := range []bool{true, false} {
		name := map[bool]string{true: "pass", false: "fail"}[pass]
		sc("P14", "expiry-vs-"+name, 2, 4, func() {
			w := newCW()
			l := w.hold("d1", ka, ckind())
			w.begin()
			w.h.Go("ack", func() {
				vs.Sleep(l.end() - vs.Now())
				w.ack(l, pass)
			})
			w.finish()
		}).Early = true
	}
	sc("P14", "expiry-vs-heartbeat", 2, 4, func() {
		w := newCW()
		l := w.hold("d1", ka, ckind())
		w.begin()
		w.h.Go("beat", func() {
			vs.Sleep(l.end() - vs.Now())
			if w.beat(l) {
				vs.Sleep(to - 1)
				w.ack(l, true)
			}
		})
		w.finish()
	}).Early = true
	sc("P14 P16", "expiry-vs-consumer", 1, 2, func() {
		w := newCW()
		l := w.hold("d1", ka, ckind())
		w.begin()
		w.h.Go("ack", func() {
			vs.Sleep(l.end() - vs.Now())
			w.ack(l, true)
		})
		g := w.guest("c2", any_)
		w.h.Go("wait", func() { vs.Sleep(to + 1) })
		g.leave()
		w.finish()
	}).Early = true
	sc("P14 P16", "last-expiry-vs-enqueue", 2, 3, func() {
		w := newCW()
		l := w.hold("d1", ka, kind{false, 0, "front", to})
		w.begin()
		w.h.Go("p", func() {
			vs.Sleep(l.end() - vs.Now())
			w.put("d2", ka, ckind())
		})
		w.finish()
	})
	sc("P14 P16", "last-expiry-vs-enqueue-and-consumer", 1, 2, func() {
		w := newCW()
		l := w.hold("d1", ka, kind{false, 0, "front", to})
		w.begin()
		w.h.Go("p", func() {
			vs.Sleep(l.end() - vs.Now())
			w.put("d2", ka, ckind())
		})
		w.h.Go("c", func() { w.work("c", any_, nil) })
		w.finish()
	})
	// acknowledgements
	for _, k := range [][2]bool{{true, true}, {true, false}, {false, false}} {
		k := k
		sc("P14", fmt.Sprintf("two-acks-%v-%v", k[0], k[1]), 2, 4, func() {
			w := newCW()
			l := w.hold("d1", ka, ckind())
			w.begin()
			n := 0
			for i, p := range k {
				w.h.Go(fmt.Sprint("ack", i), func() {
					if w.ack(l, p) {
						n++
					}
				})
			}
			w.h.Wait()
			w.sync()
			if n != 1 {
				hx.Fail("an item is acknowledged twice", "%d accepted", n)
			}
			w.finish()
		})
	}
	sc("P14 P16", "last-ack-vs-enqueue", 2, 3, func() {
		w := newCW()
		l := w.hold("d1", ka, ckind())
		w.begin()
		w.h.Go("ack", func() { w.ack(l, true) })
		w.h.Go("p", func() { w.put("d2", ka, ckind()) })
		w.finish()
	})
	sc("P14 P16", "last-ack-vs-enqueue-and-consumer", 1, 2, func() {
		w := newCW()
		l := w.hold("d1", ka, ckind())
		w.begin()
		w.h.Go("ack", func() { w.ack(l, true) })
		w.h.Go("p", func() { w.put("d2", ka, ckind()) })
		w.h.Go("c", func() { w.work("c", any_, nil) })
		w.finish()
	})
	sc("P14 P16", "last-fail-vs-enqueue-and-consumer", 1, 2, func() {
		w := newCW()
		l := w.hold("d1", ka, kind{false, 0, "front", to})
		w.begin()
		w.h.Go("ack", func() { w.ack(l, false) })
		w.h.Go("p", func() { w.put("d2", ka, ckind()) })
		w.h.Go("c", func() { w.work("c", any_, nil) })
		w.finish()
	})
	for _, pos := range []string{"front", "back"} {
		sc("P14 P16", "fail-"+pos+"-vs-consumer", 1, 2, func() {
			w := newCW()
			l := w.hold("d1", ka, kind{false, 1, pos, to})
			w.put("d2", ka, ckind())
			w.begin()
			w.h.Go("ack", func() { w.ack(l, false) })
			w.h.Go("c1", func() { w.work("c1", any_, nil) })
			w.h.Go("c2", func() { w.work("c2", any_, nil) })
			w.finish()
		})
	}
	// the consumer reacts before its delivery is reported
	sc("P14", "ack-before-delivery", 2, 4, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		l := w.take("c1", any_, nil)
		w.begin()
		w.h.Go("deliver", func() { w.deliver(l) })
		w.h.Go("ack", func() { w.ack(l, vs.Choose(2) == 0) })
		w.finish()
	})
	sc("P14", "heartbeat-before-delivery", 2, 4, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		l := w.take("c1", any_, nil)
		w.begin()
		w.h.Go("deliver", func() { w.deliver(l) })
		w.h.Go("beat", func() { w.beat(l) })
		w.finish()
	})
	sc("P14 P16", "undelivered-vs-consumer", 1, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		l := w.take("c1", any_, nil)
		w.begin()
		w.h.Go("bad", func() { w.undelivered(l) })
		w.h.Go("c2", func() { w.work("c2", any_, nil) })
		w.finish()
	})
	sc("P14 P16", "undelivered-vs-enqueue", 2, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		l := w.take("c1", any_, nil)
		w.begin()
		w.h.Go("bad", func() { w.undelivered(l) })
		w.h.Go("p", func() { w.put("d2", ka, ckind()) })
		w.finish()
	})
	sc("P14 P15", "undelivered-vs-ack", 2, 4, func() {
		w := newCW()
		w.hold("d0", ka, ckind())
		w.put("d1", ka, ckind())
		w.put("d2", ka, ckind())
		l := w.take("c1", any_, nil)
		pass := vs.Choose(2) == 0
		w.begin()
		w.h.Go("bad", func() { w.undelivered(l) })
		w.h.Go("ack", func() { w.ack(l, pass) })
		w.finish()
	})
	sc("P14", "undelivered-vs-heartbeat", 2, 4, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		l := w.take("c1", any_, nil)
		w.begin()
		w.h.Go("bad", func() { w.undelivered(l) })
		w.h.Go("beat", func() { w.beat(l) })
		w.finish()
	})
	sc("P14", "delivery-ack-heartbeat", 1, 3, func() {
		w := newCW()
		w.put("d1", ka, ckind())
		l := w.take("c1", any_, nil)
		w.begin()
		w.h.Go("deliver", func() { w.deliver(l) })
		w.h.Go("beat", func() { w.beat(l) })
		w.h.Go("ack", func() { w.ack(l, true) })
		w.finish()
	})
	sc("P14 P15", "undelivered-update", 2, 3, func() {
		w := newCW()
		u := kind{true, 1, "front", to}
		w.put("d1", ka, u)
		l := w.take("c1", any_, nil)
		w.begin()
		w.h.Go("bad", func() { w.undelivered(l) })
		w.h.Go("p", func() { w.put("d2", ka, u) })
		w.finish()
	})
	// updateable items
	sc("P14", "updates", 2, 3, func() {
		w := newCW()
		k := kind{true, 1, "back", to}
		w.begin()
		w.h.Go("p1", func() { w.put("d1", ka, k) })
		w.h.Go("p2", func() { w.put("d2", ka, k) })
		w.h.Go("c", func() { w.work("c", any_, nil) })
		w.finish()
	})
	for name, k2 := range map[string]kind{"": {false, 1, "front", to}, "-updateable": {true, 1, "front", to}} {
		k2 := k2
		sc("P14 P16", "update-vs-consumer"+name, 2, 3, func() {
			w := newCW()
			w.put("d1", ka, kind{true, 1, "front", to})
			w.begin()
			w.h.Go("c", func() { w.work("c", any_, nil) })
			w.h.Go("p", func() { w.put("d2", ka, k2) })
			w.finish()
		})
		sc("P14", "update-vs-fail-and-consumer"+name, 1, 2, func() {
			w := newCW()
			l := w.hold("d1", ka, kind{true, 1, "front", to})
			w.begin()
			w.h.Go("ack", func() { w.ack(l, false) })
			w.h.Go("c", func() { w.work("c", any_, nil) })
			w.h.Go("p", func() { w.put("d2", ka, k2) })
			w.finish()
		})
	}
	for _, pos := range []string{"front", "back"} {
		sc("P14", "update-vs-fail-"+pos, 2, 4, func() {
			w := newCW()
			l := w.hold("d1", ka, kind{true, 1, pos, to})
			w.begin()
			w.h.Go("ack", func() { w.ack(l, false) })
			w.h.Go("p", func() { w.put("d2", ka, kind{true, 1, pos, to}) })
			w.finish()
		})
	}
	// a limit of one running item
	sc("P14 P16", "running-limit", 1, 2, func() {
		w := newCW()
		w.limit = 1
		w.lim.rule("user", kvs{"_willow_queue_name": datatypes.Any(), "_willow_running": datatypes.Any()}, 1)
		l := w.hold("d1", ka, ckind())
		w.put("d2", ka, ckind())
		w.begin()
		w.h.Go("c", func() { w.work("c", any_, nil) })
		w.h.Go("ack", func() { w.ack(l, true) })
		w.finish()
	})
	sc("P14 P16", "running-limit-channels", 1, 2, func() {
		w := newCW()
		w.limit = 1
		w.lim.rule("user", kvs{"_willow_queue_name": datatypes.Any(), "_willow_running": datatypes.Any()}, 1)
		w.put("d1", ka, ckind())
		w.put("d2", kb, ckind())
		w.begin()
		w.h.Go("c1", func() { w.work("c1", any_, nil) })
		w.h.Go("c2", func() { w.work("c2", any_, nil) })
		w.finish()
	})
}
