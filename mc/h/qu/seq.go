package main

import (
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// ------------------------------------------------------------------ reference model

type mitem struct {
	id       string
	data     string
	k        kind // as last written
	timeout  time.Duration
	retry    uint64
	deadline time.Duration // processing: when it expires; 0: handed out, not delivered yet
}

type mchan struct {
	kv   kvs
	wait []*mitem
	proc []*mitem // handed out or processing
	held *cons    // a consumer has an item that is neither delivered nor failed
}

func (c *mchan) size() int { return len(c.wait) + len(c.proc) }

type mqueue struct {
	limit int64
	chans map[int]*mchan // by index of the channel's key-values
}

// cons is a consumer that called dequeue.
type cons struct {
	n       int
	queue   string
	q       int // index of the query
	cancel  func()
	gone    bool // canceled
	acked   bool // its item was acknowledged already
	orphan  bool // its queue was deleted
	done    bool
	item    *v1willow.Item
	ok, bad func()
	err     *errors.ServerError
}

type qspec struct {
	name string
	q    *query
	want func(kv kvs) bool
}

// config is the universe of one scenario.
type config struct {
	names   []string
	start   map[string]int64 // queues at the start
	chans   []kvs
	kinds   []kind
	queries []qspec
	limits  []int64 // limits of a queue
	running []int64 // limits of running items (a rule of the user)
	group   kvs     // its key-values
	over    kvs     // key-values of its override
	chanOvr []int64 // the administrator's own limits of enqueued items of the first channel of the first queue
	waiters int     // consumers waiting at most
	fails   bool    // a delivery may fail
	nack    bool
	beat    bool
	expire  bool
	misuse  bool // requests for items in the wrong state
	admin   bool // queues are created and deleted
	delch   bool // channels are deleted
	faults  []string
	most    int // items of a channel at most
	undeliv bool // items stay undelivered for a while
}

type world struct {
	*sys
	cf     *config
	m      map[string]*mqueue
	run    int64 // limit of running items, -1 none
	runO   int64 // limit of its override, -2 none
	own    int64 // the administrator's limit of a channel, -2 none
	cs     []*cons
	nc, nd int
	ids    map[string]*mitem // every id ever seen
	old    []oldItem         // the last item that is gone
	act    []func()
	faulty string // next call of this method fails
	idle   bool
}

type oldItem struct {
	queue string
	ci    int
	id    string
}

func newWorld(cf *config) *world {
	w := &world{sys: newSys(), cf: cf, m: map[string]*mqueue{}, run: -1, runO: -2, own: -2, ids: map[string]*mitem{}}
	for _, n := range cf.names {
		if l, ok := cf.start[n]; ok {
			accepted(w.create(n, l), "create queue")
			w.m[n] = &mqueue{limit: l, chans: map[int]*mchan{}}
		}
	}
	vs.Sleep(time.Second)
	return w
}

func (w *world) ch(queue string, ci int) *mchan {
	if q := w.m[queue]; q != nil {
		return q.chans[ci]
	}
	return nil
}

func (w *world) enqueued(queue string) int64 {
	n := 0
	for _, c := range w.m[queue].chans {
		n += c.size()
	}
	return int64(n)
}

func (w *world) drop(queue string, c *mchan, it *mitem) {
	for i, x := range c.proc {
		if x == it {
			c.proc = append(c.proc[:i:i], c.proc[i+1:]...)
		}
	}
	for i, x := range c.wait {
		if x == it {
			c.wait = append(c.wait[:i:i], c.wait[i+1:]...)
		}
	}
	for ci, x := range w.m[queue].chans {
		if x == c {
			w.old = []oldItem{{queue, ci, it.id}}
			if c.size() == 0 {
				delete(w.m[queue].chans, ci)
			}
		}
	}
}

// retry is what happens to an item whose processing failed.
func (w *world) retry(queue string, c *mchan, it *mitem) {
	it.retry++
	it.deadline = 0
	if it.retry > it.k.att {
		w.drop(queue, c, it)
		return
	}
	if it.k.pos == "front" {
		if it.k.upd && len(c.wait) > 0 {
			w.drop(queue, c, it)
			return
		}
		c.proc = without(c.proc, it)
		c.wait = append([]*mitem{it}, c.wait...)
		return
	}
	c.proc = without(c.proc, it)
	if n := len(c.wait); n > 0 && c.wait[n-1].k.upd {
		last := c.wait[n-1]
		c.wait = append(c.wait, it)
		w.drop(queue, c, last)
		return
	}
	c.wait = append(c.wait, it)
}

func without(l []*mitem, it *mitem) []*mitem {
	var n []*mitem
	for _, x := range l {
		if x != it {
			n = append(n, x)
		}
	}
	return n
}

// runnable: the user's rule leaves room for another running item of the channel.
func (w *world) runnable(queue string, ci int) bool { return w.lim.admits(runKV(queue, w.cf.chans[ci]), 1) }

// ------------------------------------------------------------------ operations

// settle lets everything run that can without time passing.
func (w *world) settle() { vs.Sleep(1) }

// gap lets some time pass, less than it takes for any item to expire.
func (w *world) gap() {
	d := time.Second
	if _, _, it := w.first(); it != nil && it.deadline-vs.Now() < 2*d {
		d = (it.deadline - vs.Now()) / 2
	}
	if d > 0 {
		vs.Sleep(d)
	}
	if w.slow() {
		w.match()
	}
}

func (w *world) ops() []string {
	var l []string
	w.act = w.act[:0]
	cf := w.cf
	add := func(name string, f func()) { l = append(l, name); w.act = append(w.act, f) }
	for _, qn := range cf.names {
		qn := qn
		mq := w.m[qn]
		for ci, kv := range cf.chans {
			ci, kv := ci, kv
			c := w.ch(qn, ci)
			if mq == nil && !cf.misuse {
				continue
			}
			if c == nil || c.size() < cf.most {
				for _, k := range cf.kinds {
					k := k
					add(fmt.Sprintf("enqueue %s %s %v", qn, show(kv), k), func() { w.doEnqueue(qn, ci, k) })
					if mq == nil {
						break
					}
				}
			}
			if c != nil {
				for _, it := range c.proc {
					it := it
					if it.deadline == 0 && !cf.undeliv {
						continue
					}
					name := w.place(c, it)
					add("pass "+name, func() {
						accepted(w.ack(qn, kv, it.id, true), "acknowledgement of a processing item")
						w.acked(c, it)
						w.drop(qn, c, it)
					})
					if cf.nack {
						add("fail "+name, func() {
							accepted(w.ack(qn, kv, it.id, false), "failure of a processing item")
							w.acked(c, it)
							w.retry(qn, c, it)
						})
					}
					if cf.beat && it.deadline != 0 {
						add("heartbeat "+name, func() {
							accepted(w.heartbeat(qn, kv, it.id), "heartbeat of a processing item")
							it.deadline = vs.Now() + it.timeout
						})
					}
				}
			}
			if cf.misuse {
				var id, what string
				switch {
				case c != nil && len(c.wait) > 0:
					id, what = c.wait[0].id, "a waiting item"
				case len(w.old) > 0 && w.old[0].queue == qn && w.old[0].ci == ci:
					id, what = w.old[0].id, "a removed item"
				default:
					id, what = "unknown", "an unknown item"
				}
				if id != "" {
					add(fmt.Sprintf("pass %s in %s", what, show(kv)), func() {
						refusedWith(w.ack(qn, kv, id, true), http.StatusNotFound, "acknowledgement of "+what)
					})
					add(fmt.Sprintf("fail %s in %s", what, show(kv)), func() {
						refusedWith(w.ack(qn, kv, id, false), http.StatusNotFound, "failure of "+what)
					})
					add(fmt.Sprintf("heartbeat %s in %s", what, show(kv)), func() {
						refusedWith(w.heartbeat(qn, kv, id), http.StatusNotFound, "heartbeat of "+what)
					})
				}
			}
			if cf.delch && (c != nil || cf.misuse) {
				add(fmt.Sprintf("delete channel %s %s", qn, show(kv)), func() {
					err := w.q.DeleteChannel(w.base, qn, copyKV(kv))
					if mq == nil {
						refusedWith(err, http.StatusNotFound, "channel deletion in a missing queue")
						return
					}
					accepted(err, "channel deletion")
					if c != nil {
						w.forget(qn, ci, c)
						delete(mq.chans, ci)
					}
				})
			}
		}
		// consumers
		waiting := 0
		for _, c := range w.cs {
			if !c.done {
				waiting++
			}
		}
		if waiting < cf.waiters && (mq != nil || cf.misuse) {
			for qi := range cf.queries {
				qi := qi
				add(fmt.Sprintf("dequeue %s %s", qn, cf.queries[qi].name), func() { w.doDequeue(qn, qi) })
				if mq == nil {
					break
				}
			}
		}
		if cf.admin {
			for _, n := range cf.limits {
				n := n
				if mq == nil || n == cf.limits[0] {
					add(fmt.Sprintf("create %s limit %d", qn, n), func() { w.doCreate(qn, n) })
				}
			}
			add("delete queue "+qn, func() { w.doDelete(qn) })
		}
		for _, n := range cf.limits {
			n := n
			if mq != nil && n != mq.limit || mq == nil && cf.misuse && n == cf.limits[0] {
				add(fmt.Sprintf("update %s limit %d", qn, n), func() { w.doUpdate(qn, n) })
			}
		}
	}
	for _, c := range w.cs {
		c := c
		if !c.done {
			add(fmt.Sprintf("cancel consumer %s", w.cname(c)), func() {
				c.cancel()
				c.gone = true
				w.settle()
				if !c.done {
					hx.FailH("a canceled consumer does not return", "%s", w.cname(c))
				}
			})
		} else if c.item != nil {
			mc, it := w.of(c)
			add("deliver to "+w.cname(c), func() {
				c.ok()
				w.rm(c)
				if mc != nil {
					mc.held = nil
				}
				if it != nil && it.deadline == 0 {
					it.deadline = vs.Now() + it.timeout
				}
			})
			if cf.fails && !c.acked {
				add("failed delivery to "+w.cname(c), func() {
					c.bad()
					w.rm(c)
					if mc != nil {
						mc.held = nil
					}
					if it == nil {
						return
					}
					mc.proc = without(mc.proc, it)
					if it.k.upd && len(mc.wait) > 0 {
						w.drop(c.queue, mc, it)
					} else {
						mc.wait = append([]*mitem{it}, mc.wait...)
					}
				})
			}
		}
	}
	if cf.expire {
		if _, _, it := w.first(); it != nil {
			add("expire", w.doExpire)
		}
	}
	for _, n := range cf.running {
		n := n
		if n != w.run {
			add(fmt.Sprintf("running limit %d", n), func() { w.run = n; w.limits() })
		}
		if cf.over != nil && n != w.runO {
			add(fmt.Sprintf("running override %d", n), func() { w.runO = n; w.limits() })
		}
	}
	for _, n := range cf.chanOvr {
		n := n
		if n != w.own {
			add(fmt.Sprintf("channel limit %d", n), func() {
				r := w.lim.find(ruleID)
				group := w.ownGroup()
				for i, o := range r.ovr {
					if same(o.group, group) {
						r.ovr = append(r.ovr[:i:i], r.ovr[i+1:]...)
						break
					}
				}
				if w.own = n; n != -2 {
					r.ovr = append(r.ovr, &ovr{id: w.lim.id("own"), group: group, limit: n})
				}
			})
		}
	}
	if w.faulty == "" {
		for _, f := range cf.faults {
			f := f
			add("next "+f+" fails", func() { w.faulty = f; w.lim.fail[f] = 1 })
		}
	}
	return l
}

// acked: the consumer reacted before the delivery was reported, only its success can follow.
func (w *world) acked(c *mchan, it *mitem) {
	if c.held != nil && c.held.item.State.ID == it.id {
		c.held.acked = true
	}
}

// ownGroup: the limiter is open to its users, who limit the enqueued items of single channels with overrides of the rule
// that the queues use, too.
func (w *world) ownGroup() kvs { return enqKV(w.cf.names[0], w.cf.chans[0]) }

// owned counts the items that the administrator's limit applies to.
func (w *world) owned() int64 {
	n := 0
	for ci, c := range w.m[w.cf.names[0]].chans {
		if covers(w.ownGroup(), enqKV(w.cf.names[0], w.cf.chans[ci])) {
			n += c.size()
		}
	}
	return int64(n)
}

func (w *world) limits() {
	w.lim.drop("user")
	if w.run != -1 || w.runO != -2 {
		w.lim.rule("user", w.cf.group, w.run)
		if w.runO != -2 {
			w.lim.find("user").ovr = []*ovr{{id: "usero", group: w.cf.over, limit: w.runO}}
		}
	}
}

func (w *world) place(c *mchan, it *mitem) string {
	for i, x := range c.proc {
		if x == it {
			return fmt.Sprintf("%s processing#%d", show(c.kv), i)
		}
	}
	return "?"
}

func (w *world) cname(c *cons) string {
	for i, x := range w.cs {
		if x == c {
			return fmt.Sprintf("#%d (%s %s)", i, c.queue, w.cf.queries[c.q].name)
		}
	}
	return "?"
}

func (w *world) rm(c *cons) {
	for i, x := range w.cs {
		if x == c {
			w.cs = append(w.cs[:i:i], w.cs[i+1:]...)
			return
		}
	}
}

// of finds the channel and the item of a consumer that got one (nil when deleted meanwhile).
func (w *world) of(c *cons) (*mchan, *mitem) {
	q := w.m[c.queue]
	if q == nil {
		return nil, nil
	}
	for _, mc := range q.chans {
		if mc.held == c {
			for _, it := range mc.proc {
				if it.id == c.item.State.ID {
					return mc, it
				}
			}
			return mc, nil
		}
	}
	return nil, nil
}

func (w *world) forget(queue string, ci int, c *mchan) {
	if len(c.wait) > 0 && c.wait[0].id != "" {
		w.old = []oldItem{{queue, ci, c.wait[0].id}}
	} else if len(c.proc) > 0 {
		w.old = []oldItem{{queue, ci, c.proc[0].id}}
	}
}

func (w *world) doEnqueue(qn string, ci int, k kind) {
	w.nd++
	data := fmt.Sprintf("data%d", w.nd)
	err := w.enqueue(qn, w.cf.chans[ci], k, data)
	mq := w.m[qn]
	if mq == nil {
		refusedWith(err, http.StatusNotFound, "enqueue to a missing queue")
		return
	}
	c := mq.chans[ci]
	if c != nil && len(c.wait) > 0 {
		if last := c.wait[len(c.wait)-1]; last.k.upd {
			accepted(err, "enqueue that updates the last item")
			last.k, last.data, last.retry = k, data, 0
			last.timeout = k.timeout()
			return
		}
	}
	if w.faulty == "Increment" {
		w.faulty = ""
		refusedWith(err, http.StatusConflict, "enqueue while the limiter fails")
		return
	}
	if w.own >= 0 && covers(w.ownGroup(), enqKV(qn, w.cf.chans[ci])) && w.owned() >= w.own {
		refusedWith(err, http.StatusConflict, "enqueue above the limit of the channel")
		return
	}
	if mq.limit != -1 && w.enqueued(qn) >= mq.limit {
		refusedWith(err, http.StatusConflict, "enqueue above the limit")
		return
	}
	accepted(err, "enqueue below the limit")
	if c == nil {
		c = &mchan{kv: w.cf.chans[ci]}
		mq.chans[ci] = c
	}
	c.wait = append(c.wait, &mitem{data: data, k: k, timeout: k.timeout()})
}

func (w *world) doDequeue(qn string, qi int) {
	ctx, cancel := vctx.WithCancel(w.base)
	w.nc++
	c := &cons{n: w.nc, queue: qn, q: qi, cancel: cancel}
	w.cs = append(w.cs, c)
	vs.Daemon(vs.Spawn(fmt.Sprint("consumer", w.nc), func() {
		c.item, c.ok, c.bad, c.err = w.q.Dequeue(ctx, qn, w.cf.queries[qi].q)
		c.done = true
	}))
	if w.m[qn] == nil {
		w.settle()
		if !c.done {
			hx.FailH("dequeue from a missing queue waits", "%s", qn)
		}
		refusedWith(c.err, http.StatusNotFound, "dequeue from a missing queue")
		w.rm(c)
	}
}

func (w *world) doCreate(qn string, n int64) {
	err := w.create(qn, n)
	if w.m[qn] != nil {
		refusedWith(err, http.StatusConflict, "duplicate queue")
		return
	}
	if w.faulty == "CreateOverride" {
		w.faulty = ""
		if err == nil {
			hx.FailH("creation without its limit", "%s", qn)
		}
		return
	}
	accepted(err, "queue creation")
	w.m[qn] = &mqueue{limit: n, chans: map[int]*mchan{}}
}

func (w *world) doDelete(qn string) {
	err := w.q.DeleteQueue(w.base, qn)
	if w.m[qn] == nil {
		// nothing to delete
		if err != nil && err.StatusCode != http.StatusNotFound {
			hx.FailH("deletion of a missing queue", "%v (status %d)", err, err.StatusCode)
		}
		return
	}
	if w.faulty == "DeleteOverride" || w.faulty == "QueryOverrides" {
		w.faulty = ""
		if err == nil {
			hx.FailH("deletion without its limit", "%s", qn)
		}
		w.settle()
		// the queue is still there; its channels may be gone already
		mq := w.m[qn]
		l, e := w.q.QueryChannels(w.base, qn, &query{})
		accepted(e, "query of channels")
		left := map[int]*mchan{}
		for _, c := range l {
			for ci, kv := range w.cf.chans {
				if same(kv, copyKV(c.Spec.DBDefinition.KeyValues)) {
					left[ci] = mq.chans[ci]
				}
			}
		}
		for ci, c := range mq.chans {
			if left[ci] == nil {
				w.forget(qn, ci, c)
			}
		}
		mq.chans = left
		return
	}
	accepted(err, "queue deletion")
	for ci, c := range w.m[qn].chans {
		w.forget(qn, ci, c)
	}
	for _, c := range w.cs {
		if c.queue == qn {
			c.orphan = true
		}
	}
	delete(w.m, qn)
}

func (w *world) doUpdate(qn string, n int64) {
	err := w.q.UpdateQueue(w.base, qn, &v1willow.QueueProperties{MaxItems: ptr(n)})
	if w.m[qn] == nil {
		refusedWith(err, http.StatusNotFound, "update of a missing queue")
		return
	}
	if w.faulty == "UpdateOverride" || w.faulty == "QueryOverrides" {
		w.faulty = ""
		if err == nil {
			hx.FailH("update without its limit", "%s", qn)
		}
		return
	}
	accepted(err, "queue update")
	w.m[qn].limit = n
}

// first finds the processing item that expires first.
func (w *world) first() (string, *mchan, *mitem) {
	var bq string
	var bc *mchan
	var best *mitem
	for _, qn := range w.cf.names {
		if q := w.m[qn]; q != nil {
			for ci := range w.cf.chans {
				if c := q.chans[ci]; c != nil {
					for _, it := range c.proc {
						if it.deadline != 0 && (best == nil || it.deadline < best.deadline) {
							bq, bc, best = qn, c, it
						}
					}
				}
			}
		}
	}
	return bq, bc, best
}

func (w *world) doExpire() {
	if w.slow() {
		vs.Sleep(6 * time.Second)
		w.match()
	}
	qn, c, it := w.first()
	if it == nil {
		return
	}
	// a moment before the deadline nothing has happened yet
	if d := it.deadline - vs.Now() - 1; d > 0 {
		vs.Sleep(d)
		w.match()
		w.check()
	}
	vs.Sleep(it.deadline - vs.Now() + 1)
	w.retry(qn, c, it)
}

// match follows the items that consumers got since the last step and judges them.
func (w *world) match() {
	for i := 0; i < 50; i++ {
		progress := false
		for _, c := range append([]*cons(nil), w.cs...) {
			if !c.done || w.known(c) {
				continue
			}
			progress = true
			if c.err != nil {
				if !c.gone && !c.orphan {
					hx.FailH("a consumer is turned away", "%s: %v", w.cname(c), c.err)
				}
				if c.item != nil {
					hx.FailH("an item and an error", "%s", w.cname(c))
				}
				w.rm(c)
				continue
			}
			w.received(c)
		}
		if progress {
			continue
		}
		// everybody who can be served was served
		pair := w.pair()
		if pair == "" {
			return
		}
		if !w.slow() {
			hx.FailH("an available item is not handed out", "%s", pair)
		}
		before := len(w.lim.refused)
		vs.Sleep(6 * time.Second)
		served := false
		for _, c := range w.cs {
			if c.done && !w.known(c) {
				served = true
			}
		}
		if !served && len(w.lim.refused) >= before {
			hx.FailH("an available item is not handed out after the limit cleared", "%s", pair)
		}
	}
	hx.FailH("no end of deliveries", "")
}

func (w *world) known(c *cons) bool {
	if c.item == nil {
		return false
	}
	return c.n < 0
}

// slow: a running counter of some channel was refused, its channel looks again within five seconds.
func (w *world) slow() bool { return len(w.lim.refused) > 0 }

func (w *world) pair() string {
	for _, c := range w.cs {
		if c.done {
			continue
		}
		q := w.m[c.queue]
		if q == nil {
			continue
		}
		for ci := range w.cf.chans {
			mc := q.chans[ci]
			if mc == nil || mc.held != nil || len(mc.wait) == 0 || !w.cf.queries[c.q].want(mc.kv) || !w.runnable(c.queue, ci) {
				continue
			}
			return fmt.Sprintf("%s waits, %s has %d waiting", w.cname(c), show(mc.kv), len(mc.wait))
		}
	}
	return ""
}

// received judges the item a consumer got.
func (w *world) received(c *cons) {
	c.n = -c.n
	it := c.item
	if c.ok == nil || c.bad == nil || it.Spec == nil || it.State == nil || it.Spec.DBDefinition == nil {
		hx.FailH("an incomplete item is handed out", "%s: %+v", w.cname(c), *it)
	}
	if err := it.Validate(); err != nil {
		hx.FailH("an invalid item is handed out", "%s: %v", w.cname(c), err)
	}
	kv := copyKV(it.Spec.DBDefinition.KeyValues)
	if !w.cf.queries[c.q].want(kv) {
		hx.FailH("an item that was not asked for", "%s got one of %s", w.cname(c), show(kv))
	}
	q := w.m[c.queue]
	for ci, x := range w.cf.chans {
		if !same(x, kv) {
			continue
		}
		if q == nil || q.chans[ci] == nil {
			hx.FailH("an item of a channel that does not exist", "%s got one of %s", w.cname(c), show(kv))
			return
		}
		mc := q.chans[ci]
		if mc.held != nil {
			hx.FailH("items handed out while the last one is not delivered", "%s", show(kv))
		}
		if len(mc.wait) == 0 {
			hx.FailH("an item that is not waiting is handed out", "%s got %q", w.cname(c), it.Spec.Properties.Data)
			return
		}
		x := mc.wait[0]
		if string(it.Spec.Properties.Data) != x.data {
			hx.FailH("the wrong item is handed out", "%s got %q, the next is %q", w.cname(c), it.Spec.Properties.Data, x.data)
		}
		p := it.Spec.Properties
		if *p.Updateable != x.k.upd || *p.RetryAttempts != x.k.att || *p.RetryPosition != x.k.pos || *p.TimeoutDuration != x.timeout {
			hx.FailH("an item is handed out with other properties", "%s got %v %v %v %v, enqueued as %v %v", w.cname(c), *p.Updateable, *p.RetryAttempts, *p.RetryPosition, *p.TimeoutDuration, x.k, x.timeout)
		}
		id := it.State.ID
		if x.id == "" {
			if id == "" || w.ids[id] != nil {
				hx.FailH("an item id is missing or reused", "%q", id)
			}
			x.id = id
			w.ids[id] = x
		} else if x.id != id {
			hx.FailH("an item changed its id", "%q to %q", x.id, id)
		}
		if !w.admitted(c.queue, ci) {
			hx.FailH("an item is handed out above the limit", "%s of %s", w.cname(c), show(kv))
		}
		mc.wait = mc.wait[1:]
		mc.proc = append(mc.proc, x)
		mc.held = c
		if !w.cf.undeliv {
			// delivered at once
			c.ok()
			mc.held = nil
			x.deadline = vs.Now() + x.timeout
			w.rm(c)
			w.settle()
		}
		return
	}
	hx.FailH("an item of an unknown channel", "%s", show(kv))
}

// admitted: the model has room for one more running item before this one is counted.
func (w *world) admitted(queue string, ci int) bool {
	if w.run == -1 && w.runO == -2 {
		return true
	}
	l := &limiter{rules: w.lim.rules}
	for qn, q := range w.m {
		for i, c := range q.chans {
			l.set(runKV(qn, w.cf.chans[i]), int64(len(c.proc)))
		}
	}
	return l.admits(runKV(queue, w.cf.chans[ci]), 1)
}

// check compares everything that can be observed with the model.
func (w *world) check() {
	want := &limiter{}
	for _, qn := range w.cf.names {
		q := w.m[qn]
		got, err := w.q.GetQueue(w.base, qn)
		if q == nil {
			refusedWith(err, http.StatusNotFound, "get of a missing queue")
		} else {
			accepted(err, "get of a queue")
			if *got.Spec.DBDefinition.Name != qn || *got.Spec.Properties.MaxItems != q.limit {
				hx.FailH("a queue reports other properties", "%s limit %d, want %d", *got.Spec.DBDefinition.Name, *got.Spec.Properties.MaxItems, q.limit)
			}
		}
		for _, sel := range append([]qspec{{"everything", &query{}, func(kvs) bool { return true }}}, w.cf.queries...) {
			l, err := w.q.QueryChannels(w.base, qn, sel.q)
			if q == nil {
				refusedWith(err, http.StatusNotFound, "query of channels of a missing queue")
				break
			}
			accepted(err, "query of channels")
			var have, exp []string
			for _, c := range l {
				have = append(have, show(copyKV(c.Spec.DBDefinition.KeyValues)))
			}
			for _, c := range q.chans {
				if sel.want(c.kv) {
					exp = append(exp, show(c.kv))
				}
			}
			sort.Strings(have)
			sort.Strings(exp)
			if fmt.Sprint(have) != fmt.Sprint(exp) {
				hx.FailH("the channels of a queue are wrong", "%s query %s: %v, want %v", qn, sel.name, have, exp)
			}
		}
		if q == nil {
			continue
		}
		for ci, c := range q.chans {
			want.set(enqKV(qn, w.cf.chans[ci]), int64(c.size()))
			want.set(runKV(qn, w.cf.chans[ci]), int64(len(c.proc)))
		}
	}
	if (&limiter{ctrs: w.lim.ctrs}).key() != want.key() {
		hx.FailH("the limiter's counters are wrong", "%s\nwant %s", (&limiter{ctrs: w.lim.ctrs}).key(), want.key())
	}
	l, err := w.q.ListQueues(w.base)
	accepted(err, "list of queues")
	if len(l) != len(w.m) {
		hx.FailH("the list of queues is wrong", "%d, want %d", len(l), len(w.m))
	}
	for _, q := range l {
		if w.m[*q.Spec.DBDefinition.Name] == nil || w.m[*q.Spec.DBDefinition.Name].limit != *q.Spec.Properties.MaxItems {
			hx.FailH("the list of queues is wrong", "%s limit %d", *q.Spec.DBDefinition.Name, *q.Spec.Properties.MaxItems)
		}
	}
	ovrs := 0
	for _, o := range w.lim.find(ruleID).ovr {
		if w.own != -2 && same(o.group, w.ownGroup()) {
			continue
		}
		ovrs++
		ok := false
		for qn, q := range w.m {
			if o.limit == q.limit && same(o.group, kvs{"_willow_queue_name": datatypes.String(qn), "_willow_enqueued": datatypes.String("true")}) {
				ok = true
			}
		}
		if !ok {
			hx.FailH("the limiter has another limit", "%s %d", show(o.group), o.limit)
		}
	}
	if ovrs != len(w.m) {
		hx.FailH("the limiter has other limits", "%d, want %d", ovrs, len(w.m))
	}
}

// key of the state, with canonical names for ids and data.
func (w *world) key() string {
	names := map[string]string{}
	var b strings.Builder
	var dl []time.Duration
	for _, q := range w.m {
		for _, c := range q.chans {
			for _, it := range c.proc {
				dl = append(dl, it.deadline)
			}
		}
	}
	sort.Slice(dl, func(i, j int) bool { return dl[i] < dl[j] })
	for _, qn := range w.cf.names {
		q := w.m[qn]
		if q == nil {
			fmt.Fprintf(&b, "%s-;", qn)
			continue
		}
		fmt.Fprintf(&b, "%s %d", qn, q.limit)
		for ci := range w.cf.chans {
			c := q.chans[ci]
			if c == nil {
				b.WriteString("-")
				continue
			}
			name := func(p string, i int, it *mitem) {
				s := fmt.Sprint(qn, ci, p, i)
				if it.id != "" {
					names[it.id] = "id" + s
				}
				names[it.data] = "data" + s
				r := -1
				for j, d := range dl {
					if d == it.deadline && d != 0 {
						r = j
					}
				}
				fmt.Fprintf(&b, "%s=%v,%d,%v,%v,%d ", s, it.k, it.retry, it.timeout, it.id != "", r)
			}
			for i, it := range c.wait {
				name("w", i, it)
			}
			for i, it := range c.proc {
				name("p", i, it)
			}
			fmt.Fprintf(&b, "held=%v", c.held != nil)
		}
	}
	for _, o := range w.old {
		if names[o.id] == "" {
			names[o.id] = "old"
		}
		fmt.Fprintf(&b, "old %s %d %v;", o.queue, o.ci, o.id != "")
	}
	for _, c := range w.cs {
		fmt.Fprintf(&b, "cons %s %d %v %v ", c.queue, c.q, c.done, c.orphan)
		if c.item != nil {
			mc, it := w.of(c)
			fmt.Fprint(&b, mc != nil, it != nil, c.acked)
		}
	}
	fmt.Fprint(&b, w.run, w.runO, w.own, w.faulty, "|", w.lim.key(), "|")
	n := 0
	b.WriteString(hx.Dump(func(s string) string {
		if x, ok := names[s]; ok {
			return x
		}
		if strings.HasPrefix(s, "data") || len(s) >= 20 && !strings.HasPrefix(s, "_willow") {
			n++
			x := fmt.Sprint("?", n)
			names[s] = x
			return x
		}
		return s
	}, w.q))
	return b.String()
}

func (w *world) step() bool {
	w.gap()
	ops := w.ops()
	if len(ops) == 0 {
		return false
	}
	i := vs.Choose(len(ops))
	hx.Step(ops[i])
	w.act[i]()
	w.settle()
	w.match()
	w.check()
	return true
}

func fold(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// deliver reports every delivery that is under way.
func (w *world) deliver() {
	for again := true; again; {
		again = false
		for _, c := range append([]*cons(nil), w.cs...) {
			if !c.done || c.item == nil {
				continue
			}
			again = true
			mc, it := w.of(c)
			c.ok()
			w.rm(c)
			if mc != nil {
				mc.held = nil
			}
			if it != nil && it.deadline == 0 {
				it.deadline = vs.Now() + it.timeout
			}
		}
		w.settle()
		w.match()
	}
}

// drain empties every channel and compares the order of what is left.
func (w *world) drain() {
	hx.Step("drain")
	for _, qn := range w.cf.names {
		if w.m[qn] == nil {
			continue
		}
		for ci := range w.cf.chans {
			if c := w.ch(qn, ci); c != nil {
				for _, it := range c.proc {
					if it.deadline != 0 {
						accepted(w.heartbeat(qn, c.kv, it.id), "last heartbeat")
						it.deadline = vs.Now() + it.timeout
					}
				}
			}
		}
	}
	w.run, w.runO = -1, -2
	w.limits()
	w.lim.fail = map[string]int{}
	w.faulty = ""
	if w.slow() {
		vs.Sleep(6 * time.Second)
	}
	w.match()
	w.deliver()
	for _, qn := range w.cf.names {
		if w.m[qn] == nil {
			continue
		}
		for ci := range w.cf.chans {
			for i := 0; i < 20 && w.m[qn].chans[ci] != nil; i++ {
				mc := w.m[qn].chans[ci]
				if len(mc.proc) > 0 {
					it := mc.proc[0]
					accepted(w.ack(qn, mc.kv, it.id, true), "last acknowledgement")
					w.drop(qn, mc, it)
					w.settle()
					w.match()
					w.deliver()
					continue
				}
				for qi := range w.cf.queries {
					if w.cf.queries[qi].want(mc.kv) {
						w.doDequeue(qn, qi)
						break
					}
				}
				w.settle()
				w.match()
				w.deliver()
			}
		}
	}
	w.check()
	for _, c := range w.cs {
		c.cancel()
		c.gone = true
	}
	w.settle()
	for _, c := range w.cs {
		if !c.done {
			hx.FailH("a canceled consumer does not return", "%s", w.cname(c))
		}
	}
	w.stop()
	vs.Join(w.exec)
}

func init() {
	hx.DumpSkip = func(t reflect.Type) bool { return t == reflect.TypeOf(time.Time{}) }
	hx.DumpAlso = []string{"github.com/DanLavine/gonotify"}
}

func seq(props, name string, quick, thorough int, cf *config) {
	s := hx.Seq(props, "q/"+name, func() {
		depth := hx.Pick(quick, thorough)
		hx.Reset()
		vs.Calm(true)
		w := newWorld(cf)
		for d := 0; d < depth; d++ {
			vs.Merge(fold(w.key()), depth-d)
			if !w.step() {
				break
			}
		}
		w.drain()
	})
	s.Horizon = 100 * time.Hour
}

func a(l ...any) kvs {
	n := kvs{}
	for i := 0; i < len(l); i += 2 {
		switch v := l[i+1].(type) {
		case int:
			n[l[i].(string)] = datatypes.Int(v)
		case string:
			n[l[i].(string)] = datatypes.String(v)
		}
	}
	return n
}

func exactly(kv kvs) qspec {
	return qspec{show(kv), exact(kv), func(x kvs) bool { return same(x, kv) }}
}

func all() qspec { return qspec{"all", &query{}, func(kvs) bool { return true }} }

func withKey(k string) qspec {
	return qspec{"has " + k, having(k), func(x kvs) bool { _, ok := x[k]; return ok }}
}

func init() {
	one := []kvs{a("a", 1)}
	q1 := map[string]int64{"q": -1}
	qn := []string{"q"}
	front, back := kind{false, 1, "front", 0}, kind{false, 1, "back", 0}
	uback, ufront := kind{true, 1, "back", 1700 * time.Second}, kind{true, 1, "front", 0}
	once := kind{false, 0, "front", 0}
	// order, in place updates and retries
	seq("P13 P15", "order", 8, 10, &config{names: qn, start: q1, chans: one, kinds: []kind{front, back, uback, ufront},
		queries: []qspec{all()}, waiters: 1, nack: true, most: 3})
	seq("P13 P15", "attempts", 9, 11, &config{names: qn, start: q1, chans: one, kinds: []kind{once, front, {true, 2, "back", 0}},
		queries: []qspec{all()}, waiters: 1, nack: true, most: 3})
	// items expire, heartbeats keep them
	seq("P13 P15", "expiry", 8, 10, &config{names: qn, start: q1, chans: one, kinds: []kind{once, front, uback},
		queries: []qspec{all()}, waiters: 1, expire: true, beat: true, most: 3})
	// deliveries fail or are reported late
	seq("P13 P15", "delivery", 8, 10, &config{names: qn, start: q1, chans: one, kinds: []kind{front, uback},
		queries: []qspec{all()}, waiters: 2, nack: true, fails: true, undeliv: true, most: 3})
	// requests for items that are not processing
	seq("P13 P15", "misuse", 7, 9, &config{names: qn, start: q1, chans: one, kinds: []kind{once, uback},
		queries: []qspec{all()}, waiters: 1, nack: true, misuse: true, most: 2})
	// waiting consumers and several channels
	two := []kvs{a("a", 1), a("a", 1, "b", 2), a("c", "x")}
	seq("P16 P13", "consumers", 7, 9, &config{names: qn, start: q1, chans: two, kinds: []kind{once},
		queries: []qspec{all(), exactly(two[0]), withKey("a")}, waiters: 2, most: 1})
	seq("P16 P13", "consumers-undelivered", 7, 9, &config{names: qn, start: q1, chans: two[:2], kinds: []kind{once},
		queries: []qspec{all(), exactly(two[1])}, waiters: 2, most: 2, undeliv: true, fails: true})
	// limits
	seq("P15", "queue-limit", 6, 9, &config{names: qn, start: map[string]int64{"q": 2}, chans: two[:2], kinds: []kind{once, uback},
		queries: []qspec{all()}, waiters: 1, limits: []int64{0, 1, 3, -1}, nack: true, most: 3})
	run := a("_willow_queue_name", "q", "_willow_running", "true")
	anyRun := kvs{"_willow_queue_name": datatypes.Any(), "_willow_running": datatypes.Any()}
	seq("P15", "running-limit", 7, 9, &config{names: qn, start: q1, chans: two[:2], kinds: []kind{once},
		queries: []qspec{all()}, waiters: 2, running: []int64{0, 1, -1}, group: anyRun, nack: true, most: 2})
	seq("P15", "running-override", 7, 9, &config{names: qn, start: q1, chans: two[:2], kinds: []kind{once},
		queries: []qspec{all()}, waiters: 1, running: []int64{0, 1, -1}, group: anyRun, over: run, most: 2})
	chanRun := kvs{"a": datatypes.Any(), "_willow_running": datatypes.String("true")}
	seq("P15", "running-channel-limit", 7, 9, &config{names: qn, start: q1, chans: []kvs{a("a", 1), a("a", 2)}, kinds: []kind{once},
		queries: []qspec{all()}, waiters: 2, running: []int64{0, 1, -1}, group: chanRun, most: 2})
	// administration
	seq("P17", "queues", 7, 9, &config{names: []string{"q", "r"}, start: q1, chans: one, kinds: []kind{once},
		queries: []qspec{all()}, waiters: 1, limits: []int64{1, -1}, admin: true, misuse: true, most: 1})
	seq("P17", "queue-items", 8, 10, &config{names: qn, start: q1, chans: two[:2], kinds: []kind{front},
		queries: []qspec{all()}, waiters: 1, limits: []int64{2}, admin: true, delch: true, most: 2, expire: true})
	seq("P17", "undelivered", 8, 10, &config{names: qn, start: q1, chans: one, kinds: []kind{front},
		queries: []qspec{all()}, waiters: 1, limits: []int64{2}, admin: true, delch: true, most: 2, undeliv: true, fails: true})
	// the administrator limits a single channel of the queue
	seq("P15 P17", "channel-limit", 7, 9, &config{names: qn, start: q1, chans: two[:2], kinds: []kind{once},
		queries: []qspec{all()}, limits: []int64{2, -1}, admin: true, waiters: 1, chanOvr: []int64{1, -2}, most: 2})
	seq("P17", "failures", 7, 9, &config{names: []string{"q", "r"}, start: q1, chans: one, kinds: []kind{front},
		limits: []int64{1, 2}, admin: true, most: 1, faults: []string{"CreateOverride", "UpdateOverride", "DeleteOverride", "QueryOverrides"}})
	seq("P15 P17", "enqueue-failures", 7, 9, &config{names: qn, start: q1, chans: two[:2], kinds: []kind{front, uback},
		queries: []qspec{all()}, most: 2, faults: []string{"Increment"}})
}
