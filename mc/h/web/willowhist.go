package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// Histories of the queue service's endpoints on the whole stack (queues, limiter and locker behind their routers),
// against a model of the queues.

type qitem struct {
	data     string
	upd      bool
	att, ret int
	id       string
	deadline time.Duration
}

type qchan struct{ wait, proc []*qitem }

type qqueue struct {
	limit int64
	chans map[int]*qchan
}

type qcons struct {
	queue        string
	q            int
	lost         bool
	cancel       func()
	gone         bool
	done, seen   bool
	at           time.Duration
	ans          answer
	queueDeleted bool
}

type qworld struct {
	*system
	m       map[string]*qqueue
	cs      []*qcons
	n       int
	gone    []string // ids of items that are done
	ids     map[string]bool
	history []string
}

const qTimeout = 100 * time.Second

var (
	qNames = []string{"q", "a b?c#d%41é"}
	qKVs   = []kvs{{"a": datatypes.String("1")}, {"a": datatypes.String("1"), "b": datatypes.Int(2)}}
	qKVj   = []string{`{"a":{"Type":13,"Data":"1"}}`, `{"a":{"Type":13,"Data":"1"},"b":{"Type":10,"Data":"2"}}`}
	qQuery = []string{`{}`, `{"Selection":{"KeyValues":{"b":{"Value":{"Type":10,"Data":"2"},"Comparison":"=","TypeRestrictions":{"MinDataType":10,"MaxDataType":10}}}}}`}
	qWants = []func(int) bool{func(int) bool { return true }, func(c int) bool { return c == 1 }}
)

func (w *qworld) fail(key, f string, a ...any) {
	hx.FailH(key, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.history, "\n  "))
}

func (w *qworld) did(f string, a ...any) { w.history = append(w.history, fmt.Sprintf(f, a...)) }

func (w *qworld) path(q, rest string) string {
	return "/v1/queues/" + escape(q) + rest
}

func escape(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func (w *qworld) size(q string) int64 {
	n := 0
	for _, c := range w.m[q].chans {
		n += len(c.wait) + len(c.proc)
	}
	return int64(n)
}

func (w *qworld) ok(what string, err error) {
	if err != nil {
		w.fail("refused: "+what, "%v (the service answered %d %s)", err, w.last.status, w.last.body)
	}
}

func (w *qworld) refused(what string, err error, statuses ...int) {
	if err == nil {
		w.fail("not refused: "+what, "the client reports success, the service answered %d", w.last.status)
	}
	for _, s := range statuses {
		if w.last.status == s {
			return
		}
	}
	w.fail("refused with another status: "+what, "%d %s, expected %v", w.last.status, w.last.body, statuses)
}

func (w *qworld) raw(what string, a answer, status int) {
	if a.status != status {
		w.fail("another status: "+what, "%d %s, expected %d", a.status, a.body, status)
	}
	if status >= 400 {
		var e errorBody
		if err := one(a.body, &e); err != nil || e.Message == nil || *e.Message == "" {
			w.fail("a refusal does not say why: "+what, "%d %q", a.status, a.body)
		}
	} else if len(a.body) != 0 {
		w.fail("a body that is not documented: "+what, "%q", a.body)
	}
}

func (w *qworld) doCreate(q string, limit int64) {
	err := w.willow.CreateQueue(vctx.Background(), &v1willow.Queue{Spec: &v1willow.QueueSpec{
		DBDefinition: &v1willow.QueueDBDefinition{Name: &q}, Properties: &v1willow.QueueProperties{MaxItems: &limit}}})
	if w.m[q] != nil {
		w.refused("a duplicate queue", err, 409)
		return
	}
	w.ok("create queue", err)
	w.m[q] = &qqueue{limit: limit, chans: map[int]*qchan{}}
}

func (w *qworld) doEnqueue(q string, ci int) {
	w.n++
	it := &qitem{data: fmt.Sprintf("data %d\x00\xff", w.n), att: 1}
	pos := "back"
	if ci == 1 {
		it.upd, it.att, pos = true, 0, "front"
	}
	err := w.willow.EnqueueQueueItem(vctx.Background(), q, &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues(qKVs[ci])},
		Properties: &v1willow.ItemProperties{Data: []byte(it.data), Updateable: ptr(it.upd), RetryAttempts: ptr(uint64(it.att)),
			RetryPosition: &pos, TimeoutDuration: ptr(qTimeout)}}})
	mq := w.m[q]
	if mq == nil {
		w.refused("an item for a missing queue", err, 404)
		return
	}
	c := mq.chans[ci]
	if c != nil && len(c.wait) > 0 && c.wait[len(c.wait)-1].upd {
		w.ok("an update of the last item", err)
		c.wait[len(c.wait)-1] = it
		return
	}
	if mq.limit != -1 && w.size(q) >= mq.limit {
		w.refused("an item for a full queue", err, 409)
		return
	}
	w.ok("enqueue", err)
	if c == nil {
		c = &qchan{}
		mq.chans[ci] = c
	}
	c.wait = append(c.wait, it)
}

func (w *qworld) doDequeue(q string, qi int, lost bool) {
	c := &qcons{queue: q, q: qi, lost: lost}
	ctx, cancel := vctx.WithCancel(vctx.Background())
	c.cancel = cancel
	w.cs = append(w.cs, c)
	vs.Daemon(vs.Spawn("consumer", func() {
		w.drop = lost
		c.ans = w.call(ctx, "willow", "GET", w.path(q, "/channels/items"), []byte(qQuery[qi]), plain)
		c.at = vs.Now()
		c.done = true
	}))
}

// over: the processing of the item failed.
func (w *qworld) over(q string, ci int, it *qitem) {
	c := w.m[q].chans[ci]
	c.proc = less(c.proc, it)
	it.ret++
	if it.ret > it.att {
		w.end(q, ci, it)
		return
	}
	// "back", not updateable
	c.wait = append(c.wait, it)
	it.deadline = 0
}

func less(l []*qitem, it *qitem) (n []*qitem) {
	for _, x := range l {
		if x != it {
			n = append(n, x)
		}
	}
	return n
}

// end: the item is gone for good.
func (w *qworld) end(q string, ci int, it *qitem) {
	c := w.m[q].chans[ci]
	c.proc = less(c.proc, it)
	if it.id != "" {
		w.gone = append(w.gone, it.id)
	}
	if len(c.wait)+len(c.proc) == 0 {
		delete(w.m[q].chans, ci)
	}
}

func (w *qworld) settle() {
	vs.Sleep(1)
	// items whose time is over
	for q, mq := range w.m {
		for ci, c := range mq.chans {
			for _, it := range append([]*qitem(nil), c.proc...) {
				if vs.Now() > it.deadline {
					w.did("item %q of %q expired", it.data, q)
					w.over(q, ci, it)
				}
			}
		}
	}
	// answers
	for n, c := range w.cs {
		if !c.done || c.seen {
			continue
		}
		c.seen = true
		mq := w.m[c.queue]
		switch {
		case c.ans.status == 404 && mq == nil:
		case c.gone && c.ans.status >= 400:
			w.did("consumer %d: gave up", n)
		case c.ans.status == 200 && c.lost:
			w.did("consumer %d: the answer could not be written", n)
		case c.ans.status == 200:
			got := &v1willow.Item{}
			if err := one(c.ans.body, got); err != nil {
				w.fail("an item answer cannot be decoded", "%v: %s", err, c.ans.body)
			}
			if err := got.Validate(); err != nil {
				w.fail("an item answer is not valid", "%v: %s", err, c.ans.body)
			}
			if c.gone {
				w.fail("a consumer that is gone is given an item", "consumer %d: %s", n, c.ans.body)
			}
			var it *qitem
			ci := -1
			if mq != nil {
				for k, ch := range mq.chans {
					if len(ch.wait) > 0 && qWants[c.q](k) && fmt.Sprint(got.Spec.DBDefinition.KeyValues) == fmt.Sprint(qKVs[k]) {
						it, ci = ch.wait[0], k
					}
				}
			}
			if it == nil || string(got.Spec.Properties.Data) != it.data {
				w.fail("a consumer is given another item than the oldest that waits", "consumer %d: %s data %q", n, c.ans.body, got.Spec.Properties.Data)
			}
			if *got.Spec.Properties.Updateable != it.upd || *got.Spec.Properties.TimeoutDuration != qTimeout || *got.Spec.Properties.RetryAttempts != uint64(it.att) {
				w.fail("an item arrives with other properties", "%s", c.ans.body)
			}
			id := got.State.ID
			if it.id != "" && it.id != id || it.id == "" && w.ids[id] {
				w.fail("an item arrives under another item's id", "%s", c.ans.body)
			}
			w.ids[id] = true
			it.id = id
			it.deadline = c.at + qTimeout
			ch := mq.chans[ci]
			ch.wait = ch.wait[1:]
			ch.proc = append(ch.proc, it)
			w.did("consumer %d: gets %q of %q", n, it.data, c.queue)
		default:
			w.fail("a consumer is refused", "consumer %d: %d %s", n, c.ans.status, c.ans.body)
		}
	}
	for n, c := range w.cs {
		if c.done {
			continue
		}
		if c.gone {
			w.fail("a request whose client is gone is not given up", "consumer %d", n)
		}
		if mq := w.m[c.queue]; mq != nil && !c.queueDeleted {
			for k, ch := range mq.chans {
				if qWants[c.q](k) && len(ch.wait) > 0 {
					w.fail("an item is not given to a consumer that waits for it", "consumer %d, item %q", n, ch.wait[0].data)
				}
			}
		}
	}
	w.check()
}

func (w *qworld) check() {
	ctx := vctx.Background()
	qs, err := w.willow.ListQueues(ctx)
	w.ok("list queues", err)
	var got, want []string
	for _, q := range qs {
		got = append(got, fmt.Sprintf("%q %d", *q.Spec.DBDefinition.Name, *q.Spec.Properties.MaxItems))
	}
	for n, q := range w.m {
		want = append(want, fmt.Sprintf("%q %d", n, q.limit))
	}
	w.compare("list of the queues", got, want)
	got, want = nil, nil
	for _, n := range qNames {
		q, err := w.willow.GetQueue(ctx, n, &queryassociatedaction.AssociatedActionQuery{})
		mq := w.m[n]
		if mq == nil {
			w.refused("get of a missing queue", err, 404)
			continue
		}
		w.ok("get queue", err)
		if *q.Spec.DBDefinition.Name != n || *q.Spec.Properties.MaxItems != mq.limit {
			w.fail("another queue is returned", "%s", w.last.body)
		}
		for qi, query := range qQuery {
			a := w.do("willow", "GET", w.path(n, "/channels"), query)
			var cs v1willow.Channels
			if a.status != 200 {
				w.fail("the channels cannot be listed", "%d %s", a.status, a.body)
			}
			if err := one(a.body, &cs); err != nil {
				w.fail("the list of channels cannot be decoded", "%v: %s", err, a.body)
			}
			var got, want []string
			for _, c := range cs {
				got = append(got, fmt.Sprint(c.Spec.DBDefinition.KeyValues)) // the service does not fill in how many items there are yet (a TODO of its author)
			}
			for k := range mq.chans {
				if qWants[qi](k) {
					want = append(want, fmt.Sprint(qKVs[k]))
				}
			}
			w.compare("list of the channels", got, want)
		}
	}
	// what the limiter knows
	cs, err := w.limiter.QueryCounters(ctx, &queryassociatedaction.AssociatedActionQuery{})
	w.ok("query counters", err)
	for _, c := range cs {
		kv := c.Spec.DBDefinition.KeyValues
		what := "running"
		if _, ok := kv["_willow_enqueued"]; ok {
			what = "enqueued"
		}
		ci := 0
		if _, ok := kv["_willow_b"]; ok {
			ci = 1
		}
		if _, ok := kv["b"]; ok {
			ci = 1
		}
		got = append(got, fmt.Sprintf("%q channel %d %s %d", kv["_willow_queue_name"].Data, ci, what, *c.Spec.Properties.Counters))
	}
	for n, q := range w.m {
		for ci, c := range q.chans {
			want = append(want, fmt.Sprintf("%q channel %d enqueued %d", n, ci, len(c.wait)+len(c.proc)))
			if len(c.proc) > 0 {
				want = append(want, fmt.Sprintf("%q channel %d running %d", n, ci, len(c.proc)))
			}
		}
	}
	w.compare("limiter's counters", got, want)
	if a := w.do("locker", "GET", "/v1/locks", "{}"); string(a.body) != "[]" {
		w.fail("locks are still held after the answers", "%s", a.body)
	}
}

func (w *qworld) compare(what string, got, want []string) {
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		w.fail("not what is stored: "+what, "got\n  %s\nwant\n  %s", strings.Join(got, "\n  "), strings.Join(want, "\n  "))
	}
}

func (w *qworld) item(q string, ci int, id, what, more string) answer {
	return w.do("willow", "POST", w.path(q, "/channels/items/"+what), fmt.Sprintf(`{"ItemID":%q,"KeyValues":%s%s}`, id, qKVj[ci], more))
}

func (w *qworld) step(names []string) {
	type op struct {
		name string
		f    func()
	}
	var ops []op
	add := func(f func(), name string, a ...any) { ops = append(ops, op{fmt.Sprintf(name, a...), f}) }
	ctx := vctx.Background()
	for _, q := range names {
		q := q
		mq := w.m[q]
		add(func() { w.doCreate(q, 2) }, "create %q", q)
		add(func() {
			w.ok("delete queue", w.willow.DeleteQueue(ctx, q))
			if mq == nil {
				return
			}
			for _, c := range mq.chans {
				for _, it := range append(c.wait, c.proc...) {
					if it.id != "" {
						w.gone = append(w.gone, it.id)
					}
				}
			}
			delete(w.m, q)
			for _, c := range w.cs {
				if c.queue == q {
					c.queueDeleted = true
				}
			}
		}, "delete %q", q)
		for ci := range qKVs {
			ci := ci
			add(func() { w.doEnqueue(q, ci) }, "enqueue %q %d", q, ci)
		}
		waiting := 0
		for _, c := range w.cs {
			if !c.done && c.queue == q {
				waiting++
			}
		}
		if waiting == 0 {
			add(func() { w.doDequeue(q, 0, false) }, "dequeue %q", q)
			add(func() { w.doDequeue(q, 0, true) }, "dequeue %q, answer lost", q)
			add(func() { w.doDequeue(q, 1, false) }, "dequeue %q channel 1", q)
		}
		if mq == nil {
			continue
		}
		n := 3 - mq.limit
		add(func() {
			w.ok("update queue", w.willow.UpdateQueue(ctx, q, &v1willow.QueueProperties{MaxItems: &n}))
			mq.limit = n
		}, "update %q limit %d", q, n)
		for ci, c := range mq.chans {
			ci, c := ci, c
			add(func() {
				w.ok("delete channel", w.willow.DeleteQueueChannel(ctx, q, qKVs[ci]))
				for _, it := range append(c.wait, c.proc...) {
					if it.id != "" {
						w.gone = append(w.gone, it.id)
					}
				}
				delete(mq.chans, ci)
			}, "delete channel %q %d", q, ci)
			for _, it := range c.proc {
				it := it
				add(func() {
					w.raw("pass", w.item(q, ci, it.id, "ack", `,"Passed":true`), 200)
					w.end(q, ci, it)
				}, "pass %q", it.data)
				add(func() {
					w.raw("failed", w.item(q, ci, it.id, "ack", `,"Passed":false`), 200)
					w.over(q, ci, it)
				}, "failed %q", it.data)
				add(func() {
					w.raw("heartbeat", w.item(q, ci, it.id, "heartbeat", ""), 200)
					it.deadline = vs.Now() + qTimeout
				}, "heartbeat %q", it.data)
			}
		}
	}
	add(func() {
		for _, q := range names {
			for ci := range qKVs {
				for _, id := range append([]string{"nobody"}, w.gone...) {
					w.raw("ack of an item that is gone", w.item(q, ci, id, "ack", `,"Passed":true`), 404)
					w.raw("failure of an item that is gone", w.item(q, ci, id, "ack", `,"Passed":false`), 404)
					w.raw("heartbeat of an item that is gone", w.item(q, ci, id, "heartbeat", ""), 404)
				}
			}
			if w.m[q] == nil {
				n := int64(1)
				w.refused("update of a missing queue", w.willow.UpdateQueue(ctx, q, &v1willow.QueueProperties{MaxItems: &n}), 404)
				w.refused("delete of a channel of a missing queue", w.willow.DeleteQueueChannel(ctx, q, qKVs[0]), 404)
			}
		}
	}, "things that are gone")
	for n, c := range w.cs {
		n, c := n, c
		if !c.done && !c.gone {
			add(func() { w.did("consumer %d goes away", n); c.gone = true; c.cancel() }, "gone")
		}
	}
	add(func() { vs.Sleep(70 * time.Second) }, "70 s pass")
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].name < ops[j].name })
	o := ops[vs.Choose(len(ops))]
	w.did("%v %s", vs.Now(), o.name)
	o.f()
	w.settle()
}

func init() {
	for _, start := range []string{"empty", "one", "busy", "two"} {
		start := start
		s := hx.Seq("P20", "web/history/willow/"+start, func() {
			depth := map[string]int{"empty": hx.Pick(5, 7), "one": hx.Pick(5, 6), "busy": hx.Pick(4, 5), "two": hx.Pick(3, 4)}[start]
			hx.Reset()
			vs.Calm(true)
			w := &qworld{system: newSystem("locker limiter willow"), m: map[string]*qqueue{}, ids: map[string]bool{}}
			vs.Sleep(1)
			names := qNames[:1]
			switch start {
			case "one":
				names = qNames[1:]
				w.doCreate(names[0], 1)
			case "busy":
				w.doCreate("q", 2)
				w.doEnqueue("q", 0)
				w.doEnqueue("q", 1)
				w.doDequeue("q", 1, false)
			case "two":
				names = qNames
				for _, q := range names {
					w.doCreate(q, 1)
					w.doEnqueue(q, 0)
				}
				w.doDequeue("q", 0, false)
			}
			w.settle()
			for d := 0; d < depth; d++ {
				w.step(names)
			}
			w.stop[len(w.stop)-1]()
			vs.Sleep(1)
			for _, c := range w.cs {
				c.cancel()
			}
		})
		s.Horizon = 100 * time.Hour
	}
}
