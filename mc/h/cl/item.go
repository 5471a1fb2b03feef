package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/DanLavine/willow/pkg/clients"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"
	"github.com/DanLavine/willow/verifmc/vsync"
	"github.com/DanLavine/willow/verifmc/vtime"
)

// delivery is an item as the queue service sees it.
type delivery struct {
	id       string
	timeout  time.Duration
	deadline time.Duration
	over     bool // acknowledged or timed out
	lapsed   bool
	acks     []bool
	acked    bool // an acknowledgement succeeded
	faulted  bool
	lastOK   time.Duration
	prevOK   time.Duration
	beats    int
}

// broker is a stand-in queue service with items out for processing.
type broker struct {
	mu     vsync.Mutex
	o      vs.Obj
	items  []*delivery
	next   time.Duration // timeout of the next item
	faults map[string][]string
	delay  time.Duration
	loose  bool
	users  []*worker
}

func (*broker) Opaque() {}

func newBroker() *broker {
	b := &broker{faults: map[string][]string{}, next: ttl, delay: ttl * 47 / 100}
	http.DefaultTransport = &network{serve: b.serve}
	return b
}

func (b *broker) fault(kind string) string {
	l := b.faults[kind]
	if len(l) == 0 {
		return ""
	}
	k := vs.ChooseCost(len(l) + 1)
	if k == 0 {
		return ""
	}
	vs.Note("FAULT %s: %s", kind, l[k-1])
	return l[k-1]
}

func (b *broker) expire() {
	for _, d := range b.items {
		if d.over || vs.Now() < d.deadline {
			continue
		}
		d.over, d.lapsed = true, true
		if b.loose {
			continue
		}
		if !d.faulted {
			hx.Fail("an item in process is kept alive", "%s timed out at the service at %v although every request of the client succeeded", d.id, d.deadline)
		}
		for _, w := range b.users {
			if w.d == d && w.latest() > d.deadline {
				hx.Fail("an item is not held longer than at the service", "%s timed out at the service at %v, at the client as late as %v", d.id, d.deadline, w.latest())
			}
		}
	}
}

// queueName has to arrive as it was given
const queueName = "queue"

var itemKVs = kvs{"a": datatypes.Int(1), "b": datatypes.String("x")}

func (b *broker) serve(req *http.Request, body []byte) reply {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.o.Write(1)
	b.expire()
	base := "/v1/queues/" + queueName + "/channels/items"
	switch {
	case req.Method == "GET" && req.URL.Path == base:
		return b.dequeue(req.Context(), body)
	case req.Method == "POST" && req.URL.Path == base+"/heartbeat":
		m := &v1willow.Heartbeat{}
		if err := json.Unmarshal(body, m); err != nil || m.Validate() != nil {
			hx.Fail("requests are well formed", "%s", body)
		}
		return b.beat(req.Context(), b.find(m.ItemID, m.KeyValues))
	case req.Method == "POST" && req.URL.Path == base+"/ack":
		m := &v1willow.ACK{}
		if err := json.Unmarshal(body, m); err != nil || m.Validate() != nil {
			hx.Fail("requests are well formed", "%s", body)
		}
		return b.ack(req.Context(), b.find(m.ItemID, m.KeyValues), m.Passed)
	}
	hx.Fail("requests are well formed", "%s %s", req.Method, req.URL.Path)
	return reply{status: 404}
}

func (b *broker) find(id string, kv kvs) *delivery {
	for _, d := range b.items {
		if d.id == id {
			if show(kv) != show(itemKVs) {
				hx.Fail("requests name the item", "key-values %s", show(kv))
			}
			return d
		}
	}
	hx.Fail("requests name the item", "id %s", id)
	return nil
}

func (b *broker) wait(ctx context.Context, d time.Duration) bool {
	b.mu.Unlock()
	var ok bool
	if d < 0 {
		ok = vs.Select(false, vs.NewRecv(ctx.Done())) != 0
	} else {
		t := vtime.NewTimer(d)
		ok = vs.Select(false, vs.NewRecv(ctx.Done()), vs.NewRecv(t.C)) != 0
		t.Stop()
	}
	b.mu.Lock()
	b.o.Write(2)
	b.expire()
	return ok
}

func (b *broker) dequeue(ctx context.Context, body []byte) reply {
	q := &queryassociatedaction.AssociatedActionQuery{}
	if err := json.Unmarshal(body, q); err != nil || q.Validate() != nil {
		hx.Fail("requests are well formed", "%s", body)
	}
	f := b.fault("dequeue")
	switch f {
	case "refused":
		return reply{err: errNet}
	case "error":
		return failed(500)
	case "odd":
		return reply{status: 503}
	case "hang":
		b.wait(ctx, -1)
		return reply{err: ctx.Err()}
	}
	d := &delivery{id: fmt.Sprint("i", len(b.items)), timeout: b.next, deadline: vs.Now() + b.next, lastOK: vs.Now()}
	b.items = append(b.items, d)
	yes, n, front := true, uint64(1), "front"
	item := &v1willow.Item{
		Spec: &v1willow.ItemSpec{
			DBDefinition: &v1willow.ItemDBDefinition{KeyValues: itemKVs},
			Properties:   &v1willow.ItemProperties{Data: []byte("data of " + d.id), Updateable: &yes, RetryAttempts: &n, RetryPosition: &front, TimeoutDuration: &d.timeout},
		},
		State: &v1willow.ItemState{ID: d.id},
	}
	d.faulted = f != ""
	switch f {
	case "lost":
		return reply{err: errNet}
	case "garbage":
		return reply{status: 200, body: `{"Spec":`}
	case "empty":
		return reply{status: 200, body: `{}`}
	case "no state":
		item.State = nil
	case "no timeout":
		item.Spec.Properties.TimeoutDuration = nil
	case "no properties":
		item.Spec.Properties = nil
	}
	return reply{status: 200, body: item}
}

func (b *broker) beat(ctx context.Context, d *delivery) reply {
	sent := vs.Now()
	d.beats++
	f := b.fault("beat")
	if f != "" {
		d.faulted = true
	}
	if vs.Tracing() {
		vs.Note("heartbeat of %s at %v", d.id, vs.Now())
	}
	switch f {
	case "refused":
		return reply{err: errNet}
	case "error":
		return failed(500)
	case "odd":
		return reply{status: 503}
	case "not found":
		return failed(404)
	case "garbage":
		return reply{status: 409, body: "no message"}
	case "hang":
		b.wait(ctx, -1)
		return reply{err: ctx.Err()}
	case "slow":
		if !b.wait(ctx, b.delay) {
			return reply{err: ctx.Err()}
		}
	}
	if d.over {
		return failed(409)
	}
	d.deadline = vs.Now() + d.timeout
	if f == "lost" {
		return reply{err: errNet}
	}
	if f == "slow back" && !b.wait(ctx, b.delay) {
		return reply{err: ctx.Err()}
	}
	if vs.Now() < d.lastOK+d.timeout {
		d.lastOK = sent
	}
	return reply{status: 200}
}

func (b *broker) ack(ctx context.Context, d *delivery, passed bool) reply {
	d.acks = append(d.acks, passed)
	f := b.fault("ack")
	if f != "" {
		d.faulted = true
	}
	switch f {
	case "refused":
		return reply{err: errNet}
	case "error":
		return failed(500)
	case "odd":
		return reply{status: 503}
	case "garbage":
		return reply{status: 409, body: "no message"}
	case "slow":
		if !b.wait(ctx, b.delay) {
			return reply{err: ctx.Err()}
		}
	}
	if d.over {
		return failed(404)
	}
	d.over = true
	if f == "lost" {
		return reply{err: errNet}
	}
	d.acked = true
	return reply{status: 200}
}

// worker processes one item.
type worker struct {
	b       *broker
	o       vs.Obj
	item    *willowclient.Item
	d       *delivery
	done    bool
	closed  time.Duration
	acking  time.Duration // when the first acknowledgement was called, -1 before
	success int
	errs    int
}

func (*worker) Opaque() {}

func newQueueClient() *willowclient.WillowClient {
	wc, err := willowclient.NewWillowClient(&clients.Config{URL: "http://willow"})
	if err != nil {
		hx.Fail("construction failed", "%v", err)
	}
	return wc
}

func anyChannel() *queryassociatedaction.AssociatedActionQuery {
	return &queryassociatedaction.AssociatedActionQuery{}
}

// dequeue obtains an item and starts to watch it.
func (b *broker) dequeue1(h *hx.H, wc *willowclient.WillowClient) *worker {
	n := len(b.items)
	item, err := wc.DequeueQueueItem(bg(), queueName, anyChannel())
	if err != nil {
		hx.Fail("an item can be dequeued", "%v", err)
	}
	w := &worker{b: b, item: item, acking: -1}
	for _, d := range b.items[n:] {
		if string(item.Data()) == "data of "+d.id {
			w.d = d
		}
	}
	if w.d == nil {
		hx.Fail("a dequeued item is the one delivered", "data %q", item.Data())
	}
	b.users = append(b.users, w)
	item.SetHeartbeatErrorCallback(func(err error) {
		if err == nil {
			hx.Fail("errors are reported", "nil error")
		}
		w.o.Write(1)
		w.errs++
	})
	h.Daemon("watch "+w.d.id, func() {
		vs.Recv(item.Done())
		w.o.Write(2)
		w.done, w.closed = true, vs.Now()
		w.judge()
	})
	return w
}

// Done is due when the item is acknowledged or when no heartbeat succeeded for the timeout; the last tenth of the timeout is left to the client.
func (w *worker) earliest() time.Duration {
	e := w.d.lastOK + w.d.timeout - w.d.timeout/10
	if w.acking >= 0 && w.acking < e {
		e = w.acking
	}
	return e
}

func (w *worker) latest() time.Duration {
	e := w.d.lastOK + w.d.timeout
	if w.acking >= 0 && w.acking < e {
		e = w.acking
	}
	return e
}

func (w *worker) judge() {
	if w.closed < w.earliest() && (!w.b.loose || w.closed < w.d.timeout-w.d.timeout/10) {
		hx.Fail("an item is signalled lost only when it is", "Done of %s closed at %v; last success %v, acknowledged %v", w.d.id, w.closed, w.d.lastOK, w.acking)
	}
	if w.closed > w.latest() && !w.b.loose {
		hx.Fail("the end of an item is signalled in time", "Done of %s closed at %v; last success %v, acknowledged %v", w.d.id, w.closed, w.d.lastOK, w.acking)
	}
}

func (w *worker) ack(passed bool) error {
	w.o.Write(3)
	if w.acking < 0 {
		w.acking = vs.Now()
	}
	n := len(w.d.acks)
	err := w.item.ACK(bg(), passed)
	w.o.Write(4)
	if len(w.d.acks) == n {
		hx.Fail("an acknowledgement reaches the service", "%v", err)
	}
	if err == nil {
		w.success++
		if !w.d.acked {
			hx.Fail("an acknowledgement reported successful happened", "ACK of %s returned nil", w.d.id)
		}
		if w.success > 1 {
			hx.Fail("an item is acknowledged once", "%s", w.d.id)
		}
	} else if w.d.acked && w.success == 0 && !w.d.faulted {
		hx.Fail("an acknowledgement that happened is reported", "ACK of %s returned %v", w.d.id, err)
	}
	if !closed(w.item.Done()) {
		hx.Fail("an acknowledged item is done", "%s", w.d.id)
	}
	return err
}

func (b *broker) settle() {
	vs.Sleep(1)
	b.mu.Lock()
	b.o.Write(3)
	b.expire()
	b.mu.Unlock()
	for _, w := range b.users {
		if l := w.latest(); !w.done && !b.loose && l < vs.Now()-1 {
			hx.Fail("the end of an item is signalled in time", "Done of %s is open at %v; last success %v, acknowledged %v", w.d.id, vs.Now(), w.d.lastOK, w.acking)
		}
	}
}

var itemFaults = []string{"refused", "error", "odd", "not found", "garbage", "lost", "hang", "slow", "slow back"}

func scheditem(name string, q, t int, f func(h *hx.H, b *broker, wc *willowclient.WillowClient)) *hx.Scen {
	sc := hx.Sched("P22", "cl/item/"+name, q, t, func() {
		h, b := hx.New(), newBroker()
		f(h, b, newQueueClient())
	})
	sc.Horizon = 10 * time.Minute
	return sc
}

func init() {
	scheditem("kept", 2, 4, func(h *hx.H, b *broker, wc *willowclient.WillowClient) {
		// timeouts that do not divide evenly too
		b.next = []time.Duration{ttl, ttl + 1, ttl + 7, ttl - 1}[vs.Choose(4)]
		b.faults["beat"] = itemFaults
		w := b.dequeue1(h, wc)
		for i := 0; i < hx.Pick(3, 5); i++ {
			vs.Sleep(ttl / 2)
			b.settle()
		}
		if vs.Choose(2) == 1 {
			b.faults["ack"] = []string{"refused", "error", "odd", "garbage", "lost", "slow"}
		}
		beats := w.d.beats
		w.ack(vs.Choose(2) == 0)
		b.settle()
		vs.Sleep(2 * ttl)
		if w.d.beats != beats && len(b.items) == 1 {
			hx.Fail("an acknowledged item is not kept alive", "%d heartbeats after the acknowledgement", w.d.beats-beats)
		}
	})
	scheditem("acknowledge-any-time", 2, 3, func(h *hx.H, b *broker, wc *willowclient.WillowClient) {
		b.loose = true
		b.faults["beat"] = []string{"hang", "slow", "slow back", "refused", "error"}
		w := b.dequeue1(h, wc)
		at := []time.Duration{0, 3 * ttl / 10, 4 * ttl / 10, 6 * ttl / 10, ttl, 12 * ttl / 10}
		h.Go("worker", func() {
			vs.Sleep(at[vs.Choose(len(at))])
			passed := vs.Choose(2) == 0
			w.ack(passed)
			if w.d.acks[0] != passed {
				hx.Fail("an acknowledgement says what the worker said", "%v", w.d.acks)
			}
		})
		h.Wait()
		b.settle()
	}).Early = true
	scheditem("acknowledge-while-a-heartbeat-runs", 2, 3, func(h *hx.H, b *broker, wc *willowclient.WillowClient) {
		b.faults["beat"] = []string{"hang", "slow", "refused"}
		w := b.dequeue1(h, wc)
		vs.Sleep([]time.Duration{3 * ttl / 10, 5 * ttl / 10, 6 * ttl / 10}[vs.Choose(3)])
		t := vs.Now()
		w.ack(true)
		if vs.Now() != t {
			hx.Fail("no call hangs while the service answers", "ACK took %v", vs.Now()-t)
		}
		b.settle()
	})
	scheditem("acknowledge-twice", 2, 3, func(h *hx.H, b *broker, wc *willowclient.WillowClient) {
		b.faults["ack"] = []string{"error", "slow"}
		w := b.dequeue1(h, wc)
		w.d.faulted = true // the two calls race
		for i := 0; i < 2; i++ {
			i := i
			h.Go(fmt.Sprint("worker", i), func() { w.ack(i == 0) })
		}
		h.Wait()
		if w.success == 0 && w.d.acked {
			hx.Fail("an acknowledgement that happened is reported", "%s", w.d.id)
		}
		b.settle()
	})
	scheditem("two", 1, 2, func(h *hx.H, b *broker, wc *willowclient.WillowClient) {
		// the items of one client do not depend on each other
		b.faults["beat"] = []string{"hang", "refused"}
		w1 := b.dequeue1(h, wc)
		b.next = ttl / 2
		w2 := b.dequeue1(h, wc)
		for i := 0; i < 3; i++ {
			vs.Sleep(ttl / 2)
			b.settle()
			if i == vs.Choose(3) && len(w1.d.acks) == 0 {
				w1.ack(true)
			}
		}
		w2.ack(false)
		b.settle()
	})
	scheditem("dequeue-faults", 3, 3, func(h *hx.H, b *broker, wc *willowclient.WillowClient) {
		b.faults["dequeue"] = []string{"refused", "error", "odd", "lost", "garbage", "empty", "no state", "no timeout", "no properties"}
		item, err := wc.DequeueQueueItem(bg(), queueName, anyChannel())
		if (item == nil) != (err != nil) {
			hx.Fail("an item or an error", "%v %v", item, err)
		}
		if item != nil && (len(b.items) != 1 || b.items[0].faulted) {
			hx.Fail("an item or an error", "%q", item.Data())
		}
		if item == nil && len(b.items) == 1 && !b.items[0].faulted {
			hx.Fail("a delivered item is handed out", "%v", err)
		}
		if item != nil && item.ACK(bg(), true) != nil {
			hx.Fail("an item can be acknowledged", "")
		}
	})
	scheditem("cancel-dequeue", 2, 3, func(h *hx.H, b *broker, wc *willowclient.WillowClient) {
		b.faults["dequeue"] = []string{"hang"}
		ctx, cancel := contextWithCancel()
		var item *willowclient.Item
		var err error
		h.Go("consumer", func() { item, err = wc.DequeueQueueItem(ctx, queueName, anyChannel()) })
		h.Go("canceller", cancel)
		h.Wait()
		if (item == nil) != (err != nil) {
			hx.Fail("an item or an error", "%v %v", item, err)
		}
		if item != nil && item.ACK(bg(), false) != nil {
			hx.Fail("an item can be acknowledged", "")
		}
	})
	hx.Seq("P22", "cl/item/timeouts", func() {
		b := newBroker()
		b.next = []time.Duration{1, 2, 3, 4, 9, 10, 11, 30, 31, 32, 33, 34, time.Second + 1, 0, -1}[vs.Choose(15)]
		b.loose = b.next < 10
		wc := newQueueClient()
		item, err := wc.DequeueQueueItem(bg(), queueName, anyChannel())
		if (item == nil) != (err != nil) {
			hx.Fail("an item or an error", "%v %v", item, err)
		}
		if (b.next > 0) != (err == nil) {
			hx.Fail("every valid timeout is kept", "timeout %d: %v", b.next, err)
		}
		if item == nil {
			return
		}
		beats := 0
		for i := 0; i < 40; i++ {
			vs.Sleep(max(b.next/4, 1))
			if closed(item.Done()) {
				break
			}
			beats++
		}
		if b.next >= 10 && beats < 40 {
			hx.Fail("an item in process is kept alive", "timeout %d: lost after %d quarters of it", b.next, beats)
		}
		_ = item.ACK(bg(), true)
		if !strings.HasPrefix(string(item.Data()), "data of") {
			hx.Fail("harness", "")
		}
	})
}
