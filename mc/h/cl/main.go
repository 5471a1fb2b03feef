// Client libraries: the lock client (P21) and the queue client (P22) against a service with faults, in virtual time.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
	"github.com/DanLavine/willow/verifmc/vsync"
	"github.com/DanLavine/willow/verifmc/vtime"
)

func main() { hx.Main() }

type kvs = datatypes.KeyValues

var errNet = errors.New("connection refused")

// reply of a stand-in service: an error is a failure of the connection
type reply struct {
	status int
	body   any
	err    error
}

// network hands every request of the clients to the service of the execution
type network struct {
	serve func(req *http.Request, body []byte) reply
}

func (n *network) RoundTrip(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	var data []byte
	if req.Body != nil {
		data, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	r := n.serve(req, data)
	if r.err != nil {
		return nil, r.err
	}
	var out []byte
	switch b := r.body.(type) {
	case nil:
	case string:
		out = []byte(b)
	default:
		var err error
		if out, err = json.Marshal(b); err != nil {
			panic(err)
		}
	}
	return &http.Response{StatusCode: r.status, Status: http.StatusText(r.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
		Body: io.NopCloser(bytes.NewReader(out)), ContentLength: int64(len(out)), Request: req}, nil
}

type callID struct{}

const ttl = 10 * time.Second

// session is a lock as the service sees it.
type session struct {
	id       string
	key      string
	lock     string
	deadline time.Duration
	ended    chan struct{}
	over     bool
	deletes  int
	released bool // a release was accepted
	faulted  bool // a request of this session met a fault
	// as the client can know
	lastOK  time.Duration // when the last request that succeeded was sent
	refused time.Duration // when a refusal was delivered
	lapsed  bool
	beats   int
}

// service is a lock service: one holder per key, leases, and the faults of the scenario.
type service struct {
	mu       vsync.Mutex
	o        vs.Obj
	held     map[string]*session
	sessions []*session
	byCall   map[string]*session
	obtains  map[string]int // requests received, by key
	// faults offered on each kind of request
	faults map[string][]string
	delay  time.Duration
	// threads may be slow: nothing happens at an exact time
	loose bool
	u     *user
}

func (*service) Opaque() {}

func newService() *service {
	s := &service{held: map[string]*session{}, byCall: map[string]*session{}, obtains: map[string]int{}, faults: map[string][]string{}, delay: ttl * 47 / 100}
	http.DefaultTransport = &network{serve: s.serve}
	return s
}

func show(kv kvs) string {
	var l []string
	for _, k := range kv.SortedKeys() {
		l = append(l, fmt.Sprintf("%s:%v", k, kv[k].Data))
	}
	return strings.Join(l, ",")
}

func (s *service) fault(kind string) string {
	l := s.faults[kind]
	if len(l) == 0 {
		return ""
	}
	k := vs.ChooseCost(len(l) + 1)
	if k == 0 {
		return ""
	}
	vs.Note("FAULT %s: %s", kind, l[k-1])
	return l[k-1]
}

func failed(status int) reply {
	return reply{status: status, body: map[string]string{"Message": "no"}}
}

// expire ends the leases that ran out.
func (s *service) expire() {
	for _, h := range s.sessions {
		if !h.over && vs.Now() >= h.deadline {
			s.end(h)
			h.lapsed = true
			if s.u != nil && !s.loose {
				for _, k := range s.u.locks {
					if k.s == h && k.due() > h.deadline {
						hx.Fail("a lock is not held longer than at the service", "%s %s expired at the service at %v and at the client at %v", h.key, h.id, h.deadline, k.due())
					}
				}
			}
			if !h.faulted && !s.loose {
				hx.Fail("a held lock is kept alive", "%s %s expired at the service at %v although every request of the client succeeded", h.key, h.id, h.deadline)
			}
		}
	}
}

func (s *service) end(h *session) {
	h.over = true
	delete(s.held, h.key)
	vs.Close(h.ended)
}

func (s *service) serve(req *http.Request, body []byte) reply {
	ctx := req.Context()
	s.mu.Lock()
	s.o.Write(1)
	s.expire()
	path := req.URL.Path
	switch {
	case req.Method == "POST" && path == "/v1/locks":
		return s.obtain(ctx, body)
	case req.Method == "POST" && strings.HasPrefix(path, "/v1/locks/") && strings.HasSuffix(path, "/heartbeat"):
		return s.beat(ctx, strings.TrimSuffix(strings.TrimPrefix(path, "/v1/locks/"), "/heartbeat"), body)
	case req.Method == "DELETE" && strings.HasPrefix(path, "/v1/locks/"):
		return s.release(ctx, strings.TrimPrefix(path, "/v1/locks/"), body)
	}
	s.mu.Unlock()
	hx.Fail("requests are well formed", "%s %s", req.Method, path)
	return reply{status: 404}
}

// wait until the time, the end of a session or the end of the request: false if the request ended
func (s *service) wait(ctx context.Context, d time.Duration, ended chan struct{}) bool {
	s.mu.Unlock()
	var ok bool
	if d < 0 {
		ok = vs.Select(false, vs.NewRecv(ctx.Done()), vs.NewRecv((<-chan struct{})(ended))) != 0
	} else {
		t := vtime.NewTimer(d)
		ok = vs.Select(false, vs.NewRecv(ctx.Done()), vs.NewRecv((<-chan struct{})(ended)), vs.NewRecv(t.C)) != 0
		t.Stop()
	}
	s.mu.Lock()
	s.o.Write(2)
	s.expire()
	return ok
}

func (s *service) obtain(ctx context.Context, body []byte) reply {
	defer s.mu.Unlock()
	l := &v1locker.Lock{}
	if err := json.Unmarshal(body, l); err != nil || l.ValidateSpecOnly() != nil {
		return failed(400)
	}
	key := show(l.Spec.DBDefinition.KeyValues)
	s.obtains[key]++
	f := s.fault("obtain")
	switch f {
	case "refused":
		return reply{err: errNet}
	case "busy":
		return reply{status: 503}
	case "error":
		return failed(500)
	case "odd":
		return reply{status: 418}
	case "slow":
		if !s.wait(ctx, s.delay, nil) {
			return reply{err: ctx.Err()}
		}
	}
	for s.held[key] != nil {
		h := s.held[key]
		if !s.wait(ctx, h.deadline-vs.Now(), h.ended) {
			return reply{err: ctx.Err()}
		}
	}
	timeout := ttl
	if l.Spec.Properties != nil && l.Spec.Properties.Timeout != nil {
		timeout = *l.Spec.Properties.Timeout
	}
	h := &session{id: fmt.Sprint("s", len(s.sessions)), key: key, lock: "l" + key, deadline: vs.Now() + timeout, ended: vs.Make(make(chan struct{})), lastOK: vs.Now(), refused: -1}
	s.sessions = append(s.sessions, h)
	s.held[key] = h
	if call, ok := ctx.Value(callID{}).(string); ok {
		s.byCall[call] = h
	}
	l.Spec.Properties = &v1locker.LockProperties{Timeout: &timeout}
	l.State = &v1locker.LockState{LockID: h.id + "-lock", SessionID: h.id, LocksHeldOrWaiting: 1}
	switch f {
	case "lost":
		h.faulted = true
		return reply{err: errNet}
	case "garbage":
		h.faulted = true
		return reply{status: 200, body: `{"Spec":`}
	case "empty":
		h.faulted = true
		return reply{status: 200, body: `{}`}
	case "no timeout":
		h.faulted = true
		l.Spec.Properties = nil
	}
	return reply{status: 200, body: l}
}

func (s *service) find(lock string, body []byte) *session {
	c := &v1locker.LockClaim{}
	if err := json.Unmarshal(body, c); err != nil || c.Validate() != nil {
		hx.Fail("requests are well formed", "claim %s", body)
	}
	for _, h := range s.sessions {
		if h.id == c.SessionID {
			if lock != h.id+"-lock" {
				hx.Fail("requests name the lock", "session %s with lock %q", h.id, lock)
			}
			return h
		}
	}
	hx.Fail("requests name the session", "claim %s", body)
	return nil
}

func (s *service) beat(ctx context.Context, lock string, body []byte) reply {
	defer s.mu.Unlock()
	h := s.find(lock, body)
	sent := vs.Now()
	h.beats++
	f := s.fault("beat")
	if f != "" {
		h.faulted = true
	}
	if vs.Tracing() {
		vs.Note("heartbeat of %s at %v", h.id, vs.Now())
	}
	switch f {
	case "refused":
		return reply{err: errNet}
	case "error":
		return failed(500)
	case "odd":
		return reply{status: 503}
	case "hang":
		s.wait(ctx, -1, nil)
		return reply{err: ctx.Err()}
	case "slow":
		if !s.wait(ctx, s.delay, nil) {
			return reply{err: ctx.Err()}
		}
	case "conflict":
		if !h.over {
			s.end(h)
		}
	}
	if h.over {
		h.refused = vs.Now()
		if f == "conflict" {
			switch vs.Choose(3) {
			case 0:
				return reply{status: 400, body: `not a message`}
			case 1:
				return failed(409)
			}
		}
		return failed(404)
	}
	h.deadline = vs.Now() + ttl
	if f == "lost" {
		return reply{err: errNet}
	}
	if f == "slow back" {
		if !s.wait(ctx, s.delay, nil) {
			return reply{err: ctx.Err()}
		}
	}
	if vs.Now() < h.lastOK+ttl {
		h.lastOK = sent
	}
	return reply{status: 200}
}

func (s *service) release(ctx context.Context, lock string, body []byte) reply {
	defer s.mu.Unlock()
	h := s.find(lock, body)
	h.deletes++
	if h.deletes > 1 {
		hx.Fail("a lock is released once", "%s %s", h.key, h.id)
	}
	f := s.fault("release")
	if f != "" {
		h.faulted = true
	}
	switch f {
	case "refused":
		return reply{err: errNet}
	case "error":
		return failed(500)
	case "slow":
		if !s.wait(ctx, s.delay, nil) {
			return reply{err: ctx.Err()}
		}
	}
	if h.over {
		return failed(404)
	}
	if f == "conflict" {
		return failed(409)
	}
	s.end(h)
	if f == "lost" {
		return reply{err: errNet}
	}
	h.released = true
	return reply{status: 204}
}

func closed(ch <-chan struct{}) bool { return vs.Select(true, vs.NewRecv(ch)) == 0 }

// hold gives a key to somebody else for a while.
func (s *service) hold(kv kvs, d time.Duration) *session {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.o.Write(4)
	h := &session{id: fmt.Sprint("s", len(s.sessions)), key: show(kv), deadline: vs.Now() + d, ended: vs.Make(make(chan struct{})), refused: -1, faulted: true}
	s.sessions = append(s.sessions, h)
	s.held[h.key] = h
	return h
}

// user is one client process.
type user struct {
	h  *hx.H
	s  *service
	lc *lockerclient.LockClient
	n  int
	o  vs.Obj
	// every lock object handed out
	locks []*held
}

func (*user) Opaque() {}

// held is what the user knows of a lock.
type held struct {
	lock      lockerclient.Lock
	s         *session
	closed    time.Duration // when Done was seen closed
	done      bool
	releasing time.Duration // when the first release was called, -1 before
	released  bool          // a release returned
	success   int
	calls     int // of Release in progress
	overlap   bool
}

func newUser(h *hx.H, s *service) *user {
	lc, err := lockerclient.NewLockClient(&clients.Config{URL: "http://locker"})
	if err != nil {
		hx.Fail("construction failed", "%v", err)
	}
	s.u = &user{h: h, s: s, lc: lc}
	return s.u
}

func bg() context.Context { return vctx.Background() }

func contextWithCancel() (context.Context, context.CancelFunc) { return vctx.WithCancel(bg()) }

// must obtains a lock nothing keeps from being granted.
func (u *user) must(kv kvs) *held {
	k, err := u.obtain(bg(), kv)
	if err != nil || k == nil {
		hx.Fail("a free lock can be obtained", "%s: %v", show(kv), err)
	}
	return k
}

// now runs f and requires that it takes no time.
func (u *user) now(what string, f func()) {
	t := vs.Now()
	f()
	if vs.Now() != t && !u.s.loose {
		hx.Fail("no call hangs while the service answers", "%s took %v", what, vs.Now()-t)
	}
}

func lockOf(kv kvs) *v1locker.Lock {
	t := ttl
	return &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: kv}, Properties: &v1locker.LockProperties{Timeout: &t}}}
}

// obtain asks for a lock and starts to watch it.
func (u *user) obtain(ctx context.Context, kv kvs) (*held, error) {
	u.o.Write(1)
	u.n++
	id := fmt.Sprint("call", u.n)
	// locks known to be over when the call starts must not come back
	old := map[lockerclient.Lock]bool{}
	for _, l := range u.locks {
		if l.done || l.released {
			old[l.lock] = true
		}
	}
	l, err := u.lc.ObtainLock(context.WithValue(ctx, callID{}, id), lockOf(kv), nil)
	u.o.Write(2)
	if err != nil && l != nil {
		hx.Fail("a lock or an error", "ObtainLock returned a lock and %v", err)
	}
	if l == nil {
		if err == nil && ctx.Err() == nil {
			hx.Fail("a lock or an error", "ObtainLock of %s returned neither although its context is open", show(kv))
		}
		return nil, err
	}
	if old[l] {
		hx.Fail("a lock that ended is not handed out again", "ObtainLock of %s returned a lock that was over before the call", show(kv))
	}
	for _, k := range u.locks {
		if k.lock == l {
			return k, nil
		}
	}
	s := u.s.byCall[id]
	if s == nil || s.key != show(kv) {
		// obtained by another call of this client that has not returned yet
		for _, x := range u.s.sessions {
			if x.key == show(kv) {
				s = x
			}
		}
	}
	if s == nil {
		hx.Fail("a lock was granted by the service", "ObtainLock of %s returned a lock nobody granted", show(kv))
	}
	for _, k := range u.locks {
		if k.s == s {
			hx.Fail("one lock per grant", "two locks for %s", s.id)
		}
	}
	k := &held{lock: l, s: s, releasing: -1}
	u.locks = append(u.locks, k)
	u.h.Daemon("watch "+s.id, func() {
		vs.Recv(l.Done())
		u.o.Write(3)
		k.done, k.closed = true, vs.Now()
		u.judge(k)
	})
	return k, nil
}

// due is when Done has to be closed, as far as it is known now.
func (k *held) due() time.Duration {
	d := k.s.lastOK + ttl
	if k.s.refused >= 0 && k.s.refused < d {
		d = k.s.refused
	}
	if k.releasing >= 0 && k.releasing < d {
		d = k.releasing
	}
	return d
}

func (u *user) judge(k *held) {
	if k.closed < k.due() && (!u.s.loose || k.closed < ttl) {
		hx.Fail("a lock is signalled lost only when it is", "Done of %s %s closed at %v; last success %v, refused %v, release %v", k.s.key, k.s.id, k.closed, k.s.lastOK, k.s.refused, k.releasing)
	}
	if k.closed > k.due() && !u.s.loose {
		hx.Fail("the end of a lock is signalled at once", "Done of %s %s closed at %v, due at %v; last success %v, refused %v, release %v", k.s.key, k.s.id, k.closed, k.due(), k.s.lastOK, k.s.refused, k.releasing)
	}
}

func (u *user) release(k *held) error {
	u.o.Write(4)
	if k.releasing < 0 {
		k.releasing = vs.Now()
	}
	k.calls++
	k.overlap = k.overlap || k.calls > 1
	err := k.lock.Release(vctx.Background())
	u.o.Write(5)
	k.calls--
	k.released = true
	if err == nil {
		k.success++
		if k.success > 1 {
			hx.Fail("a lock is released once", "two calls of Release of %s succeeded", k.s.id)
		}
		if !k.s.released {
			hx.Fail("a release reported successful happened", "Release of %s returned nil, but the service did not release it", k.s.id)
		}
	}
	if (err == nil || !k.overlap) && !closed(k.lock.Done()) {
		hx.Fail("a released lock is done", "Release of %s returned and Done is open", k.s.id)
	}
	return err
}

// settle lets everything happen that can happen now and judges every lock.
func (u *user) settle() {
	vs.Sleep(1)
	u.o.Write(7)
	u.s.mu.Lock()
	u.s.o.Write(3)
	u.s.expire()
	u.s.mu.Unlock()
	for _, k := range u.locks {
		if k.done {
			continue
		}
		if d := k.due(); d < vs.Now()-1 && !u.s.loose {
			hx.Fail("the end of a lock is signalled at once", "Done of %s %s is open at %v, due at %v; last success %v, refused %v, release %v", k.s.key, k.s.id, vs.Now(), d, k.s.lastOK, k.s.refused, k.releasing)
		}
	}
}

// again checks that the key-values can be obtained once more, with a new grant.
func (u *user) again(kv kvs) {
	u.s.faults = map[string][]string{}
	before := len(u.s.sessions)
	k, err := u.obtain(vctx.Background(), kv)
	if err != nil || k == nil {
		hx.Fail("key-values can be obtained again", "%s: %v", show(kv), err)
	}
	if len(u.s.sessions) == before {
		hx.Fail("key-values can be obtained again", "%s: no new grant", show(kv))
	}
	if closed(k.lock.Done()) {
		hx.Fail("key-values can be obtained again", "%s: the new lock is done", show(kv))
	}
	if err := u.release(k); err != nil {
		hx.Fail("a lock can be released", "%v", err)
	}
}

var (
	a1  = kvs{"a": datatypes.Int(1)}
	a2  = kvs{"a": datatypes.Int(2)}
	c1  = kvs{"c": datatypes.Int(1)}
	b1  = kvs{"b": datatypes.Int(1)}
	a1b = kvs{"a": datatypes.Int(1), "b": datatypes.Int(1)}
)

var beatFaults = []string{"refused", "error", "odd", "lost", "hang", "slow", "slow back", "conflict"}

func start(f func(h *hx.H, s *service, u *user)) func() {
	return func() {
		h, s := hx.New(), newService()
		f(h, s, newUser(h, s))
	}
}

func sched(name string, q, t int, f func(h *hx.H, s *service, u *user)) *hx.Scen {
	sc := hx.Sched("P21", "cl/"+name, q, t, start(f))
	sc.Horizon = 10 * time.Minute
	return sc
}

func init() {
	sched("kept", 2, 4, func(h *hx.H, s *service, u *user) {
		s.faults["beat"] = beatFaults
		k := u.must(a1)
		for i := 0; i < hx.Pick(3, 5); i++ {
			vs.Sleep(ttl / 2)
			u.settle()
		}
		if vs.Choose(2) == 1 {
			s.faults["release"] = []string{"refused", "error", "lost", "slow", "conflict"}
		}
		u.release(k)
		u.settle()
		u.again(a1)
	})
	sched("release-any-time", 2, 3, func(h *hx.H, s *service, u *user) {
		// a release at a heartbeat, between heartbeats, when the lock is lost
		s.loose = true
		s.faults["beat"] = []string{"conflict", "hang", "slow", "slow back", "refused"}
		k := u.must(a1)
		at := []time.Duration{0, 3 * ttl / 10, 4 * ttl / 10, 6 * ttl / 10, ttl, 12 * ttl / 10}
		h.Go("releaser", func() {
			vs.Sleep(at[vs.Choose(len(at))])
			u.now("Release", func() { u.release(k) })
			u.again(a1)
		})
		h.Wait()
		u.settle()
	}).Early = true
	sched("release-twice", 2, 3, func(h *hx.H, s *service, u *user) {
		k := u.must(a1)
		s.faults["release"] = []string{"error", "slow"}
		vs.Sleep([]time.Duration{0, 3 * ttl / 10}[vs.Choose(2)])
		ok := 0
		for i := 0; i < 2; i++ {
			h.Go("releaser", func() {
				if u.release(k) == nil {
					ok++
				}
			})
		}
		h.Wait()
		if ok != 1 && !k.s.faulted {
			hx.Fail("a lock can be released", "%d of 2 calls succeeded", ok)
		}
		if u.release(k) == nil {
			hx.Fail("a lock is released once", "a later release succeeded")
		}
		u.again(a1)
	})
	other := func(name string, q, t int, mine, theirs kvs) {
		// an obtain that waits for somebody else keeps nothing of this client from going on
		sched("beside-a-waiting-obtain/"+name, q, t, func(h *hx.H, s *service, u *user) {
			k := u.must(mine)
			o := s.hold(theirs, 5*ttl)
			h.Go("waiter", func() {
				w := u.must(theirs)
				if !o.over {
					hx.Fail("harness", "granted early")
				}
				u.release(w)
			})
			vs.Sleep(ttl / 10)
			switch vs.Choose(4) {
			case 0:
				u.now("Release", func() { u.release(k) })
				u.now("ObtainLock", func() { u.again(mine) })
			case 1:
				s.faults["beat"] = []string{"conflict", "refused"}
				vs.Sleep(2 * ttl)
				u.settle()
				u.now("Release", func() { u.release(k) })
				u.now("ObtainLock", func() { u.again(mine) })
			case 2:
				u.now("ObtainLock", func() { u.again(c1) })
				if k2, _ := u.obtain(bg(), mine); k2 != k {
					hx.Fail("a held lock is found again", "%s", show(mine))
				}
				u.release(k)
			case 3:
				ctx, cancel := vctx.WithCancel(bg())
				h.Go("second waiter", func() {
					k, err := u.obtain(ctx, theirs)
					if k != nil || err != nil {
						hx.Fail("a cancelled obtain returns", "%v %v", k, err)
					}
					if vs.Now() != ttl/10+ttl/5+1 {
						hx.Fail("a cancelled obtain returns at once", "returned at %v", vs.Now())
					}
				})
				vs.Sleep(ttl / 5)
				vs.Sleep(1)
				cancel()
				u.release(k)
			}
			h.Wait()
			u.settle()
			u.again(theirs)
		})
	}
	other("sibling", 1, 2, a1, a2)
	other("more-keys", 1, 2, a1, a1b)
	other("fewer-keys", 1, 2, a1b, a1)
	other("other-key", 0, 1, a1, b1)
	sched("same-key", 2, 3, func(h *hx.H, s *service, u *user) {
		// the threads of one client share a lock
		s.faults["obtain"] = []string{"refused", "busy", "error", "slow"}
		ctx, cancel := vctx.WithCancel(bg())
		cancelled := false
		for i := 0; i < 2; i++ {
			i := i
			h.Go(fmt.Sprint("obtainer", i), func() {
				c := bg()
				if i == 1 {
					c = ctx
				}
				k, err := u.obtain(c, a1)
				if k == nil {
					if err == nil && !(i == 1 && cancelled) {
						hx.Fail("a lock or an error", "neither")
					}
					return
				}
				vs.Sleep(ttl / 2)
				u.release(k)
			})
		}
		h.Go("canceller", func() {
			if vs.Choose(2) == 1 {
				u.o.Write(8)
				cancelled = true
				cancel()
			}
		})
		h.Wait()
		u.settle()
		u.again(a1)
	})
	sched("lost-while-obtaining", 2, 3, func(h *hx.H, s *service, u *user) {
		s.loose = true
		k := u.must(a1)
		s.faults["beat"] = []string{"conflict", "slow"}
		h.Go("obtainer", func() {
			vs.Sleep(3 * ttl / 10)
			k2, err := u.obtain(bg(), a1)
			if err != nil || k2 == nil {
				hx.Fail("key-values can be obtained again", "%v", err)
			}
			vs.Sleep(ttl / 2)
			u.release(k2)
		})
		h.Go("releaser", func() {
			vs.Sleep(3 * ttl / 10)
			if vs.Choose(2) == 1 {
				u.release(k)
			}
		})
		h.Wait()
		u.settle()
		if !k.done {
			u.release(k)
		}
		u.again(a1)
	}).Early = true
	sched("obtain-faults", 2, 3, func(h *hx.H, s *service, u *user) {
		s.faults["obtain"] = []string{"refused", "busy", "error", "odd", "slow", "lost", "garbage", "empty", "no timeout"}
		k, err := u.obtain(bg(), a1)
		if k != nil {
			u.settle()
			if k.done {
				hx.Fail("a lock is signalled lost only when it is", "at once")
			}
			s.faults = map[string][]string{}
			u.release(k)
		} else if len(s.faults["obtain"]) > 0 && err == nil {
			hx.Fail("a lock or an error", "neither")
		}
				u.again(a1)
		u.settle()
	})
	sched("cancel", 2, 3, func(h *hx.H, s *service, u *user) {
		// cancelling a waiting obtain: whatever it returns, nothing of it stays behind
		o := s.hold(a1, 2*ttl)
		ctx, cancel := vctx.WithCancel(bg())
		var k *held
		if vs.Choose(2) == 1 {
			s.faults["obtain"] = []string{"busy"}
		}
		h.Go("obtainer", func() {
			var err error
			k, err = u.obtain(ctx, a1)
			if err != nil {
				hx.Fail("a cancelled obtain is no error", "%v", err)
			}
		})
		h.Go("holder", func() {
			s.mu.Lock()
			s.o.Write(5)
			s.end(o)
			s.mu.Unlock()
		})
		h.Go("canceller", func() {
			cancel()
		})
		h.Wait()
		u.settle()
		if k != nil {
			u.release(k)
		}
		u.again(a1)
	})
	sched("many", 1, 2, func(h *hx.H, s *service, u *user) {
		// several locks at once, ended in any order
		sets := []kvs{a1, a2, a1b}
		var ks []*held
		for _, kv := range sets {
			ks = append(ks, u.must(kv))
		}
		s.faults["beat"] = []string{"conflict", "refused"}
		for i := range ks {
			i := i
			h.Go(fmt.Sprint("owner", i), func() {
				vs.Sleep(time.Duration(i) * ttl / 2)
				u.release(ks[i])
			})
		}
		h.Wait()
		u.settle()
		for _, kv := range sets {
			u.again(kv)
		}
	})
	hx.Seq("P21", "cl/requests", func() {
		h := hx.New()
		s := newService()
		u := newUser(h, s)
		t := []time.Duration{0, 1, 2, 3, 4, -1, time.Nanosecond * 9, time.Second}[vs.Choose(8)]
		l := lockOf(a1)
		l.Spec.Properties.Timeout = &t
		valid := t > 0
		switch vs.Choose(8) {
		case 1:
			l.Spec, valid = nil, false
		case 2:
			l.Spec.DBDefinition, valid = nil, false
		case 3:
			l.Spec.DBDefinition.KeyValues, valid = kvs{}, false
		case 4:
			l.Spec.DBDefinition.KeyValues, valid = kvs{"a": datatypes.Any()}, false
		case 5:
			l.Spec.DBDefinition.KeyValues, valid = nil, false
		case 6:
			l.State, valid = &v1locker.LockState{}, false
		case 7:
			l.Spec.DBDefinition.KeyValues, valid = kvs{"a": {Type: datatypes.T_int, Data: "1"}}, false
		}
		k, err := u.lc.ObtainLock(bg(), l, nil)
		if valid != (err == nil) || valid != (k != nil) {
			hx.Fail("an obtain returns a lock or says what is wrong", "timeout %d valid %v: %v %v", t, valid, k, err)
		}
		if !valid && len(s.sessions) > 0 {
			hx.Fail("an invalid request has no effect", "%d locks", len(s.sessions))
		}
		if k != nil {
			k.Release(bg())
		}
	})
	hx.Seq("P21", "cl/request-reused", func() {
		// the caller goes on to use its request for something else
		h := hx.New()
		s := newService()
		u := newUser(h, s)
		kv := kvs{"a": datatypes.Int(1)}
		l := lockOf(kv)
		k1, err := u.lc.ObtainLock(bg(), l, nil)
		if err != nil {
			hx.Fail("a free lock can be obtained", "%v", err)
		}
		switch vs.Choose(3) {
		case 0:
			kv["a"] = datatypes.Int(2)
		case 1:
			l.Spec.DBDefinition.KeyValues = a2
		case 2:
			l.Spec.DBDefinition = &v1locker.LockDBDefinition{KeyValues: a2}
		}
		k2, err := u.lc.ObtainLock(bg(), l, nil)
		if err != nil || k2 == k1 {
			hx.Fail("a free lock can be obtained", "%v", err)
		}
		for _, k := range []lockerclient.Lock{k1, k2} {
			if err := k.Release(bg()); err != nil {
				hx.Fail("a lock can be released", "%v", err)
			}
		}
		u.again(a1)
		u.again(a2)
	})
}
