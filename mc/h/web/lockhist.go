package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// Histories of the locker's endpoints: every sequence of requests of a few clients, with clients that go away while
// they wait, answers that cannot be written and time passing, against a model of who holds which lock.

type lclient struct {
	key    int
	ttl    time.Duration
	lost   bool // its connection breaks: the answer cannot be written
	cancel func()
	gone   bool
	done   bool
	ans    answer
	at     time.Duration // when it was answered
	seen   bool
}

type mlock struct {
	id, session string
	ttl         time.Duration
	deadline    time.Duration
}

type lworld struct {
	*system
	held    [2]*mlock
	cs      []*lclient
	over    [][2]string // lock id, session of claims that are over
	history []string
}

var lkv = [2]string{`{"a":{"Type":13,"Data":"1"}}`, `{"a":{"Type":13,"Data":"1"},"b":{"Type":10,"Data":"2"}}`}

func (w *lworld) fail(key, f string, a ...any) {
	hx.FailH(key, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.history, "\n  "))
}

func (w *lworld) now() time.Duration { return vs.Now() }

func (w *lworld) did(f string, a ...any) { w.history = append(w.history, fmt.Sprintf(f, a...)) }

func (w *lworld) create(key int, ttl time.Duration, lost bool) {
	c := &lclient{key: key, ttl: ttl, lost: lost}
	ctx, cancel := vctx.WithCancel(vctx.Background())
	c.cancel = cancel
	prop := ""
	if ttl > 0 {
		prop = fmt.Sprintf(`,"Properties":{"Timeout":%d}`, int64(ttl))
	} else {
		c.ttl = lockTTL
	}
	body := fmt.Sprintf(`{"Spec":{"DBDefinition":{"KeyValues":%s}%s}}`, lkv[key], prop)
	w.cs = append(w.cs, c)
	w.did("client %d: create %d ttl=%v lost=%v", len(w.cs)-1, key, c.ttl, lost)
	th := vs.Spawn("client", func() {
		w.drop = lost
		c.ans = w.call(ctx, "locker", "POST", "/v1/locks", []byte(body), plain)
		c.at = vs.Now()
		c.done = true
	})
	vs.Daemon(th)
}

// settle lets everything run that can run now, and checks the answers that arrived.
func (w *lworld) settle() {
	vs.Sleep(1)
	for k, l := range w.held {
		if l != nil && w.now() > l.deadline {
			w.did("lock %d expired", k)
			w.over = append(w.over, [2]string{l.id, l.session})
			w.held[k] = nil
		}
	}
	for n, c := range w.cs {
		if !c.done || c.seen {
			continue
		}
		c.seen = true
		switch {
		case c.ans.status == 200 && c.lost:
			w.did("client %d: the answer could not be written", n)
		case c.ans.status == 200 && c.gone:
			w.fail("a client that is gone gets the lock", "client %d", n)
		case c.ans.status == 200:
			if w.held[c.key] != nil {
				w.fail("a lock that is held is given to another client", "client %d", n)
			}
			l := &v1locker.Lock{}
			if err := one(c.ans.body, l); err != nil {
				w.fail("a lock answer cannot be decoded", "%v: %s", err, c.ans.body)
			}
			if err := l.Validate(); err != nil {
				w.fail("a lock answer is not valid", "%v: %s", err, c.ans.body)
			}
			if fmt.Sprint(l.Spec.DBDefinition.KeyValues) != fmt.Sprint(lockKV(c.key)) || l.Spec.Properties == nil || l.Spec.Properties.Timeout == nil || *l.Spec.Properties.Timeout != c.ttl || l.State.TimeTillExipre != c.ttl {
				w.fail("a lock answer describes another lock", "asked for %s ttl %v: %s", lkv[c.key], c.ttl, c.ans.body)
			}
			for _, o := range w.over {
				if o[1] == l.State.SessionID {
					w.fail("a session is used twice", "%s", c.ans.body)
				}
			}
			w.held[c.key] = &mlock{id: l.State.LockID, session: l.State.SessionID, ttl: c.ttl, deadline: c.at + c.ttl}
			w.did("client %d: holds lock %d", n, c.key)
		case c.ans.status == 503 && c.gone:
			w.did("client %d: gave up", n)
		default:
			w.fail("a lock request is refused", "client %d: %d %s", n, c.ans.status, c.ans.body)
		}
	}
	for n, c := range w.cs {
		if c.done {
			continue
		}
		if c.gone {
			w.fail("a request whose client is gone is not given up", "client %d", n)
		}
		if w.held[c.key] == nil {
			w.fail("a free lock is not given to a client that waits for it", "client %d", n)
		}
	}
	w.list()
}

func lockKV(k int) kvs {
	l := &v1locker.Lock{}
	_ = one([]byte(`{"Spec":{"DBDefinition":{"KeyValues":`+lkv[k]+`}}}`), l)
	return kvs(l.Spec.DBDefinition.KeyValues)
}

func (w *lworld) list() {
	for _, q := range []struct {
		body string
		keys []int
	}{{`{}`, []int{0, 1}}, {`{"Selection":{"KeyValues":{"b":{"Value":{"Type":10,"Data":"2"},"Comparison":"=","TypeRestrictions":{"MinDataType":10,"MaxDataType":10}}}}}`, []int{1}}} {
		a := w.do("locker", "GET", "/v1/locks", q.body)
		if a.status != 200 {
			w.fail("the locks cannot be listed", "%d %s", a.status, a.body)
		}
		var ls v1locker.Locks
		if err := one(a.body, &ls); err != nil {
			w.fail("the list of locks cannot be decoded", "%v: %s", err, a.body)
		}
		if err := ls.Validate(); err != nil {
			w.fail("the list of locks is not valid", "%v: %s", err, a.body)
		}
		var got, want []string
		for _, l := range ls {
			got = append(got, fmt.Sprintf("%v %s %s %v %d expires=%d", l.Spec.DBDefinition.KeyValues, l.State.LockID, l.State.SessionID, *l.Spec.Properties.Timeout, l.State.LocksHeldOrWaiting, (l.State.TimeTillExipre+w.now())/time.Second))
		}
		for _, k := range q.keys {
			if l := w.held[k]; l != nil {
				n := 1
				for _, c := range w.cs {
					if c.key == k && !c.done {
						n++
					}
				}
				want = append(want, fmt.Sprintf("%v %s %s %v %d expires=%d", lockKV(k), l.id, l.session, l.ttl, n, l.deadline/time.Second))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.fail("the list of locks is not the locks that are held", "query %s\ngot  %v\nwant %v", q.body, got, want)
		}
	}
}

func claim(session string) string { return fmt.Sprintf(`{"SessionID":%q}`, session) }

func (w *lworld) refuse(what string, a answer, statuses ...int) {
	for _, s := range statuses {
		if a.status == s {
			var e errorBody
			if err := one(a.body, &e); err != nil || e.Message == nil || *e.Message == "" {
				w.fail("a refusal does not say why: "+what, "%d %q", a.status, a.body)
			}
			return
		}
	}
	w.fail("not refused: "+what, "%d %s", a.status, a.body)
}

func (w *lworld) step() bool {
	type op struct {
		name string
		f    func()
	}
	var ops []op
	add := func(name string, f func()) { ops = append(ops, op{name, f}) }
	for k := 0; k < 2; k++ {
		k := k
		waits := 0
		for _, c := range w.cs {
			if c.key == k && !c.done {
				waits++
			}
		}
		if waits < 2 {
			add("create", func() { w.create(k, 60*time.Second, false) })
			if k == 0 {
				add("create, default timeout", func() { w.create(k, 0, false) })
				add("create, answer lost", func() { w.create(k, 60*time.Second, true) })
			}
		}
		if l := w.held[k]; l != nil {
			add("heartbeat", func() {
				a := w.do("locker", "POST", "/v1/locks/"+l.id+"/heartbeat", claim(l.session))
				if a.status != 200 || len(a.body) != 0 {
					w.fail("a heartbeat of a held lock is refused", "%d %s", a.status, a.body)
				}
				l.deadline = w.now() + l.ttl
			})
			add("release", func() {
				a := w.do("locker", "DELETE", "/v1/locks/"+l.id, claim(l.session))
				if a.status != 204 || len(a.body) != 0 {
					w.fail("a release of a held lock is refused", "%d %s", a.status, a.body)
				}
				w.over = append(w.over, [2]string{l.id, l.session})
				w.held[k] = nil
			})
			add("wrong session", func() {
				w.refuse("a heartbeat with a wrong session", w.do("locker", "POST", "/v1/locks/"+l.id+"/heartbeat", claim("nobody")), 409)
				w.refuse("a release with a wrong session", w.do("locker", "DELETE", "/v1/locks/"+l.id, claim("nobody")), 409)
				for _, o := range w.over {
					w.refuse("a heartbeat with another session", w.do("locker", "POST", "/v1/locks/"+l.id+"/heartbeat", claim(o[1])), 409)
					w.refuse("a release with another session", w.do("locker", "DELETE", "/v1/locks/"+l.id, claim(o[1])), 409)
				}
			})
		}
	}
	add("nothing is held under the name", func() {
		for _, o := range append([][2]string{{"nobody", "nobody"}}, w.over...) {
			w.refuse("a heartbeat of a lock that is over", w.do("locker", "POST", "/v1/locks/"+o[0]+"/heartbeat", claim(o[1])), 404, 409)
			a := w.do("locker", "DELETE", "/v1/locks/"+o[0], claim(o[1]))
			if a.status != 204 { // "Resrouce was deleted or never even existed"
				w.refuse("a release of a lock that is over", a, 404, 409)
			}
		}
	})
	for n, c := range w.cs {
		n, c := n, c
		if !c.done && !c.gone {
			add("gone", func() { w.did("client %d goes away", n); c.gone = true; c.cancel() })
		}
	}
	add("40 s pass", func() { vs.Sleep(40 * time.Second) })
	o := ops[vs.Choose(len(ops))]
	w.did("%v %s", w.now(), o.name)
	o.f()
	w.settle()
	return true
}

func init() {
	s := hx.Seq("P20", "web/history/locker/empty", func() {
		depth := hx.Pick(5, 7)
		hx.Reset()
		vs.Calm(true)
		w := &lworld{system: newSystem("locker")}
		w.settle()
		for d := 0; d < depth; d++ {
			w.step()
		}
		// the service stops: whoever waits has to try again somewhere else
		w.stop[0]()
		vs.Sleep(1)
		for n, c := range w.cs {
			if !c.done {
				w.fail("a stopping service leaves a client without an answer", "client %d", n)
			}
			if !c.seen && c.ans.status != 503 {
				w.fail("a stopping service answers a waiting client with something else than 503", "client %d: %d %s", n, c.ans.status, c.ans.body)
			}
		}
	})
	s.Horizon = 100 * time.Hour
}
