package main

import (
	"fmt"
	"time"

	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// Requests that arrive together, on the whole stack: all schedules up to a bound of deviations.

func together(name string, quick, thorough int, body func()) {
	s := hx.Sched("P20", "web/together/"+name, quick, thorough, body)
	s.Horizon = 100 * time.Hour
}

func ok2(what string, a, b answer, ok, refused int) {
	if !(a.status == ok && b.status == refused || a.status == refused && b.status == ok) {
		hx.FailH("not exactly one of two requests is accepted: "+what, "%d %s and %d %s", a.status, a.body, b.status, b.body)
	}
}

// quiet: nobody holds a lock once every request is answered, and the limiter counts what is expected.
func (s *system) quiet(count map[string]int64) {
	vs.Sleep(time.Second)
	if a := s.do("locker", "GET", "/v1/locks", "{}"); string(a.body) != "[]" {
		hx.FailH("locks are still held after the answers", "%s", a.body)
	}
	cs, err := s.limiter.QueryCounters(vctx.Background(), mQuery[0].q)
	if err != nil {
		hx.FailH("the counters cannot be listed", "%v", err)
	}
	got := map[string]int64{}
	for _, c := range cs {
		k := "other"
		if _, ok := c.Spec.DBDefinition.KeyValues["_willow_enqueued"]; ok {
			k = "enqueued"
		} else if _, ok := c.Spec.DBDefinition.KeyValues["_willow_running"]; ok {
			k = "running"
		}
		got[k] += *c.Spec.Properties.Counters
	}
	if fmt.Sprint(got) != fmt.Sprint(count) {
		hx.FailH("the limiter counts something else than there is", "%v, expected %v", got, count)
	}
}

func itemBody(ci int, data string) string {
	return `{"Spec":{"DBDefinition":{"KeyValues":` + qKVj[ci] + `},"Properties":{"Data":"` + data + `","Updateable":false,"RetryAttempts":1,"RetryPosition":"front","TimeoutDuration":100000000000}}}`
}

func queueBody(n int) string {
	return fmt.Sprintf(`{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":%d}}}`, n)
}

func (s *system) must(what string, a answer, status int) answer {
	if a.status != status {
		hx.FailH("a valid request is refused: "+what, "%d %s", a.status, a.body)
	}
	return a
}

func calmly(names string, setup func(s *system)) *system {
	hx.Reset()
	vs.Calm(true)
	s := newSystem(names)
	vs.Sleep(1)
	setup(s)
	vs.Calm(false)
	return s
}

func init() {
	const items = "/v1/queues/q/channels/items"
	for _, other := range []int{0, 1} {
		other := other
		together(fmt.Sprintf("enqueue-limit-%d", other), 1, 2, func() {
			s := calmly("locker limiter willow", func(s *system) {
				s.must("create queue", s.do("willow", "POST", "/v1/queues", queueBody(1)), 201)
			})
			h := hx.New()
			var a, b answer
			h.Go("p1", func() { a = s.do("willow", "POST", items, itemBody(0, "MQ==")) })
			h.Go("p2", func() { b = s.do("willow", "POST", items, itemBody(other, "Mg==")) })
			h.Wait()
			vs.Calm(true)
			ok2("items for a queue with room for one", a, b, 201, 409)
			s.quiet(map[string]int64{"enqueued": 1})
		})
	}
	together("enqueue-delete", 1, 2, func() {
		s := calmly("locker limiter willow", func(s *system) {
			s.must("create queue", s.do("willow", "POST", "/v1/queues", queueBody(5)), 201)
		})
		h := hx.New()
		var a, b answer
		h.Go("p", func() { a = s.do("willow", "POST", items, itemBody(0, "MQ==")) })
		h.Go("d", func() { b = s.do("willow", "DELETE", "/v1/queues/q", "") })
		h.Wait()
		vs.Calm(true)
		if a.status != 201 && a.status != 404 && a.status != 409 || b.status != 204 && b.status != 409 {
			hx.FailH("an answer that is not documented: enqueue while the queue is deleted", "%d %s and %d %s", a.status, a.body, b.status, b.body)
		}
		if b.status == 204 {
			s.quiet(map[string]int64{})
		}
	})
	together("ack-twice", 1, 2, func() {
		var it v1willow.Item
		s := calmly("locker limiter willow", func(s *system) {
			s.must("create queue", s.do("willow", "POST", "/v1/queues", queueBody(5)), 201)
			s.must("enqueue", s.do("willow", "POST", items, itemBody(0, "MQ==")), 201)
			if err := one(s.must("dequeue", s.do("willow", "GET", items, "{}"), 200).body, &it); err != nil {
				hx.FailH("an item cannot be decoded", "%v", err)
			}
		})
		h := hx.New()
		var a, b answer
		ack := func(passed bool) answer {
			return s.do("willow", "POST", items+"/ack", fmt.Sprintf(`{"ItemID":%q,"KeyValues":%s,"Passed":%v}`, it.State.ID, qKVj[0], passed))
		}
		h.Go("a1", func() { a = ack(true) })
		h.Go("a2", func() { b = ack(true) })
		h.Wait()
		vs.Calm(true)
		ok2("acknowledgements of an item", a, b, 200, 404)
		s.quiet(map[string]int64{})
	})
	together("consumer-gone", 1, 2, func() {
		s := calmly("locker limiter willow", func(s *system) {
			s.must("create queue", s.do("willow", "POST", "/v1/queues", queueBody(5)), 201)
		})
		h := hx.New()
		ctx, cancel := vctx.WithCancel(vctx.Background())
		var a, b answer
		h.Go("c", func() { a = s.call(ctx, "willow", "GET", items, []byte("{}"), plain) })
		h.Go("p", func() { b = s.do("willow", "POST", items, itemBody(0, "MQ==")) })
		h.Go("x", cancel)
		h.Wait()
		vs.Calm(true)
		s.must("enqueue", b, 201)
		if a.status == 200 {
			s.quiet(map[string]int64{"enqueued": 1, "running": 1})
			return
		}
		s.quiet(map[string]int64{"enqueued": 1})
		var again answer
		h.Go("again", func() { again = s.do("willow", "GET", items, "{}") })
		vs.Sleep(time.Second)
		if again.status != 200 {
			hx.FailH("an item is lost with a consumer that is gone", "%d %s, then %d %s", a.status, a.body, again.status, again.body)
		}
	})
	together("count-limit", 1, 2, func() {
		s := calmly("locker limiter", func(s *system) {
			s.must("create rule", s.do("limiter", "POST", "/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":1}}}`), 201)
		})
		h := hx.New()
		var a, b answer
		inc := func(ci int) answer {
			return s.do("limiter", "PUT", "/v1/limiter/counters", `{"Spec":{"DBDefinition":{"KeyValues":`+qKVj[ci]+`},"Properties":{"Counters":1}}}`)
		}
		h.Go("i1", func() { a = inc(0) })
		h.Go("i2", func() { b = inc(1) })
		h.Wait()
		vs.Calm(true)
		ok2("increments with room for one", a, b, 200, 409)
		s.quiet(map[string]int64{"other": 1})
	})
	lock := `{"Spec":{"DBDefinition":{"KeyValues":` + qKVj[0] + `},"Properties":{"Timeout":100000000000}}}`
	held := func(s *system, a answer) *v1locker.Lock {
		l := &v1locker.Lock{}
		if err := one(s.must("create lock", a, 200).body, l); err != nil {
			hx.FailH("a lock answer cannot be decoded", "%v: %s", err, a.body)
		}
		return l
	}
	for _, how := range []string{"query", "gone", "lost", "expiry"} {
		how := how
		together("lock-handover-"+how, 2, 4, func() {
			var l *v1locker.Lock
			s := calmly("locker", func(s *system) { l = held(s, s.do("locker", "POST", "/v1/locks", lock)) })
			h := hx.New()
			ctx, cancel := vctx.WithCancel(vctx.Background())
			var a, q, r answer
			h.Go("b", func() {
				s.drop = how == "lost"
				a = s.call(ctx, "locker", "POST", "/v1/locks", []byte(lock), plain)
			})
			if how != "expiry" {
				h.Go("a", func() { r = s.do("locker", "DELETE", "/v1/locks/"+l.State.LockID, claim(l.State.SessionID)) })
			} else {
				r.status = 204
			}
			switch how {
			case "gone":
				h.Go("x", cancel)
			case "query", "expiry":
				h.Go("q", func() {
					if how == "expiry" {
						vs.Sleep(100 * time.Second)
					}
					q = s.do("locker", "GET", "/v1/locks", "{}")
				})
			}
			h.Wait()
			vs.Calm(true)
			s.must("release", r, 204)
			if q.status != 0 {
				var ls v1locker.Locks
				if err := one(s.must("locks query", q, 200).body, &ls); err != nil || ls.Validate() != nil || len(ls) > 1 {
					hx.FailH("the list of locks is not valid", "%v: %s", err, q.body)
				}
			}
			vs.Sleep(1)
			free := a.status != 200 || how == "lost"
			if !free {
				b := held(s, a)
				if b.State.SessionID == l.State.SessionID {
					hx.FailH("a session is used twice", "%s", a.body)
				}
				s.must("release", s.do("locker", "DELETE", "/v1/locks/"+b.State.LockID, claim(b.State.SessionID)), 204)
			} else if how != "gone" && how != "lost" {
				hx.FailH("a lock that is free is not given to a client that waits", "%d %s", a.status, a.body)
			}
			if left := s.do("locker", "GET", "/v1/locks", "{}"); string(left.body) != "[]" {
				hx.FailH("a lock is held by nobody", "%s", left.body)
			}
			held(s, s.do("locker", "POST", "/v1/locks", lock))
		})
	}
}
