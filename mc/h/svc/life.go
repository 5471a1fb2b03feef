package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vhttp"
	"github.com/DanLavine/willow/verifmc/vs"
)

const lockBody = `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"x"}}},"Properties":{"Timeout":15000000000}}}`

func queueBody(max string) string {
	return `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":` + max + `}}}`
}

const itemBody = `{"Spec":{"DBDefinition":{"KeyValues":{"c":{"Type":13,"Data":"x"}}},"Properties":{"Data":"MQ==","Updateable":false,"RetryAttempts":1,"RetryPosition":"front","TimeoutDuration":100000000000}}}`

const items = "/v1/queues/q/channels/items"

func init() {
	// a locker with one lock held and a second request waiting for it is interrupted at any moment
	sched("stop/locker", 1, 2, func() {
		m := all("locker")
		h := hx.New()
		var a, b answer
		h.Go("holder", func() { a = do("locker", "POST", "/v1/locks", lockBody) })
		h.Go("waiter", func() { b = do("locker", "POST", "/v1/locks", lockBody) })
		h.Go("signal", func() { m["locker"].Signal(sigint) })
		h.Wait()
		vs.Calm(true)
		graceful(m["locker"])
		answered("obtain a lock", a)
		answered("obtain a lock", b)
	})
	sched("stop/willow", 1, 2, func() {
		m := all("locker limiter willow")
		vs.Calm(true)
		must("create queue", do("willow", "POST", "/v1/queues", queueBody("5")), 201)
		vs.Calm(false)
		h := hx.New()
		var a, b answer
		h.Go("consumer", func() { a = do("willow", "GET", items, "{}") })
		h.Go("producer", func() { b = do("willow", "POST", items, itemBody) })
		h.Go("signal", func() { m["willow"].Signal(sigint) })
		h.Wait()
		vs.Calm(true)
		graceful(m["willow"])
		answered("dequeue", a)
		answered("enqueue", b)
	})

	// a limiter with an update that waits for a lock somebody else holds is interrupted at any moment
	for _, held := range []bool{false, true} {
		held := held
		name := "stop/limiter"
		if held {
			name += "-waiting"
		}
		sched(name, 1, 2, func() {
			m := all("locker limiter")
			vs.Calm(true)
			must("create rule", do("limiter", "POST", "/v1/limiter/rules", ruleBody), 201)
			if held {
				must("obtain lock", do("locker", "POST", "/v1/locks", strings.Replace(lockBody, `"a"`, `"k"`, 1)), 200)
			}
			vs.Calm(false)
			h := hx.New()
			var a, b answer
			h.Go("increment", func() { a = do("limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
			h.Go("increment", func() { b = do("limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
			h.Go("signal", func() { m["limiter"].Signal(sigint) })
			h.Wait()
			vs.Calm(true)
			graceful(m["limiter"])
			answered("increment", a)
			answered("increment", b)
			if !held && a.status == 204 && b.status == 204 {
				hx.FailH("more is counted than the rule allows", "%s, %s", a, b)
			}
			// the limiter leaves no locks behind, apart from one whose answer it no longer read, which times out
			vs.Sleep(2 * time.Second)
			l := must("list locks", do("locker", "GET", "/v1/locks", "{}"), 200)
			if !held && l.body != "[]" {
				hx.FailH("an interrupted limiter leaves locks behind", "%s", l)
			}
		})
	}
	// everything is interrupted, in any order, while requests are under way
	for _, order := range []string{"willow limiter locker", "willow locker limiter", "limiter willow locker", "limiter locker willow", "locker willow limiter", "locker limiter willow"} {
		order := strings.Fields(order)
		sched("stop/"+strings.Join(order, "-"), 0, 1, func() {
			m := all("locker limiter willow")
			vs.Calm(true)
			must("create queue", do("willow", "POST", "/v1/queues", queueBody("5")), 201)
			vs.Calm(false)
			h := hx.New()
			var a, b answer
			h.Go("consumer", func() { a = do("willow", "GET", items, "{}") })
			h.Go("producer", func() { b = do("willow", "POST", items, itemBody) })
			h.Go("signal", func() {
				for _, s := range order {
					m[s].Signal(sigint)
				}
			})
			for _, s := range order {
				graceful(m[s])
			}
			h.Wait()
			for _, x := range []answer{a, b} {
				if x.err != nil && !strings.Contains(x.err.Error(), vhttp.Refused.Error()) {
					hx.FailH("a request is neither refused nor answered: everything stops", "%s", x)
				}
			}
		})
	}
	// a service that starts before what it depends on
	for _, s := range []string{"limiter", "willow"} {
		s := s
		dep := dependency[s]
		for k := 0; k <= 11; k++ {
			k := k
			sched(fmt.Sprintf("start/%s-waits-%02d", s, k), 0, 1, func() {
				vs.Calm(true)
				boot()
				if s == "willow" {
					start("locker")
				}
				p := start(s)
				vs.Calm(k != 2)
				vs.Sleep(time.Duration(k)*10*time.Second - 5*time.Second)
				if k < 10 {
					if p.Exited() {
						hx.FailH("a service gives up too early: "+s, "after %d attempts: %s", k, p.Reason)
					}
					if s == "willow" {
						start("limiter")
					} else {
						start(dep)
					}
					vs.Sleep(15 * time.Second)
					vs.Calm(true)
					if a := do(s, "GET", "/health", ""); a.status != 200 {
						hx.FailH("a service does not start once its dependency is there: "+s, "%s", a)
					}
					p.Signal(sigint)
					graceful(p)
					return
				}
				if c := p.Wait(); c == 0 {
					hx.FailH("a service that cannot reach its dependency ends without an error: "+s, "")
				}
				if vs.Now() > 150*time.Second {
					hx.FailH("a service that cannot reach its dependency does not end: "+s, "%v", vs.Now())
				}
			})
		}
		// interrupted while it waits
		sched("start/"+s+"-interrupted", 1, 2, func() {
			vs.Calm(true)
			boot()
			p := start(s)
			vs.Calm(false)
			// before, and during the waits
			k := vs.Choose(4)
			vs.Sleep(time.Duration(k) * 9 * time.Second)
			t0 := vs.Now()
			p.Signal(sigint)
			p.Wait()
			if d := vs.Now() - t0; d > 2*time.Second {
				hx.FailH("a service interrupted while it waits for its dependency does not end: "+s, "it took %v", d)
			}
		})
	}
	// interrupted at any moment of its start
	for _, s := range []string{"locker", "limiter", "willow"} {
		s := s
		sched("start/"+s+"-stopped", 1, 2, func() {
			before := map[string]string{"locker": "", "limiter": "locker", "willow": "locker limiter"}[s]
			all(before)
			h := hx.New()
			p := start(s)
			var a answer
			h.Go("signal", func() { p.Signal(sigint) })
			h.Go("health", func() { a = do(s, "GET", "/health", "") })
			h.Wait()
			t0 := vs.Now()
			p.Wait()
			if d := vs.Now() - t0; d > 2*time.Second {
				hx.FailH("a service interrupted while it starts does not end: "+s, "it took %v", d)
			}
			if p.Code != 0 && p.Code != 130 {
				hx.FailH("a service interrupted while it starts ends with a failure: "+s, "%d %s", p.Code, p.Reason)
			}
			if a.err == nil && a.status != 200 || vhttp.Dropped(p) > 0 && p.Code == 0 {
				hx.FailH("the health of a service that stops: "+s, "%s", a)
			}
		})
		// the port is taken
		sched("start/"+s+"-port-taken", 1, 2, func() {
			before := map[string]string{"locker": "locker", "limiter": "locker limiter", "willow": "locker limiter willow"}[s]
			m := all(before)
			p := start(s)
			t0 := vs.Now()
			if c := p.Wait(); c == 0 {
				hx.FailH("a service whose port is taken ends without an error: "+s, "")
			}
			if d := vs.Now() - t0; d > 2*time.Second {
				hx.FailH("a service whose port is taken does not end: "+s, "it took %v", d)
			}
			if a := do(s, "GET", "/health", ""); a.status != 200 || m[s].Exited() {
				hx.FailH("a second service on the same port disturbs the first: "+s, "%s", a)
			}
		})
	}
}

// boot begins an execution without services.
func boot() {
	hx.Reset()
	vhttp.Hook()
}

const ruleBody = `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"k":{"Type":13,"Data":"x"}}},"Properties":{"Limit":1}}}`

func counterBody(n string) string {
	return `{"Spec":{"DBDefinition":{"KeyValues":{"k":{"Type":13,"Data":"x"}}},"Properties":{"Counters":` + n + `}}}`
}
