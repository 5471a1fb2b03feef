package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

var _ context.Context

// replied fails when a service has not answered a request although it lives.
func replied(what string, a answer) {
	if a.err != nil {
		hx.FailH("a request gets no answer: "+what, "%s", a)
	}
}

func init() {
	// what a service depends on crashes at any moment of a request, and comes back
	sched("crash/locker-of-limiter", 1, 2, func() {
		m := all("locker limiter")
		vs.Calm(true)
		must("create rule", do("limiter", "POST", "/v1/limiter/rules", ruleBody), 201)
		vs.Calm(false)
		h := hx.New()
		var a, b answer
		h.Go("increment", func() { a = do("limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
		h.Go("increment", func() { b = do("limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
		h.Go("crash", func() { m["locker"].Kill() })
		h.Wait()
		vs.Calm(true)
		replied("increment", a)
		replied("increment", b)
		alive("limiter", m["limiter"])
		m["locker"] = start("locker")
		vs.Sleep(time.Minute)
		n := 0
		for _, x := range []answer{a, b} {
			if x.status == 200 || x.status == 204 {
				n++
			}
		}
		if n > 1 {
			hx.FailH("more is counted than the rule allows", "%s, %s", a, b)
		}
		c := must("query counters", do("limiter", "GET", "/v1/limiter/counters/query", "{}"), 200)
		have := 1 - strings.Count(c.body, `"Counters":1`)
		if strings.Count(c.body, `"Counters":`) > 1 || have < 0 || n == 1 && have != 0 {
			hx.FailH("a counter differs from the accepted updates", "%s, %s: %s", a, b, c)
		}
		for i := 0; i < 2; i++ {
			x := do("limiter", "PUT", "/v1/limiter/counters", counterBody("1"))
			if have > 0 {
				must("increment", x, 200, 204)
				have--
			} else {
				must2("increment over the limit", x, 409)
			}
		}
	})
	sched("crash/locker-restarted", 1, 2, func() {
		m := all("locker limiter")
		vs.Calm(true)
		must("create rule", do("limiter", "POST", "/v1/limiter/rules", ruleBody), 201)
		vs.Calm(false)
		h := hx.New()
		var a, b answer
		h.Go("increment", func() { a = do("limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
		h.Go("increment", func() { b = do("limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
		h.Go("crash", func() { m["locker"].Kill(); m["locker"] = start("locker") })
		h.Wait()
		vs.Calm(true)
		replied("increment", a)
		replied("increment", b)
		alive("limiter", m["limiter"])
		// what the crashed locker had granted may be granted again, so nothing is said about the count; but the limiter
		// works on with the new one
		vs.Sleep(time.Minute)
		for _, x := range []answer{a, b} {
			if x.status == 200 || x.status == 204 {
				must("decrement", do("limiter", "PUT", "/v1/limiter/counters", counterBody("-1")), 200, 204)
			}
		}
		must("increment", do("limiter", "PUT", "/v1/limiter/counters", strings.Replace(counterBody("1"), `"x"`, `"y"`, 1)), 200, 204)
	})
	for _, dead := range []string{"locker", "limiter"} {
		for _, op := range []string{"enqueue", "dequeue", "ack", "fail", "create", "delete", "update"} {
			dead, op := dead, op
			sched("crash/"+dead+"-of-willow-"+op, 1, 2, func() {
				m := all("locker limiter willow")
				vs.Calm(true)
				must("create queue", do("willow", "POST", "/v1/queues", queueBody("5")), 201)
				id := ""
				if op != "enqueue" {
					must("enqueue", do("willow", "POST", items, itemBody), 201)
				}
				if op == "ack" || op == "fail" {
					id = between(must("dequeue", do("willow", "GET", items, "{}"), 200).body, `"ID":"`, `"`)
				}
				vs.Calm(false)
				h := hx.New()
				var a answer
				h.Go(op, func() {
					switch op {
					case "enqueue":
						a = do("willow", "POST", items, itemBody)
					case "dequeue":
						ctx, cancel := vctx.WithTimeout(vctx.Background(), time.Minute)
						a = send(ctx, "willow", "GET", items, "{}")
						cancel()
					case "ack", "fail":
						a = do("willow", "POST", items+"/ack", `{"ItemID":"`+id+`","KeyValues":{"c":{"Type":13,"Data":"x"}},"Passed":`+fmt.Sprint(op == "ack")+`}`)
					case "create":
						a = do("willow", "POST", "/v1/queues", strings.Replace(queueBody("5"), `"q"`, `"r"`, 1))
					case "delete":
						a = do("willow", "DELETE", "/v1/queues/q", "")
					case "update":
						a = do("willow", "PUT", "/v1/queues/q", `{"MaxItems":7}`)
					}
				})
				h.Go("crash", func() { m[dead].Kill() })
				h.Wait()
				vs.Calm(true)
				if op != "dequeue" || a.err == nil || !strings.Contains(a.err.Error(), "deadline") {
					replied(op, a)
				}
				alive("willow", m["willow"])
				if dead == "locker" {
					// all is well again when the locker is back
					m["locker"] = start("locker")
					vs.Sleep(5 * time.Minute)
					probe("p")
				}
				if l := do("willow", "GET", "/v1/queues", "{}"); l.status != 200 {
					hx.FailH("the queues cannot be listed", "%s", l)
				}
			})
		}
	}
	// a consumer goes away at any moment: its item is not lost
	sched("gone/consumer", 1, 2, func() {
		m := all("locker limiter willow")
		_ = m
		vs.Calm(true)
		must("create queue", do("willow", "POST", "/v1/queues", queueBody("5")), 201)
		must("enqueue", do("willow", "POST", items, itemBody), 201)
		vs.Calm(false)
		h := hx.New()
		ctx, cancel := vctx.WithCancel(vctx.Background())
		var a answer
		h.Go("consumer", func() { a = send(ctx, "willow", "GET", items, "{}") })
		h.Go("gone", func() { cancel() })
		h.Wait()
		vs.Calm(true)
		// longer than an item stays with a consumer that is not heard of
		vs.Sleep(10 * time.Minute)
		ctx, cancel = vctx.WithTimeout(vctx.Background(), time.Minute)
		b := send(ctx, "willow", "GET", items, "{}")
		cancel()
		if b.status != 200 {
			hx.FailH("an item is lost with the consumer that went away", "%s, then %s", a, b)
		}
	})
}
