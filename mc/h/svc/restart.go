package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vproc"
	"github.com/DanLavine/willow/verifmc/vs"
)

// probe uses the whole system: a queue gets an item, that is consumed and acknowledged.
func probe(queue string) {
	q := strings.Replace(queueBody("1"), `"q"`, `"`+queue+`"`, 1)
	path := "/v1/queues/" + queue + "/channels/items"
	must("create queue", do("willow", "POST", "/v1/queues", q), 201)
	must("enqueue", do("willow", "POST", path, itemBody), 201)
	must2("enqueue over the limit", do("willow", "POST", path, itemBody), 409)
	a := must("dequeue", do("willow", "GET", path, "{}"), 200)
	id := between(a.body, `"ID":"`, `"`)
	must("acknowledge", do("willow", "POST", path+"/ack", `{"ItemID":"`+id+`","KeyValues":{"c":{"Type":13,"Data":"x"}},"Passed":true}`), 200, 204)
	must("delete queue", do("willow", "DELETE", "/v1/queues/"+queue, ""), 204)
}

func must2(what string, a answer, status int) {
	if a.err != nil || a.status != status {
		hx.FailH("a request is not refused: "+what, "%s", a)
	}
}

func between(s, a, b string) string {
	i := strings.Index(s, a)
	if i < 0 {
		return ""
	}
	s = s[i+len(a):]
	if j := strings.Index(s, b); j >= 0 {
		return s[:j]
	}
	return s
}

func init() {
	// every sequence of restarts, by a signal or by a crash
	services := []string{"locker", "limiter", "willow"}
	// a queue that exists when willow restarts can be created again
	sched("restart/queue-left", 0, 0, func() {
		m := all("locker limiter willow")
		vs.Calm(true)
		must("create queue", do("willow", "POST", "/v1/queues", queueBody("1")), 201)
		if vs.Choose(2) == 1 {
			must("enqueue", do("willow", "POST", items, itemBody), 201)
		}
		m["willow"].Kill()
		m["willow"] = start("willow")
		vs.Sleep(time.Millisecond)
		must("create queue", do("willow", "POST", "/v1/queues", queueBody("1")), 201)
	})
	for _, same := range []bool{false, true} {
		same := same
		name := "restart/new-queue"
		if same {
			name = "restart/same-queue"
		}
		s := hx.Sched("P23", "svc/"+name, 0, 0, func() {
			m := all("locker limiter willow")
			vs.Calm(true)
			queue := 0
			next := func() string {
				if !same {
					queue++
				}
				return fmt.Sprint("q", queue)
			}
			probe(next())
			stale := false // the limiter has lost willow's rule
			restart := func(x string, crash bool) {
				if crash {
					m[x].Kill()
				} else {
					m[x].Signal(sigint)
					graceful(m[x])
				}
				m[x] = start(x)
				vs.Sleep(time.Millisecond)
				awaitUp(x)
				stale = x == "limiter" || stale && x != "willow"
			}
			n := hx.Pick(3, 4)
			for i := 0; i < n; i++ {
				k := vs.Choose(1 + 2*len(services))
				if k == 0 {
					break
				}
				restart(services[(k-1)/2], (k-1)%2 == 1)
			}
			if !stale {
				probe(next())
			}
			for _, x := range services {
				alive(x, m[x])
			}
		})
		s.Horizon = 100 * time.Hour
	}
}

func alive(x string, p *vproc.P) {
	if p.Exited() {
		hx.FailH("a service has ended: "+x, "%d %s", p.Code, p.Reason)
	}
	if a := do(x, "GET", "/health", ""); a.status != 200 {
		hx.FailH("a service is not healthy: "+x, "%s", a)
	}
}
