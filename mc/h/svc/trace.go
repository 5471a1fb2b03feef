package main

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vhttp"
	"github.com/DanLavine/willow/verifmc/vlog"
	"github.com/DanLavine/willow/verifmc/vs"
)

const traceHeader = "X-Request-ID"

type tagged struct{}

func doTagged(id, service, method, path, body string) answer {
	return send(context.WithValue(context.Background(), tagged{}, id), service, method, path, body)
}

// traced judges the requests and the log lines of one execution: what is done for a request carries its id.
func traced() {
	all := vhttp.Requests()
	known := map[string]string{}
	id := make([]string, len(all))
	outer := func(t *vs.Thread) int {
		best, at := -1, -1
		for i, r := range all {
			if d := t.Within(r.Handler); d >= 0 && (best < 0 || d < best) {
				best, at = d, i
			}
		}
		return at
	}
	n := 0
	for i, r := range all {
		id[i] = r.Header.Get(traceHeader)
		what := r.Method + " " + r.Path
		p := outer(r.By)
		if len(r.Header.Values(traceHeader)) > 1 {
			hx.FailH("a request has several ids", "%s: %v", what, r.Header)
		}
		if p < 0 || strings.HasSuffix(r.Path, "/heartbeat") {
			continue
		}
		from := all[p].Method + " " + all[p].Path
		n++
		if id[p] == "" {
			// the service gives it an id
			if id[i] == "" {
				hx.FailH("a request without an id is not given one", "%s for %s", what, from)
			}
			id[p] = id[i]
			k := fmt.Sprint(p)
			if o, ok := known[id[i]]; ok && o != k {
				hx.FailH("two requests are given the same id", "%s: %q", from, id[i])
			}
			known[id[i]] = k
		}
		if id[i] != id[p] {
			hx.FailH("a request loses its id on the way", "%s has %q, sent for %s which has %q", what, id[i], from, id[p])
		}
	}
	for _, e := range vlog.Entries() {
		p := outer(e.By)
		if p < 0 {
			continue
		}
		got, ok := e.Fields[traceHeader]
		n++
		if !ok {
			hx.FailH("a log line of a request does not name it", "%q %v in %s %s", e.Line, e.Fields, all[p].Method, all[p].Path)
		}
		if id[p] != "" && got != id[p] {
			hx.FailH("a log line names another request", "%q names %v in %s %s which has %q", e.Line, got, all[p].Method, all[p].Path, id[p])
		}
	}
	if n == 0 {
		hx.FailH("nothing is traced", "")
	}
}

func tracing() {
	vhttp.Record, vlog.Record = true, true
	boot()
	sent := http.DefaultTransport
	http.DefaultTransport = tagger{sent}
}

// tagger gives the requests of the tests their ids.
type tagger struct{ http.RoundTripper }

func (t tagger) RoundTrip(r *http.Request) (*http.Response, error) {
	if id, ok := r.Context().Value(tagged{}).(string); ok && id != "" {
		r.Header.Set(traceHeader, id)
	}
	return t.RoundTripper.RoundTrip(r)
}

func traceScen(name string, q, t int, f func()) {
	s := hx.Sched("P25", "svc/"+name, q, t, func() {
		vs.Calm(true)
		tracing()
		for _, x := range []string{"locker", "limiter", "willow"} {
			start(x, "-log-level", "debug")
			vs.Sleep(time.Millisecond)
		}
		f()
		vs.Calm(true)
		traced()
	})
	s.Horizon = 100 * time.Hour
}

func init() {
	traceScen("trace/sequence", 0, 0, func() {
		n := 0
		kind := vs.Choose(3)
		x := func(service, method, path, body string, status ...int) answer {
			n++
			id := ""
			if kind == 0 || kind == 1 && n%2 == 0 {
				id = fmt.Sprintf("id-%d", n)
			}
			a := doTagged(id, service, method, path, body)
			must(method+" "+path, a, status...)
			vs.Sleep(10 * time.Millisecond)
			return a
		}
		x("limiter", "POST", "/v1/limiter/rules", ruleBody, 201)
		x("limiter", "PUT", "/v1/limiter/counters", counterBody("1"), 200, 204)
		x("limiter", "PUT", "/v1/limiter/counters", counterBody("1"), 409)
		x("limiter", "PUT", "/v1/limiter/counters", counterBody("-1"), 200, 204)
		x("limiter", "GET", "/v1/limiter/counters/query", "{}", 200)
		x("willow", "POST", "/v1/queues", queueBody("2"), 201)
		x("willow", "POST", items, itemBody, 200, 201)
		x("willow", "POST", items, itemBody, 200, 201)
		x("willow", "POST", items, itemBody, 409)
		one := between(x("willow", "GET", items, "{}", 200).body, `"ID":"`, `"`)
		x("willow", "POST", items+"/ack", ackBody(one, true), 200)
		two := between(x("willow", "GET", items, "{}", 200).body, `"ID":"`, `"`)
		x("willow", "POST", items+"/ack", ackBody(two, false), 200)
		x("willow", "GET", "/v1/queues", "{}", 200)
		x("willow", "DELETE", "/v1/queues/q", "", 204)
	})
	traceScen("trace/concurrent", 1, 2, func() {
		must("create rule", do("limiter", "POST", "/v1/limiter/rules", ruleBody), 201)
		must("create queue", do("willow", "POST", "/v1/queues", queueBody("2")), 201)
		vs.Calm(false)
		h := hx.New()
		h.Go("a", func() { doTagged("id-a", "limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
		h.Go("b", func() { doTagged("id-b", "limiter", "PUT", "/v1/limiter/counters", counterBody("1")) })
		h.Go("c", func() { doTagged("id-c", "willow", "POST", items, itemBody) })
		h.Wait()
	})
}

func ackBody(id string, passed bool) string {
	return `{"ItemID":"` + id + `","KeyValues":{"c":{"Type":13,"Data":"x"}},"Passed":` + fmt.Sprint(passed) + `}`
}
