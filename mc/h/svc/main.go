// The three services as processes: the real mains, their configuration, servers and clients, on a network and with
// signals that the scheduler controls (P23).
package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"syscall"
	"time"

	limiter "github.com/DanLavine/willow/cmd/limiter"
	locker "github.com/DanLavine/willow/cmd/locker"
	willow "github.com/DanLavine/willow/cmd/willow"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vhttp"
	"github.com/DanLavine/willow/verifmc/vproc"
	"github.com/DanLavine/willow/verifmc/vs"
)

func main() {
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if strings.HasPrefix(k, "LOCKER_") || strings.HasPrefix(k, "LIMITER_") || strings.HasPrefix(k, "WILLOW_") && k != "WILLOW_REPO" || k == "LOG_LEVEL" || k == "STORAGE_TYPE" {
			os.Unsetenv(k)
		}
	}
	hx.Main()
}

var mains = map[string]func(){"locker": locker.Main, "limiter": limiter.Main, "willow": willow.Main}

var ports = map[string]string{"locker": "7001", "limiter": "7002", "willow": "7003"}

var dependency = map[string]string{"limiter": "locker", "willow": "limiter"}

func url(service string) string { return "http://127.0.0.1:" + ports[service] }

func args(service string) []string {
	a := []string{"-insecure-http", "-port", ports[service]}
	if d := dependency[service]; d != "" {
		a = append(a, "-"+d+"-url", url(d))
	}
	return a
}

func start(service string, more ...string) *vproc.P {
	return vproc.Start(service, append(args(service), more...), mains[service])
}

// answer is what a request ends with.
type answer struct {
	status int
	body   string
	err    error
}

func (a answer) String() string {
	if a.err != nil {
		return a.err.Error()
	}
	return fmt.Sprintf("%d %s", a.status, a.body)
}

func send(ctx context.Context, service, method, path, body string) answer {
	req, err := http.NewRequestWithContext(ctx, method, url(service)+path, strings.NewReader(body))
	if err != nil {
		return answer{err: err}
	}
	req.Header.Set("Content-Type", "application/json")
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return answer{err: err}
	}
	b, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	return answer{resp.StatusCode, string(b), nil}
}

func do(service, method, path, body string) answer {
	return send(context.Background(), service, method, path, body)
}

// awaitUp waits until the service is healthy.
func awaitUp(service string) {
	for i := 0; i < 30; i++ {
		if a := do(service, "GET", "/health", ""); a.status == 200 {
			return
		}
		vs.Sleep(10 * time.Second)
	}
	hx.FailH("a service does not come up: "+service, "still not healthy after 300 s")
}

// all starts the services one after the other.
func all(services string) map[string]*vproc.P {
	vs.Calm(true)
	hx.Reset()
	vhttp.Hook()
	m := map[string]*vproc.P{}
	for _, s := range strings.Fields(services) {
		m[s] = start(s)
		vs.Sleep(time.Millisecond)
		awaitUp(s)
	}
	vs.Calm(false)
	return m
}

func must(what string, a answer, status ...int) answer {
	for _, s := range status {
		if a.err == nil && a.status == s {
			return a
		}
	}
	hx.FailH("a valid request is refused: "+what, "%s", a)
	return a
}

// graceful waits for the end of an interrupted service.
func graceful(p *vproc.P) {
	t0 := vs.Now()
	code := p.Wait()
	if code != 0 {
		hx.FailH("an interrupted service ends with a failure: "+p.Name, "exit code %d: %s", code, p.Reason)
	}
	if n := vhttp.Dropped(p); n > 0 {
		hx.FailH("an interrupted service leaves requests without an answer: "+p.Name, "%d requests", n)
	}
	if d := vs.Now() - t0; d > 2*time.Second {
		hx.FailH("an interrupted service does not end: "+p.Name, "it took %v", d)
	}
}

// answered fails unless the request has got an answer, or was never accepted.
func answered(what string, a answer) {
	if a.err != nil && !strings.Contains(a.err.Error(), vhttp.Refused.Error()) {
		hx.FailH("a request is neither refused nor answered: "+what, "%s", a)
	}
	// (the limiter answers 500 when it could not get its locks)
	if a.err == nil && a.status >= 500 && a.status != 503 && what != "increment" {
		hx.FailH("a request fails with an internal error while the service stops: "+what, "%s", a)
	}
}

func sched(name string, quick, thorough int, body func()) *hx.Scen {
	s := hx.Sched("P23", "svc/"+name, quick, thorough, body)
	s.Horizon = 100 * time.Hour
	return s
}

const sigint = syscall.SIGINT
