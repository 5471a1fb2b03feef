// The three services behind their real routers, talking to each other through the real client libraries (P20).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	limiterhandlers "github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	limiterrouter "github.com/DanLavine/willow/internal/limiter/api/v1/router"
	"github.com/DanLavine/willow/internal/limiter/counters"
	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/internal/limiter/rules"
	lockerhandlers "github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	lockerrouter "github.com/DanLavine/willow/internal/locker/api/v1/router"
	lockmanager "github.com/DanLavine/willow/internal/locker/lock_manager"
	willowhandlers "github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	willowrouter "github.com/DanLavine/willow/internal/willow/api/v1/router"
	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/constructor"
	"github.com/DanLavine/willow/internal/willow/brokers/queues"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

func main() { hx.Main() }

type kvs = datatypes.KeyValues

func ptr[T any](v T) *T { return &v }

// fatal turns a fatal log line into a violation.
type fatal struct{}

func (fatal) Enabled(l zapcore.Level) bool        { return l >= zapcore.DPanicLevel }
func (f fatal) With([]zapcore.Field) zapcore.Core { return f }
func (f fatal) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if f.Enabled(e.Level) {
		return ce.AddCore(e, f)
	}
	return ce
}
func (fatal) Write(e zapcore.Entry, fs []zapcore.Field) error {
	hx.Fail("the service exits: "+e.Message, "%v", fs)
	return nil
}
func (fatal) Sync() error { return nil }

// ------------------------------------------------------------------ the wire

// rec is the connection of one request: it keeps what is sent.
type rec struct {
	h       http.Header
	sent    http.Header
	status  int
	body    bytes.Buffer
	headers int
	lost    bool // the client is gone: writing fails
}

func (r *rec) Header() http.Header { return r.h }
func (r *rec) WriteHeader(s int) {
	r.headers++
	if r.headers == 1 {
		r.status = s
		r.sent = r.h.Clone()
	}
}
func (r *rec) Write(b []byte) (int, error) {
	if r.headers == 0 {
		r.WriteHeader(http.StatusOK)
	}
	if r.lost {
		return 0, fmt.Errorf("broken pipe")
	}
	if r.status == http.StatusNoContent || r.status == http.StatusNotModified {
		return 0, http.ErrBodyNotAllowed
	}
	return r.body.Write(b)
}

type answer struct {
	status int
	body   []byte
	header http.Header
}

// system is the three services.
type system struct {
	hosts   map[string]http.Handler
	stop    []func()
	willow  *willowclient.WillowClient
	limiter *limiterclient.LimitClient
	rule    string // willow's own rule in the limiter
	// the next answer of the service gets lost on the way (the client is gone when it is written)
	drop bool
	// reply, when set, answers instead of the services
	reply func(req *http.Request, body []byte) (*http.Response, error)
	last  answer // what the last request of a client library was answered
}

func (*system) Opaque() {}

// cancel of an incoming request's context: set by the caller to be seen by the handler
func (s *system) call(ctx vctx.Context, host, method, target string, body []byte, h http.Header) answer {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		// the http server refuses the request line
		return answer{status: 400, body: []byte("400 Bad Request")}
	}
	req := &http.Request{Method: method, URL: u, RequestURI: target, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: host,
		Header: h.Clone(), Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), RemoteAddr: "127.0.0.1:1"}
	if len(body) == 0 {
		req.Body = http.NoBody
	}
	req = req.WithContext(ctx)
	w := &rec{h: http.Header{}, lost: s.drop && host == "willow" || s.drop && host == "locker"}
	s.drop = false
	what := method + " " + pattern(target)
	s.hosts[host].ServeHTTP(w, req)
	if w.headers == 0 {
		// net/http answers 200 for a handler that writes nothing
		hx.Fail("a request gets no answer: "+what, "%s %s %s", method, target, body)
	}
	if w.headers > 1 {
		hx.Fail("a request is answered twice: "+what, "%s %s %s: %d, then %s", method, target, body, w.status, w.body.Bytes())
	}
	if vs.Tracing() {
		vs.Note("HTTP %s %s %s %s -> %d %s", host, method, target, body, w.status, w.body.Bytes())
	}
	return answer{w.status, w.body.Bytes(), w.sent}
}

func pattern(target string) string {
	p := strings.Split(strings.SplitN(target, "?", 2)[0], "/")
	for i := range p {
		if i > 0 && (p[i-1] == "locks" || p[i-1] == "queues" || p[i-1] == "rules" && p[i] != "query" && p[i] != "match" || p[i-1] == "overrides" && p[i] != "query" && p[i] != "match") {
			p[i] = "…"
		}
	}
	return strings.Join(p, "/")
}

// RoundTrip carries the requests of the client libraries.
func (s *system) RoundTrip(req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	var data []byte
	if req.Body != nil {
		data, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	s.last = answer{}
	if s.reply != nil {
		return s.reply(req, data)
	}
	a := s.call(req.Context(), req.URL.Host, req.Method, req.URL.RequestURI(), data, req.Header)
	s.last = a
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	return response(req, a), nil
}

func response(req *http.Request, a answer) *http.Response {
	return &http.Response{StatusCode: a.status, Status: http.StatusText(a.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: a.header,
		Body: io.NopCloser(bytes.NewReader(a.body)), ContentLength: int64(len(a.body)), Request: req}
}

const lockTTL = 100 * time.Second

func newSystem(names string) *system {
	s := &system{hosts: map[string]http.Handler{}}
	http.DefaultTransport = s
	logger := zap.New(fatal{})
	must := func(err error) {
		if err != nil {
			hx.Fail("a service does not start", "%v", err)
		}
	}
	if strings.Contains(names, "locker") {
		mux := urlrouter.New()
		l := lockmanager.NewExclusiveLocker()
		lockerrouter.AddV1LockerRoutes(logger, mux, lockerhandlers.NewLockHandler(&config.LockerConfig{LockDefaultTimeout: ptr(lockTTL)}, l))
		s.hosts["locker"] = mux
		ctx, stop := vctx.WithCancel(vctx.Background())
		vs.Daemon(vs.Spawn("locker", func() { _ = l.Execute(ctx) }))
		s.stop = append(s.stop, stop)
	}
	if strings.Contains(names, "limiter") {
		mux := urlrouter.New()
		oc, err := overrides.NewOverrideConstructor("memory")
		must(err)
		rc, err := rules.NewRuleConstructor("memory")
		must(err)
		cc, err := counters.NewCountersConstructor("memory")
		must(err)
		r := rules.NewLocalRulesClient(rc, overrides.NewDefaultOverridesClientLocal(oc))
		c := counters.NewCountersClientLocal(cc, r)
		ctx, stop := vctx.WithCancel(vctx.Background())
		s.stop = append(s.stop, stop)
		limiterrouter.AddV1LimiterRoutes(logger, mux, limiterhandlers.NewGroupRuleHandler(ctx, &clients.Config{URL: "http://locker"}, r, c))
		s.hosts["limiter"] = mux
	}
	lc, err := limiterclient.NewLimiterClient(&clients.Config{URL: "http://limiter"})
	must(err)
	s.limiter = lc
	if strings.Contains(names, "willow") {
		rule, err := lc.CreateRule(vctx.Background(), &v1limiter.Rule{Spec: &v1limiter.RuleSpec{
			DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: kvs{"_willow_queue_name": datatypes.Any(), "_willow_enqueued": datatypes.Any()}},
			Properties:   &v1limiter.RuleProperties{Limit: ptr[int64](0)},
		}})
		must(err)
		s.rule = rule.State.ID
		cc, err := constructor.NewQueueChannelConstructor("memory", lc)
		must(err)
		qcc := queuechannels.NewLocalQueueChannelsClient(cc)
		qc, err := queues.NewQueueConstructor("memory", lc)
		must(err)
		mux := urlrouter.New()
		willowrouter.AddV1WillowRoutes(logger, mux, willowhandlers.NewV1QueueHandler(queues.NewLocalQueueClient(qc, qcc, s.rule), s.rule))
		s.hosts["willow"] = mux
		ctx, stop := vctx.WithCancel(vctx.Background())
		vs.Daemon(vs.Spawn("willow", func() { _ = qcc.Execute(ctx) }))
		s.stop = append(s.stop, stop)
	}
	wc, err := willowclient.NewWillowClient(&clients.Config{URL: "http://willow"})
	must(err)
	s.willow = wc
	return s
}

var plain = http.Header{"Content-Type": {"application/json"}}

// do sends a request as it is.
func (s *system) do(host, method, path, body string) answer {
	return s.call(vctx.Background(), host, method, path, []byte(body), plain)
}

// one checks that data is exactly one JSON document and decodes it.
func one(data []byte, v any) error {
	d := json.NewDecoder(bytes.NewReader(data))
	if err := d.Decode(v); err != nil {
		return err
	}
	var x any
	if err := d.Decode(&x); err != io.EOF {
		return fmt.Errorf("more than one document")
	}
	return nil
}
