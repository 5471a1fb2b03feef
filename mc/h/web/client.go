package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// What the client libraries make of every answer: success is reported exactly if the service reported success and its
// answer is what is documented; everything else is an error, and never a crash.

// method is one call of a client library.
type method struct {
	name    string
	request string // the request it makes
	success int
	good    []string // documented bodies of a success; nil: none
	bad     []string // bodies that are no valid answer
	alsoBad []int    // statuses whose message the client has to pass on
	call    func(s *system) (any, error)
	invalid []func(s *system) error // calls with arguments that are not valid
}

const (
	goodRule  = `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":2}},"State":{"ID":"r1","Overrides":[]}}`
	goodOvr   = `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":13,"Data":"1"}}},"Properties":{"Limit":2}},"State":{"ID":"o1"}}`
	goodCtr   = `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"1"}}},"Properties":{"Counters":2}},"State":{}}`
	goodLock  = `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"1"}}},"Properties":{"Timeout":60000000000}},"State":{"LockID":"l1","SessionID":"s1","TimeTillExipre":60000000000,"LocksHeldOrWaiting":1}}`
	goodQueue = `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":2}},"State":{"Deleting":false}}`
	goodItem  = `{"Spec":{"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"1"}}},"Properties":{"Data":"ZGF0YQ==","Updateable":false,"RetryAttempts":0,"RetryPosition":"front","TimeoutDuration":60000000000}},"State":{"ID":"i1"}}`
)

func without(doc string, parts ...string) []string {
	var l []string
	for _, p := range parts {
		if !strings.Contains(doc, p) {
			panic("not in the document: " + p)
		}
		l = append(l, strings.Replace(doc, p, "", 1))
	}
	return append(l, doc[:len(doc)-1], doc[:1], `null`, `{}`, `[]`, `7`, `"x"`, ``, `{"Message":"no"}`)
}

func listOf(doc string, parts ...string) (good, bad []string) {
	good = []string{"[]", "[" + doc + "]", "[" + doc + "," + doc + "]"}
	for _, b := range without(doc, parts...) {
		if b != "" && b != doc[:len(doc)-1] && b != doc[:1] {
			bad = append(bad, "["+b+"]", "["+doc+","+b+"]")
		}
	}
	bad = append(bad, "["+doc, "{}", "7", "", `{"Message":"no"}`)
	return
}

func background() vctx.Context { return vctx.Background() }

func methods() []method {
	all := &queryassociatedaction.AssociatedActionQuery{}
	badQ := &queryassociatedaction.AssociatedActionQuery{Selection: &queryassociatedaction.Selection{}}
	match := querymatchaction.KeyValuesToAnyMatchActionQuery(kvs{"a": datatypes.String("1")})
	one, minus := int64(1), int64(-2)
	rp := &v1limiter.RuleProperties{Limit: &one}
	op := &v1limiter.OverrideProperties{Limit: &one}
	rule := func() *v1limiter.Rule { return mrule_(kvs{"a": datatypes.Any()}, 2) }
	ovr := func() *v1limiter.Override { return movr_(kvs{"a": datatypes.String("1")}, 2) }
	queue := func(n string, m *int64) *v1willow.Queue {
		return &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &n}, Properties: &v1willow.QueueProperties{MaxItems: m}}}
	}
	item := func() *v1willow.Item {
		return &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues{"a": datatypes.String("1")}},
			Properties: &v1willow.ItemProperties{Data: []byte("data"), Updateable: ptr(false), RetryAttempts: ptr[uint64](0), RetryPosition: ptr("front"), TimeoutDuration: ptr(time.Minute)}}}
	}
	ruleParts := []string{`"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":2}},`, `"Limit":2`, `"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},`, `"a":{"Type":1024}`}
	ovrParts := []string{`,"State":{"ID":"o1"}`, `"Limit":2`, `"DBDefinition":{"GroupByKeyValues":{"a":{"Type":13,"Data":"1"}}},`, `"Data":"1"`[:0] + `"Type":13,`}
	ctrParts := []string{`"Counters":2`, `"Type":13,`, `"DBDefinition":{"KeyValues":{"a":{"Type":13,"Data":"1"}}},`, `"a":{"Type":13,"Data":"1"}`}
	queueParts := []string{`"Name":"q"`, `"DBDefinition":{"Name":"q"},`, `,"State":{"Deleting":false}`, `"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":2}},`, `"MaxItems":2`}
	itemParts := []string{`"ID":"i1"`, `,"State":{"ID":"i1"}`, `"Type":13,`, `,"TimeoutDuration":60000000000`, `"Updateable":false,`, `"RetryPosition":"front",`, `"a":{"Type":13,"Data":"1"}`}
	lockParts := []string{`"LockID":"l1",`, `"SessionID":"s1",`, `"Timeout":60000000000`, `,"Properties":{"Timeout":60000000000}`, `,"LocksHeldOrWaiting":1`, `"a":{"Type":13,"Data":"1"}`}
	rules, badRules := listOf(goodRule, ruleParts...)
	ovrs, badOvrs := listOf(goodOvr, ovrParts...)
	ctrs, badCtrs := listOf(goodCtr, ctrParts...)
	queues, badQueues := listOf(goodQueue, queueParts...)
	odd := "q/?#% é"
	return []method{
		{name: "create rule", request: "POST limiter /v1/limiter/rules", success: 201, good: []string{goodRule}, bad: without(goodRule, ruleParts...), alsoBad: []int{400, 409, 500},
			call:    func(s *system) (any, error) { return s.limiter.CreateRule(background(), rule()) },
			invalid: []func(*system) error{func(s *system) error { _, err := s.limiter.CreateRule(background(), &v1limiter.Rule{}); return err }, func(s *system) error { _, err := s.limiter.CreateRule(background(), mrule_(kvs{}, 1)); return err }, func(s *system) error { _, err := s.limiter.CreateRule(background(), mrule_(kvs{"a": datatypes.Any()}, -2)); return err }}},
		{name: "get rule", request: "GET limiter /v1/limiter/rules/r1", success: 200, good: []string{goodRule}, bad: without(goodRule, ruleParts...), alsoBad: []int{404, 409, 500},
			call: func(s *system) (any, error) { return s.limiter.GetRule(background(), "r1") }},
		{name: "query rules", request: "GET limiter /v1/limiter/rules/query", success: 200, good: rules, bad: badRules, alsoBad: []int{400, 500},
			call:    func(s *system) (any, error) { return s.limiter.QueryRules(background(), all) },
			invalid: []func(*system) error{func(s *system) error { _, err := s.limiter.QueryRules(background(), badQ); return err }}},
		{name: "match rules", request: "GET limiter /v1/limiter/rules/match", success: 200, good: rules, bad: badRules, alsoBad: []int{400, 500},
			call: func(s *system) (any, error) { return s.limiter.MatchRules(background(), match) }},
		{name: "update rule", request: "PUT limiter /v1/limiter/rules/r1", success: 200, alsoBad: []int{400, 404, 409, 500},
			call:    func(s *system) (any, error) { return nil, s.limiter.UpdateRule(background(), "r1", rp) },
			invalid: []func(*system) error{func(s *system) error { return s.limiter.UpdateRule(background(), "r1", &v1limiter.RuleProperties{}) }, func(s *system) error { return s.limiter.UpdateRule(background(), "r1", &v1limiter.RuleProperties{Limit: &minus}) }}},
		{name: "delete rule", request: "DELETE limiter /v1/limiter/rules/r1", success: 204, alsoBad: []int{409, 500},
			call: func(s *system) (any, error) { return nil, s.limiter.DeleteRule(background(), "r1") }},
		{name: "create override", request: "POST limiter /v1/limiter/rules/r1/overrides", success: 201, good: []string{goodOvr}, bad: without(goodOvr, ovrParts...), alsoBad: []int{400, 404, 409, 500},
			call:    func(s *system) (any, error) { return s.limiter.CreateOverride(background(), "r1", ovr()) },
			invalid: []func(*system) error{func(s *system) error { _, err := s.limiter.CreateOverride(background(), "r1", &v1limiter.Override{}); return err }}},
		{name: "get override", request: "GET limiter /v1/limiter/rules/r1/overrides/o1", success: 200, good: []string{goodOvr}, bad: without(goodOvr, ovrParts...), alsoBad: []int{404, 409, 500},
			call: func(s *system) (any, error) { return s.limiter.GetOverride(background(), "r1", "o1") }},
		{name: "query overrides", request: "GET limiter /v1/limiter/rules/r1/overrides/query", success: 200, good: ovrs, bad: badOvrs, alsoBad: []int{400, 409, 500},
			call: func(s *system) (any, error) { return s.limiter.QueryOverrides(background(), "r1", all) }},
		{name: "match overrides", request: "GET limiter /v1/limiter/rules/r1/overrides/match", success: 200, good: ovrs, bad: badOvrs, alsoBad: []int{400, 409, 500},
			call: func(s *system) (any, error) { return s.limiter.MatchOverrides(background(), "r1", match) }},
		{name: "update override", request: "PUT limiter /v1/limiter/rules/r1/overrides/o1", success: 200, alsoBad: []int{400, 404, 409, 500},
			call:    func(s *system) (any, error) { return nil, s.limiter.UpdateOverride(background(), "r1", "o1", op) },
			invalid: []func(*system) error{func(s *system) error { return s.limiter.UpdateOverride(background(), "r1", "o1", &v1limiter.OverrideProperties{}) }}},
		{name: "delete override", request: "DELETE limiter /v1/limiter/rules/r1/overrides/o1", success: 204, alsoBad: []int{404, 409, 500},
			call: func(s *system) (any, error) { return nil, s.limiter.DeleteOverride(background(), "r1", "o1") }},
		{name: "update counter", request: "PUT limiter /v1/limiter/counters", success: 200, alsoBad: []int{400, 409, 500},
			call:    func(s *system) (any, error) { return nil, s.limiter.UpdateCounter(background(), mctr_(kvs{"a": datatypes.String("1")}, 1)) },
			invalid: []func(*system) error{func(s *system) error { return s.limiter.UpdateCounter(background(), &v1limiter.Counter{}) }}},
		{name: "set counters", request: "PUT limiter /v1/limiter/counters/set", success: 200, alsoBad: []int{400, 500},
			call:    func(s *system) (any, error) { return nil, s.limiter.SetCounters(background(), mctr_(kvs{"a": datatypes.String("1")}, 1)) },
			invalid: []func(*system) error{func(s *system) error { return s.limiter.SetCounters(background(), &v1limiter.Counter{}) }}},
		{name: "query counters", request: "GET limiter /v1/limiter/counters/query", success: 200, good: ctrs, bad: badCtrs, alsoBad: []int{400, 500},
			call: func(s *system) (any, error) { return s.limiter.QueryCounters(background(), all) }},
		{name: "limiter health", request: "GET limiter /health", success: 200, call: func(s *system) (any, error) { return nil, s.limiter.Healthy() }},

		{name: "create queue", request: "POST willow /v1/queues", success: 201, alsoBad: []int{400, 409, 500},
			call:    func(s *system) (any, error) { return nil, s.willow.CreateQueue(background(), queue("q", &one)) },
			invalid: []func(*system) error{func(s *system) error { return s.willow.CreateQueue(background(), &v1willow.Queue{}) }, func(s *system) error { return s.willow.CreateQueue(background(), queue("", &one)) }, func(s *system) error { return s.willow.CreateQueue(background(), queue("q", nil)) }}},
		{name: "list queues", request: "GET willow /v1/queues", success: 200, good: queues, bad: badQueues, alsoBad: []int{500},
			call: func(s *system) (any, error) { return s.willow.ListQueues(background()) }},
		{name: "get queue", request: "GET willow /v1/queues/" + escape(odd), success: 200, good: []string{goodQueue}, bad: without(goodQueue, queueParts...), alsoBad: []int{500},
			call: func(s *system) (any, error) { return s.willow.GetQueue(background(), odd, all) }},
		{name: "update queue", request: "PUT willow /v1/queues/" + escape(odd), success: 200, alsoBad: []int{400, 404, 409, 500},
			call:    func(s *system) (any, error) { return nil, s.willow.UpdateQueue(background(), odd, &v1willow.QueueProperties{MaxItems: &one}) },
			invalid: []func(*system) error{func(s *system) error { return s.willow.UpdateQueue(background(), "q", &v1willow.QueueProperties{}) }}},
		{name: "delete queue", request: "DELETE willow /v1/queues/" + escape(odd), success: 204, alsoBad: []int{409, 500},
			call: func(s *system) (any, error) { return nil, s.willow.DeleteQueue(background(), odd) }},
		{name: "delete channel", request: "DELETE willow /v1/queues/" + escape(odd) + "/channels", success: 204, alsoBad: []int{400, 404, 409, 500},
			call: func(s *system) (any, error) { return nil, s.willow.DeleteQueueChannel(background(), odd, kvs{"a": datatypes.String("1")}) },
			invalid: []func(*system) error{func(s *system) error { return s.willow.DeleteQueueChannel(background(), "q", kvs{}) }, func(s *system) error {
				return s.willow.DeleteQueueChannel(background(), "q", kvs{"a": datatypes.Any()})
			}}},
		{name: "enqueue", request: "POST willow /v1/queues/" + escape(odd) + "/channels/items", success: 201, alsoBad: []int{400, 404, 409, 500},
			call:    func(s *system) (any, error) { return nil, s.willow.EnqueueQueueItem(background(), odd, item()) },
			invalid: []func(*system) error{func(s *system) error { return s.willow.EnqueueQueueItem(background(), "q", &v1willow.Item{}) }}},
		{name: "dequeue", request: "GET willow /v1/queues/" + escape(odd) + "/channels/items", success: 200, good: []string{goodItem}, bad: without(goodItem, itemParts...), alsoBad: []int{400, 404, 409, 500},
			call: func(s *system) (any, error) {
				it, err := s.willow.DequeueQueueItem(background(), odd, all)
				if err == nil && string(it.Data()) != "data" {
					hx.FailH("an item arrives with other data", "%q", it.Data())
				}
				return it, err
			}},
		{name: "willow health", request: "GET willow /health", success: 200, call: func(s *system) (any, error) { return nil, s.willow.Healthy() }},

		{name: "obtain lock", request: "POST locker /v1/locks", success: 200, good: []string{goodLock}, bad: without(goodLock, lockParts...), alsoBad: []int{400, 500},
			call: func(s *system) (any, error) {
				lc, err := lockerclient.NewLockClient(&clients.Config{URL: "http://locker"})
				if err != nil {
					hx.FailH("a client cannot be created", "%v", err)
				}
				l, err := lc.ObtainLock(background(), &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.TypedKeyValues{"a": datatypes.String("1")}}}}, nil)
				return l, err
			},
			invalid: []func(*system) error{func(s *system) error {
				lc, _ := lockerclient.NewLockClient(&clients.Config{URL: "http://locker"})
				_, err := lc.ObtainLock(background(), &v1locker.Lock{}, nil)
				return err
			}}},
		{name: "locker health", request: "GET locker /health", success: 200, call: func(s *system) (any, error) {
			lc, _ := lockerclient.NewLockClient(&clients.Config{URL: "http://locker"})
			return nil, lc.Healthy()
		}},
	}
}

func nothing(v any) bool {
	if v == nil {
		return true
	}
	switch r := reflect.ValueOf(v); r.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Interface, reflect.Map:
		return r.IsNil() || r.Kind() == reflect.Slice && r.Len() == 0
	}
	return false
}

func init() {
	for _, m := range methods() {
		m := m
		s := hx.Seq("P20", "web/client/"+m.name, func() {
			hx.Reset()
			vs.Calm(true)
			s := newSystem("")
			if k := vs.Choose(1 + len(m.invalid)); k > 0 {
				s.reply = func(req *http.Request, body []byte) (*http.Response, error) {
					hx.FailH("a request that is not valid is sent: "+m.name, "%s", body)
					return nil, io.EOF
				}
				if err := m.invalid[k-1](s); err == nil {
					hx.FailH("the client reports success for a request that is not valid: "+m.name, "%d", k)
				}
				return
			}
			statuses := []int{0, 200, 201, 202, 204, 304, 400, 401, 404, 405, 409, 500, 502, 503}
			if m.name == "obtain lock" {
				statuses = statuses[:len(statuses)-1] // tried again until it is answered
			}
			status := statuses[vs.Choose(len(statuses))]
			bodies := append(append([]string{}, m.good...), m.bad...)
			if status >= 400 || status == 0 {
				bodies = []string{`{"Message":"say \"no\""}`, `{"Message":""}`, ``, `{}`, `null`, `nothing`, `{"Message":7}`, `{"Mess`}
			} else if m.good == nil {
				bodies = []string{``}
			}
			b := vs.Choose(len(bodies))
			body := bodies[b]
			broken := status != 0 && body != "" && vs.Choose(2) == 1 // the connection breaks within the body
			n := 0
			s.reply = func(req *http.Request, sent []byte) (*http.Response, error) {
				if n++; n > 1 {
					// heartbeats of what was obtained
					return response(req, answer{status: 200, header: http.Header{}}), nil
				}
				if got := req.Method + " " + req.URL.Host + " " + req.URL.RequestURI(); got != m.request && plainEscape(got) != plainEscape(m.request) {
					hx.FailH("another request: "+m.name, "%s, expected %s", got, m.request)
				}
				if len(sent) > 0 && req.Header.Get("Content-Type") != "application/json" {
					hx.FailH("a request without a content type: "+m.name, "%v", req.Header)
				}
				if status == 0 {
					return nil, io.ErrUnexpectedEOF
				}
				resp := response(req, answer{status: status, body: []byte(body), header: http.Header{}})
				if broken {
					resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader([]byte(body[:len(body)/2])), brokenPipe{}))
				}
				return resp, nil
			}
			v, err := m.call(s)
			if n == 0 {
				hx.FailH("no request is made: "+m.name, "%v", err)
			}
			ok := status == m.success && (m.good == nil || b < len(m.good) && !broken)
			if m.good == nil && status == m.success {
				ok = true
			}
			what := fmt.Sprintf("%d %s broken=%v", status, body, broken)
			if ok && err != nil {
				hx.FailH("the client reports an error for a success: "+m.name, "%s: %v", what, err)
			}
			if !ok && err == nil {
				hx.FailH("the client reports success for something else: "+m.name, "%s: %v", what, v)
			}
			if err != nil && !nothing(v) {
				hx.FailH("the client returns something with an error: "+m.name, "%s: %v %v", what, v, err)
			}
			if ok && m.good != nil && v == nil {
				hx.FailH("the client returns nothing: "+m.name, "%s", what)
			}
			if err != nil {
				_ = err.Error()
			}
			for _, st := range m.alsoBad {
				if st == status && b == 0 && !broken && !strings.Contains(err.Error(), `say "no"`) {
					hx.FailH("the client drops the service's message: "+m.name, "%s: %v", what, err)
				}
			}
		})
		s.Horizon = time.Hour
	}
}

type brokenPipe struct{}

func (brokenPipe) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// plainEscape ignores which characters were escaped that need not be.
func plainEscape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			var c byte
			fmt.Sscanf(s[i+1:i+3], "%02X", &c)
			if c != '/' && c != '%' && c != '?' && c != '#' && c != ' ' {
				b.WriteByte(c)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}
