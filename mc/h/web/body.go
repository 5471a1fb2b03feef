package main

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// ------------------------------------------------------------------ grammar of request bodies

// val is a document: valid, not valid, or not settled by the documentation.
type val struct {
	s  string
	ok verdict
}

type verdict int8

const (
	yes  verdict = 1
	no   verdict = 0
	any_ verdict = -1
)

func both(a, b verdict) verdict {
	switch {
	case a == no || b == no:
		return no
	case a == any_ || b == any_:
		return any_
	}
	return yes
}

// node produces every document with at most k deviations from its default, which is the first.
type node interface{ docs(k int) []val }

type leaf []val

func (l leaf) docs(k int) []val {
	if k == 0 {
		return l[:1]
	}
	return l
}

type field struct {
	name    string
	n       node
	missing verdict // without the field
	absent  bool    // left out by default
}

// object of fields: a field may be left out, null, or deviate; the object may be something else
type object struct {
	fields []field
	alts   []val
}

func (o object) docs(k int) []val {
	out := o.from(0, k)
	for i := range out {
		out[i].s = "{" + strings.TrimSuffix(out[i].s, ",") + "}"
	}
	if k > 0 {
		out = append(out, val{`[]`, no}, val{`"x"`, no}, val{`7`, no}, val{`true`, no})
		if len(out[0].s) > 2 {
			out = append(out, val{out[0].s[:len(out[0].s)-1] + `,"Unknown":{"x":[1]}}`, any_})
		}
		out = append(out, o.alts...)
	}
	return out
}

func (o object) from(i, k int) []val {
	if i == len(o.fields) {
		return []val{{"", yes}}
	}
	f := o.fields[i]
	// the field's own variants, with what they cost
	var out []val
	seen := map[string]bool{}
	for d := 0; d <= k; d++ {
		vars := f.n.docs(d)
		if d > 0 && !f.absent {
			vars = append(append([]val{}, vars...), val{"", f.missing}, val{"null", f.missing})
		}
		if f.absent {
			vars = []val{{"", yes}}
			if d > 0 {
				vars = append(vars, f.n.docs(d-1)...)
				vars = append(vars, val{"null", f.missing})
			}
		}
		rest := o.from(i+1, k-d)
		for _, v := range vars {
			if seen[v.s] {
				continue // with a smaller cost already
			}
			seen[v.s] = true
			for _, r := range rest {
				s := r.s
				if v.s != "" {
					s = fmt.Sprintf("%q:%s,%s", f.name, v.s, r.s)
				}
				out = append(out, val{s, both(v.ok, r.ok)})
			}
		}
	}
	return out
}

func values(ok verdict, l ...string) []val {
	var out []val
	for _, s := range l {
		out = append(out, val{s, ok})
	}
	return out
}

func oneOf(def string, good, bad, open []string) leaf {
	l := leaf{{def, yes}}
	l = append(l, values(yes, good...)...)
	l = append(l, values(no, bad...)...)
	return append(l, values(any_, open...)...)
}

var notString = []string{`7`, `true`, `{}`, `[]`, `["x"]`}
var notNumber = []string{`"1"`, `true`, `{}`, `[]`, `1.5`, `9223372036854775808`, `-9223372036854775809`}

func text(def string, good ...string) leaf { return oneOf(def, good, notString, nil) }

func limitNode(def string) leaf {
	return oneOf(def, []string{"-1", "0", "9223372036854775807"}, append([]string{"-2", "-9223372036854775808"}, notNumber...), []string{"1e3"})
}

func durationNode(def string) leaf {
	return oneOf(def, []string{"1", "9223372036854775807"}, append([]string{"0", "-1", "-9223372036854775808"}, notNumber...), []string{"1e9"})
}

// value is one value with its type: wildcard tells whether any may be used
func value(def string, wildcard bool) leaf {
	good := []string{}
	for _, t := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10} {
		good = append(good, fmt.Sprintf(`{"Type":%d,"Data":"1"}`, t))
	}
	good = append(good, `{"Type":11,"Data":"1.5"}`, `{"Type":12,"Data":"1.5"}`, `{"Type":13,"Data":"x y/z"}`, `{"Type":13,"Data":"\u00e9\"\\"}`, `{"Type":9,"Data":"-9223372036854775808"}`)
	bad := []string{`{"Type":0,"Data":"1"}`, `{"Type":14,"Data":"1"}`, `{"Type":1023,"Data":"1"}`, `{"Type":1025}`, `{"Type":-1,"Data":"1"}`, `{"Data":"1"}`, `{"Type":10}`, `{"Type":10,"Data":null}`,
		`{"Type":13}`, `{"Type":13,"Data":null}`, `{"Type":13,"Data":5}`, `{"Type":10,"Data":"abc"}`, `{"Type":10,"Data":""}`, `{"Type":1,"Data":"256"}`, `{"Type":1,"Data":"-1"}`, `{"Type":6,"Data":"128"}`,
		`{"Type":9,"Data":"9223372036854775808"}`, `{"Type":4,"Data":"18446744073709551616"}`, `{"Type":11,"Data":"x"}`, `{"Type":11,"Data":"1e39"}`, `{"Type":12,"Data":"1e309"}`, `{"Type":10,"Data":{}}`, `{"Type":10,"Data":[]}`,
		`{"Type":10,"Data":true}`, `{"Type":"10","Data":"1"}`, `{}`, `null`, `7`, `"x"`, `[]`}
	if wildcard {
		good = append(good, `{"Type":1024}`)
	} else {
		bad = append(bad, `{"Type":1024}`)
	}
	return oneOf(def, good, bad, []string{`{"Type":10,"Data":1}`, `{"Type":1024,"Data":"x"}`, `{"Type":13,"Data":""}`})
}

// kvNode is a set of key-values {a: 1} with another key that may be added
func kvNode(wildcard bool) node {
	return object{fields: []field{{"a", value(`{"Type":10,"Data":"1"}`, wildcard), no, false}, {"b c/", value(`{"Type":13,"Data":"x"}`, wildcard), no, true}}}
}

func spec(def node, prop node, props verdict, state verdict) node {
	return object{fields: []field{
		{"Spec", object{fields: []field{{"DBDefinition", def, no, false}, {"Properties", prop, props, false}}}, no, false},
		{"State", leaf{{`{"LockID":"a","SessionID":"b","TimeTillExipre":1,"LocksHeldOrWaiting":1,"ID":"z","Deleting":false}`, state}, {`{}`, state}, {`7`, no}, {`"x"`, no}, {`[]`, no}}, yes, true},
	}}
}

func kvSpec(name string, wildcard bool) node {
	return object{fields: []field{{name, kvNode(wildcard), no, false}}}
}

func queryNode(depth int) node {
	q := object{fields: []field{
		{"Selection", selection{}, yes, true},
	}}
	if depth > 0 {
		sub := func() node {
			return list{queryNode(depth - 1)}
		}
		q.fields = append(q.fields, field{"And", sub(), yes, true}, field{"Or", sub(), yes, true})
	}
	return q
}

// list of one element
type list struct{ n node }

func (l list) docs(k int) []val {
	var out []val
	for _, v := range l.n.docs(k) {
		out = append(out, val{"[" + v.s + "]", v.ok})
	}
	if k > 0 {
		out = append(out, val{`[]`, yes}, val{`[null]`, no}, val{`{}`, no}, val{`7`, no}, val{`"x"`, no}, val{`[[]]`, no})
	}
	return out
}

// selection of a query: every variant with one deviation
type selection struct{}

func (selection) docs(k int) []val {
	cmp := leaf{{`"="`, yes}, {`"!="`, yes}, {`"<"`, yes}, {`"<="`, yes}, {`">"`, yes}, {`">="`, yes}, {`"=="`, no}, {`""`, no}, {`7`, no}}
	types := func(def string) leaf {
		return oneOf(def, []string{"1", "13"}, []string{"0", "14", "1023", "-1", `"1"`, "{}"}, nil)
	}
	vq := object{fields: []field{
		{"Value", value(`{"Type":10,"Data":"1"}`, true), no, false},
		{"Comparison", cmp, no, false},
		{"TypeRestrictions", object{fields: []field{{"MinDataType", oneOf("1", []string{"10"}, []string{"0", "14", "-1", `"1"`, "{}"}, nil), no, false}, {"MaxDataType", types("1024"), no, false}}}, no, false},
	}}
	kv := object{fields: []field{{"a", vq, no, false}, {"b", vq, no, true}}}
	count := oneOf("1", []string{"0", "5"}, []string{`"1"`, "1.5", "{}"}, []string{"-1"})
	sel := object{fields: []field{
		{"KeyValues", kv, no, false},
		{"IDs", leaf{{`["nobody"]`, yes}, {`[]`, yes}, {`["a","b"]`, yes}, {`[7]`, no}, {`"x"`, no}, {`{}`, no}}, yes, true},
		{"MinNumberOfKeyValues", count, yes, true},
		{"MaxNumberOfKeyValues", count, yes, true},
	}}
	out := sel.docs(k)
	for i := range out {
		out[i].ok = both(out[i].ok, judgeSelection(out[i].s))
	}
	return out
}

// judgeSelection settles what depends on more than one field.
func judgeSelection(s string) verdict {
	v := yes
	has := func(x string) bool { return strings.Contains(s, x) }
	// the wildcard has no order
	if has(`"Value":{"Type":1024`) && (has(`"Comparison":"<`) || has(`"Comparison":">`)) {
		v = any_
	}
	// a range of types from 10 to 1
	if has(`"MinDataType":10`) && has(`"MaxDataType":1}`) {
		v = any_
	}
	if has(`"MinNumberOfKeyValues":`) && has(`"MaxNumberOfKeyValues":`) {
		v = any_
	}
	if has(`"KeyValues":{}`) || !has(`"KeyValues"`) {
		v = any_
	}
	if has(`"KeyValues":null`) {
		v = any_
	}
	return v
}

func matchNode() node {
	mv := object{fields: []field{
		{"Value", value(`{"Type":10,"Data":"1"}`, true), no, false},
		{"TypeRestrictions", object{fields: []field{{"MinDataType", oneOf("1", []string{"10"}, []string{"0", "14", "-1", `"1"`}, nil), no, false}, {"MaxDataType", oneOf("1024", []string{"13"}, []string{"0", "14", `"1"`}, nil), no, false}}}, no, false},
	}}
	return object{fields: []field{
		{"KeyValues", object{fields: []field{{"a", mv, no, false}, {"b", mv, no, true}}}, no, false},
		{"MinNumberOfPermutationKeyValues", oneOf("1", []string{"0"}, []string{`"1"`, "1.5"}, []string{"-1"}), yes, true},
		{"MaxNumberOfPermutationKeyValues", oneOf("1", []string{"0"}, []string{`"1"`, "1.5"}, []string{"-1"}), yes, true},
	}}
}

// ------------------------------------------------------------------ routes

// place is a system with something in it.
type place struct {
	*system
	lock, session string
	ruleID, ovrID string
	item          string
}

type route struct {
	name   string
	host   string
	names  string // services
	method string
	path   func(p *place) string
	doc    func(p *place) node // nil: no body
	ok     int                 // status of success
	known  []int               // other documented statuses
	model  func() interface{}  // what is answered
	count  bool                // a new object appears
}

type validator interface{ Validate() error }

func routes() []*route {
	at := func(s string) func(*place) string { return func(*place) string { return s } }
	claim := func(p *place) node {
		return object{fields: []field{{"SessionID", oneOf(fmt.Sprintf("%q", p.session), []string{`"other"`}, append([]string{`""`}, notString...), nil), no, false}}}
	}
	limitDoc := func(*place) node {
		return object{fields: []field{{"Limit", limitNode("5"), no, false}}}
	}
	query := func(*place) node { return queryNode(1) }
	itemDoc := func(withPassed bool) func(p *place) node {
		return func(p *place) node {
			o := object{fields: []field{
				{"ItemID", oneOf(fmt.Sprintf("%q", p.item), []string{`"other"`}, append([]string{`""`}, notString...), nil), no, false},
				{"KeyValues", kvNode(false), no, false},
			}}
			if withPassed {
				o.fields = append(o.fields, field{"Passed", oneOf("true", []string{"false"}, []string{"7", `"true"`, "{}"}, nil), any_, false})
			}
			return o
		}
	}
	rule := func(s string) func(p *place) string {
		return func(p *place) string { return "/v1/limiter/rules/" + p.ruleID + s }
	}
	return []*route{
		// locker
		{name: "lock create", host: "locker", names: "locker", method: "POST", path: at("/v1/locks"), doc: func(*place) node {
			return spec(kvSpec("KeyValues", false), object{fields: []field{{"Timeout", durationNode("10000000000"), any_, false}}}, any_, no)
		}, ok: 200, known: []int{503}, model: func() any { return &v1locker.Lock{} }},
		{name: "lock query", host: "locker", names: "locker", method: "GET", path: at("/v1/locks"), doc: query, ok: 200, model: func() any { return &v1locker.Locks{} }},
		{name: "lock release", host: "locker", names: "locker", method: "DELETE", path: func(p *place) string { return "/v1/locks/" + p.lock }, doc: claim, ok: 204, known: []int{404, 409}},
		{name: "lock heartbeat", host: "locker", names: "locker", method: "POST", path: func(p *place) string { return "/v1/locks/" + p.lock + "/heartbeat" }, doc: claim, ok: 200, known: []int{404, 409}},
		// limiter
		{name: "rule create", host: "limiter", names: "limiter", method: "POST", path: at("/v1/limiter/rules"), doc: func(*place) node {
			return spec(kvSpec("GroupByKeyValues", true), object{fields: []field{{"Limit", limitNode("5"), no, false}}}, no, any_)
		}, ok: 201, known: []int{409}, model: func() any { return &v1limiter.Rule{} }},
		{name: "rule query", host: "limiter", names: "limiter", method: "GET", path: at("/v1/limiter/rules/query"), doc: query, ok: 200, model: func() any { return &v1limiter.Rules{} }},
		{name: "rule match", host: "limiter", names: "limiter", method: "GET", path: at("/v1/limiter/rules/match"), doc: func(*place) node { return matchNode() }, ok: 200, model: func() any { return &v1limiter.Rules{} }},
		{name: "rule get", host: "limiter", names: "limiter", method: "GET", path: rule(""), ok: 200, known: []int{404, 409}, model: func() any { return &v1limiter.Rule{} }},
		{name: "rule update", host: "limiter", names: "limiter", method: "PUT", path: rule(""), doc: limitDoc, ok: 200, known: []int{404, 409}},
		{name: "rule delete", host: "limiter", names: "limiter", method: "DELETE", path: rule(""), ok: 204, known: []int{404, 409}},
		{name: "override create", host: "limiter", names: "limiter", method: "POST", path: rule("/overrides"), doc: func(*place) node {
			return spec(kvSpec("GroupByKeyValues", true), object{fields: []field{{"Limit", limitNode("5"), no, false}}}, no, any_)
		}, ok: 201, known: []int{400, 404, 409}, model: func() any { return &v1limiter.Override{} }},
		{name: "override query", host: "limiter", names: "limiter", method: "GET", path: rule("/overrides/query"), doc: query, ok: 200, known: []int{404, 409}, model: func() any { return &v1limiter.Overrides{} }},
		{name: "override match", host: "limiter", names: "limiter", method: "GET", path: rule("/overrides/match"), doc: func(*place) node { return matchNode() }, ok: 200, known: []int{404, 409}, model: func() any { return &v1limiter.Overrides{} }},
		{name: "override get", host: "limiter", names: "limiter", method: "GET", path: func(p *place) string { return rule("/overrides/")(p) + p.ovrID }, ok: 200, known: []int{404, 409}, model: func() any { return &v1limiter.Override{} }},
		{name: "override update", host: "limiter", names: "limiter", method: "PUT", path: func(p *place) string { return rule("/overrides/")(p) + p.ovrID }, doc: limitDoc, ok: 200, known: []int{404, 409}},
		{name: "override delete", host: "limiter", names: "limiter", method: "DELETE", path: func(p *place) string { return rule("/overrides/")(p) + p.ovrID }, ok: 204, known: []int{404, 409}},
		{name: "counter update", host: "limiter", names: "locker limiter", method: "PUT", path: at("/v1/limiter/counters"), doc: counterDoc, ok: 200, known: []int{409}},
		{name: "counter query", host: "limiter", names: "limiter", method: "GET", path: at("/v1/limiter/counters/query"), doc: query, ok: 200, model: func() any { return &v1limiter.Counters{} }},
		{name: "counter set", host: "limiter", names: "limiter", method: "PUT", path: at("/v1/limiter/counters/set"), doc: counterDoc, ok: 200},
		// willow
		{name: "queue create", host: "willow", names: "locker limiter willow", method: "POST", path: at("/v1/queues"), doc: func(*place) node {
			return spec(object{fields: []field{{"Name", oneOf(`"new"`, []string{`"a b"`, `"é"`, `"x?y#z%"`, `"q"`}, append([]string{`""`}, notString...), []string{`"a/b"`, `"."`, `".."`}), no, false}}},
				object{fields: []field{{"MaxItems", limitNode("5"), no, false}}}, any_, no)
		}, ok: 201, known: []int{409}},
		{name: "queue list", host: "willow", names: "locker limiter willow", method: "GET", path: at("/v1/queues"), ok: 200, model: func() any { return &v1willow.Queues{} }},
		{name: "queue get", host: "willow", names: "locker limiter willow", method: "GET", path: at("/v1/queues/q"), ok: 200, known: []int{404, 409}, model: func() any { return &v1willow.Queue{} }},
		{name: "queue update", host: "willow", names: "locker limiter willow", method: "PUT", path: at("/v1/queues/q"), doc: func(*place) node {
			return object{fields: []field{{"MaxItems", limitNode("5"), no, false}}}
		}, ok: 200, known: []int{404, 409}},
		{name: "queue delete", host: "willow", names: "locker limiter willow", method: "DELETE", path: at("/v1/queues/q"), ok: 204, known: []int{409}},
		{name: "channel query", host: "willow", names: "locker limiter willow", method: "GET", path: at("/v1/queues/q/channels"), doc: query, ok: 200, known: []int{404, 409}, model: func() any { return &v1willow.Channels{} }},
		{name: "channel delete", host: "willow", names: "locker limiter willow", method: "DELETE", path: at("/v1/queues/q/channels"), doc: func(*place) node { return kvNode(false) }, ok: 204, known: []int{404, 409}},
		{name: "enqueue", host: "willow", names: "locker limiter willow", method: "POST", path: at("/v1/queues/q/channels/items"), doc: func(*place) node {
			return spec(kvSpec("KeyValues", false), object{fields: []field{
				{"Data", oneOf(`"ZGF0YQ=="`, nil, append([]string{`""`, `"*"`}, `7`, `true`, `{}`), nil), no, false},
				{"Updateable", oneOf("false", []string{"true"}, []string{"7", `"true"`, "{}"}, nil), no, false},
				{"RetryAttempts", oneOf("1", []string{"0", "18446744073709551615"}, []string{"-1", `"1"`, "1.5", "18446744073709551616"}, nil), no, false},
				{"RetryPosition", oneOf(`"front"`, []string{`"back"`}, []string{`""`, `"middle"`, `7`}, nil), no, false},
				{"TimeoutDuration", durationNode("10000000000"), no, false},
			}}, no, no)
		}, ok: 201, known: []int{404, 409}},
		{name: "dequeue", host: "willow", names: "locker limiter willow", method: "GET", path: at("/v1/queues/q/channels/items"), doc: query, ok: 200, known: []int{404, 409, 503}, model: func() any { return &v1willow.Item{} }},
		{name: "ack", host: "willow", names: "locker limiter willow", method: "POST", path: at("/v1/queues/q/channels/items/ack"), doc: itemDoc(true), ok: 200, known: []int{404, 409}},
		{name: "heartbeat", host: "willow", names: "locker limiter willow", method: "POST", path: at("/v1/queues/q/channels/items/heartbeat"), doc: itemDoc(false), ok: 200, known: []int{404, 409}},
	}
}

func counterDoc(*place) node {
	return spec(kvSpec("KeyValues", false), object{fields: []field{{"Counters", oneOf("1", []string{"-1", "2"}, notNumber, []string{"0", "1e3", "9223372036854775807", "-9223372036854775808"}), no, false}}}, no, any_)
}

// ------------------------------------------------------------------ a populated system

const kvA = `{"a":{"Type":10,"Data":"1"}}`
const kvB = `{"z":{"Type":13,"Data":"1"}}`

func populated(names string) *place {
	p := &place{system: newSystem(names)}
	want := func(a answer, status int, into any) {
		if a.status != status {
			hx.FailH("a valid request is refused while setting up", "%d %s", a.status, a.body)
		}
		if into != nil {
			if err := one(a.body, into); err != nil {
				hx.FailH("an answer cannot be decoded while setting up", "%v: %s", err, a.body)
			}
		}
	}
	if strings.Contains(names, "willow") {
		want(p.do("willow", "POST", "/v1/queues", `{"Spec":{"DBDefinition":{"Name":"q"},"Properties":{"MaxItems":100}}}`), 201, nil)
		for i := 0; i < 2; i++ {
			want(p.do("willow", "POST", "/v1/queues/q/channels/items", `{"Spec":{"DBDefinition":{"KeyValues":`+kvA+`},"Properties":{"Data":"ZGF0YQ==","Updateable":false,"RetryAttempts":0,"RetryPosition":"front","TimeoutDuration":1000000000000}}}`), 201, nil)
		}
		it := &v1willow.Item{}
		want(p.do("willow", "GET", "/v1/queues/q/channels/items", `{}`), 200, it)
		p.item = it.State.ID
		return p
	}
	if strings.Contains(names, "limiter") {
		r := &v1limiter.Rule{}
		want(p.do("limiter", "POST", "/v1/limiter/rules", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":1024}}},"Properties":{"Limit":100}}}`), 201, r)
		p.ruleID = r.State.ID
		o := &v1limiter.Override{}
		want(p.do("limiter", "POST", "/v1/limiter/rules/"+p.ruleID+"/overrides", `{"Spec":{"DBDefinition":{"GroupByKeyValues":{"a":{"Type":10,"Data":"2"}}},"Properties":{"Limit":7}}}`), 201, o)
		p.ovrID = o.State.ID
		want(p.do("limiter", "PUT", "/v1/limiter/counters/set", `{"Spec":{"DBDefinition":{"KeyValues":`+kvA+`},"Properties":{"Counters":3}}}`), 200, nil)
		return p
	}
	l := &v1locker.Lock{}
	want(p.do("locker", "POST", "/v1/locks", `{"Spec":{"DBDefinition":{"KeyValues":`+kvB+`},"Properties":{"Timeout":1000000000000}}}`), 200, l)
	p.lock, p.session = l.State.LockID, l.State.SessionID
	return p
}

// state is what the listing endpoints show.
func (p *place) state() string {
	var b strings.Builder
	get := func(host, path, body string) {
		a := p.do(host, "GET", path, body)
		if a.status != 200 {
			hx.FailH("a listing is refused: "+pattern(path), "%s: %d %s", path, a.status, a.body)
		}
		fmt.Fprintf(&b, "%s: %s\n", path, a.body)
	}
	if p.hosts["willow"] != nil {
		get("willow", "/v1/queues", "")
		get("willow", "/v1/queues/q/channels", "{}")
	}
	if p.hosts["limiter"] != nil {
		get("limiter", "/v1/limiter/rules/query", "{}")
		get("limiter", "/v1/limiter/counters/query", "{}")
		if p.ruleID != "" {
			get("limiter", "/v1/limiter/rules/"+p.ruleID+"/overrides/query", "{}")
		}
	}
	if p.hosts["locker"] != nil {
		get("locker", "/v1/locks", "{}")
	}
	return b.String()
}

type errorBody struct{ Message *string }

// judge checks one answer of a route.
func (rt *route) judge(a answer, sent string) {
	what := rt.name
	if a.status != rt.ok {
		known := a.status == 400 || a.status == 500
		for _, k := range rt.known {
			known = known || a.status == k
		}
		if !known {
			hx.FailH(fmt.Sprintf("an answer that is not documented: %s %d", what, a.status), "%s\n-> %d %s", sent, a.status, a.body)
		}
		// 404 of a queue and 503 are documented without a body
		if len(a.body) == 0 && (a.status == 503 || a.status == 404 && rt.host == "willow") {
			return
		}
		e := &errorBody{}
		if err := one(a.body, e); err != nil || e.Message == nil || *e.Message == "" {
			hx.FailH(fmt.Sprintf("an error without a message that can be decoded: %s %d", what, a.status), "%s\n-> %d %s", sent, a.status, a.body)
		}
		return
	}
	if rt.model == nil {
		if len(a.body) != 0 {
			hx.FailH("a body where none is documented: "+what, "%s\n-> %d %s", sent, a.status, a.body)
		}
		return
	}
	m := rt.model()
	if err := one(a.body, m); err != nil {
		hx.FailH("an answer cannot be decoded: "+what, "%s\n-> %d %s: %v", sent, a.status, a.body, err)
	}
	var err error
	switch m := m.(type) {
	case *v1locker.Lock:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1locker.Locks:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1limiter.Rule:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1limiter.Rules:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1limiter.Override:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1limiter.Overrides:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1limiter.Counters:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1willow.Queue:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1willow.Queues:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1willow.Channels:
		if e := m.Validate(); e != nil {
			err = e
		}
	case *v1willow.Item:
		if e := m.Validate(); e != nil {
			err = e
		}
	}
	if err != nil {
		hx.FailH("an answer is not valid: "+what, "%s\n-> %d %s: %v", sent, a.status, a.body, err)
	}
}

// send with a client that goes away after a while
func (p *place) send(rt *route, path, body string, h http.Header) answer {
	ctx, cancel := vctx.WithTimeout(vctx.Background(), 3*time.Second)
	defer cancel()
	return p.call(ctx, rt.host, rt.method, path, []byte(body), h)
}

func bodies(rt *route, p *place, k int) []val {
	l := rt.doc(p).docs(k)
	def := l[0].s
	// every prefix is not a document
	for i := 0; i < len(def); i++ {
		l = append(l, val{def[:i], no})
	}
	l = append(l, val{"null", any_}, val{"x" + def, no}, val{def[:len(def)/2] + "\x00" + def[len(def)/2:], no}, val{def + def, any_}, val{def + "x", any_}, val{" \n" + def, yes})
	if rt.name != "lock release" && rt.name != "lock heartbeat" {
		l = append(l, val{"\xff", no})
	}
	return l
}

func init() {
	for _, rt := range routes() {
		rt := rt
		if rt.doc != nil {
			s := hx.Seq("P20", "web/body/"+rt.name, func() {
				hx.Reset()
				vs.Calm(true)
				p := populated(rt.names)
				l := bodies(rt, p, hx.Pick(1, 2))
				i := vs.Choose(len(l))
				v := l[i]
				before := p.state()
				a := p.send(rt, rt.path(p), v.s, plain)
				rt.judge(a, v.s)
				switch {
				case a.status == 500:
					hx.FailH("an internal error: "+rt.name, "%s\n-> %d %s", v.s, a.status, a.body)
				case i == 0 && a.status != rt.ok:
					hx.FailH("a valid request is refused: "+rt.name, "%s\n-> %d %s", v.s, a.status, a.body)
				case v.ok == no && a.status != 400:
					hx.FailH("a malformed request is not refused: "+rt.name, "%s\n-> %d %s", v.s, a.status, a.body)
				case v.ok == yes && a.status == 400 && !(rt.name == "override create"):
					hx.FailH("a valid request is refused: "+rt.name, "%s\n-> %d %s", v.s, a.status, a.body)
				}
				if a.status >= 400 && a.status != 503 && !(rt.name == "dequeue" && a.status == 409) {
					if now := p.state(); now != before {
						hx.FailH("a refused request changes something: "+rt.name, "%s\n-> %d %s\nbefore:\n%s\nafter:\n%s", v.s, a.status, a.body, before, now)
					}
				} else {
					_ = p.state()
				}
			})
			s.Horizon = 100 * time.Hour
		}
		s := hx.Seq("P20", "web/line/"+rt.name, func() {
			hx.Reset()
			vs.Calm(true)
			p := populated(rt.names)
			path := rt.path(p)
			body := ""
			if rt.doc != nil {
				body = rt.doc(p).docs(0)[0].s
			}
			before := p.state()
			switch k := vs.Choose(4); k {
			case 0: // no content type
				a := p.send(rt, path, body, http.Header{})
				if a.status != 400 {
					hx.FailH("a request without a content type is not refused: "+rt.name, "%d %s", a.status, a.body)
				}
				rt.judge(a, body)
				if now := p.state(); now != before {
					hx.FailH("a refused request changes something: "+rt.name, "%s", a.body)
				}
			case 1: // nothing in the body is read, or all of it
				if rt.doc != nil {
					return
				}
				a := p.send(rt, path, "x", plain)
				rt.judge(a, "x")
				if a.status != rt.ok {
					hx.FailH("a valid request is refused: "+rt.name, "%d %s", a.status, a.body)
				}
			case 2: // something that does not exist
				q := path
				for _, id := range []string{p.lock, p.ruleID, p.ovrID, "/q"} {
					if id == "/q" {
						q = strings.Replace(q, "/v1/queues/q", "/v1/queues/nobody", 1)
					} else if id != "" {
						q = strings.Replace(q, id, "nobody", 1)
					}
				}
				if q == path {
					return
				}
				a := p.send(rt, q, body, plain)
				if a.status != 404 && a.status != 204 {
					hx.FailH("a request for something unknown succeeds: "+rt.name, "%s: %d %s", q, a.status, a.body)
				}
				rt.judge(a, body)
				if now := p.state(); now != before {
					hx.FailH("a request for something unknown changes something: "+rt.name, "%s\nbefore:\n%s\nafter:\n%s", a.body, before, now)
				}
			case 3: // with an id of the request
				h := plain.Clone()
				h.Set("X-Request-ID", "trace")
				a := p.send(rt, path, body, h)
				rt.judge(a, body)
				if a.status != rt.ok {
					hx.FailH("a valid request is refused: "+rt.name, "%d %s", a.status, a.body)
				}
			}
		})
		s.Horizon = 100 * time.Hour
	}
}
