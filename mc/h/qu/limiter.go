package main

import (
	"fmt"
	"sort"
	"strings"

	apierrors "github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
	"github.com/DanLavine/willow/verifmc/vsync"
)

type kvs = datatypes.KeyValues

// limiter is a limiter service with the documented meaning of rules, overrides and counters.
type limiter struct {
	mu    vsync.Mutex
	o     vs.Obj
	rules []*rule
	ctrs  []*counter
	ids   int
	// number of calls of a method that will fail
	fail map[string]int
	// a running counter was refused, by key-values
	refused map[string]bool
}

func (*limiter) Opaque() {}

type rule struct {
	id    string
	group kvs
	limit int64
	ovr   []*ovr
}

type ovr struct {
	id    string
	group kvs
	limit int64
}

type counter struct {
	kv kvs
	n  int64
}

func show(kv kvs) string {
	var l []string
	for _, k := range kv.SortedKeys() {
		d := fmt.Sprint(kv[k].Data)
		if kv[k].Type == datatypes.T_any {
			d = "*"
		}
		l = append(l, fmt.Sprintf("%s:%d:%s", k, kv[k].Type, d))
	}
	return "{" + strings.Join(l, " ") + "}"
}

func same(a, b kvs) bool { return show(a) == show(b) }

// covers: every key of g is in c, with the same value or any for the wildcard.
func covers(g, c kvs) bool {
	for k, v := range g {
		x, ok := c[k]
		if !ok || v.Type != datatypes.T_any && v != x {
			return false
		}
	}
	return true
}

func copyKV(a map[string]datatypes.EncapsulatedValue) kvs {
	n := kvs{}
	for k, v := range a {
		n[k] = v
	}
	return n
}

var errLimiter = fmt.Errorf("limiter is not available")

// begin is the scheduling point of a request; it returns true when the request is to fail.
func (l *limiter) begin(method string) bool {
	l.mu.Lock()
	l.o.Write(0x51)
	if l.fail[method] > 0 {
		l.fail[method]--
		return true
	}
	return false
}

func (l *limiter) end() { l.mu.Unlock() }

// sum of the counters that agree with kv on the keys of g.
func (l *limiter) sum(g, kv kvs) int64 {
	t := int64(0)
	for _, c := range l.ctrs {
		ok := true
		for k := range g {
			if v, has := c.kv[k]; !has || v != kv[k] {
				ok = false
			}
		}
		if ok {
			t += c.n
		}
	}
	return t
}

func (l *limiter) admits(kv kvs, n int64) bool {
	for _, r := range l.rules {
		if !covers(r.group, kv) {
			continue
		}
		over := false
		for _, o := range r.ovr {
			if covers(o.group, kv) {
				over = true
				if o.limit != -1 && l.sum(o.group, kv)+n > o.limit {
					return false
				}
			}
		}
		if !over && r.limit != -1 && l.sum(r.group, kv)+n > r.limit {
			return false
		}
	}
	return true
}

func (l *limiter) value(kv kvs) int64 {
	for _, c := range l.ctrs {
		if same(c.kv, kv) {
			return c.n
		}
	}
	return 0
}

func (l *limiter) set(kv kvs, n int64) {
	for i, c := range l.ctrs {
		if same(c.kv, kv) {
			c.n = n
			if n <= 0 {
				l.ctrs = append(l.ctrs[:i:i], l.ctrs[i+1:]...)
			}
			return
		}
	}
	if n > 0 {
		l.ctrs = append(l.ctrs, &counter{kv, n})
	}
}

func (l *limiter) id(p string) string { l.ids++; return fmt.Sprint(p, l.ids) }

func (l *limiter) key() string {
	var s []string
	for _, r := range l.rules {
		s = append(s, fmt.Sprint("r", show(r.group), r.limit))
		for _, o := range r.ovr {
			s = append(s, fmt.Sprint("o", show(r.group), show(o.group), o.limit))
		}
	}
	for _, c := range l.ctrs {
		s = append(s, fmt.Sprint("c", show(c.kv), c.n))
	}
	for kv := range l.refused {
		s = append(s, "f"+kv)
	}
	for m, n := range l.fail {
		if n > 0 {
			s = append(s, fmt.Sprint("x", m, n))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// user administration, without scheduling points

func (l *limiter) rule(id string, group kvs, limit int64) {
	for _, r := range l.rules {
		if r.id == id {
			r.limit = limit
			return
		}
	}
	l.rules = append(l.rules, &rule{id: id, group: group, limit: limit})
}

func (l *limiter) drop(id string) {
	for i, r := range l.rules {
		if r.id == id {
			l.rules = append(l.rules[:i:i], l.rules[i+1:]...)
		}
	}
}

func (l *limiter) find(id string) *rule {
	for _, r := range l.rules {
		if r.id == id {
			return r
		}
	}
	return nil
}

func bad(what string, err *apierrors.ModelError) {
	if err != nil {
		hx.Fail("an invalid request for the limiter", "%s: %v", what, err)
	}
}

// ------------------------------------------------------------------ limiterclient.LimiterClient

func (l *limiter) Healthy() error { return nil }

func (l *limiter) CreateRule(vctx.Context, *v1limiter.Rule) (*v1limiter.Rule, error) {
	panic("not used")
}
func (l *limiter) GetRule(vctx.Context, string) (*v1limiter.Rule, error) { panic("not used") }
func (l *limiter) QueryRules(vctx.Context, *queryassociatedaction.AssociatedActionQuery) (v1limiter.Rules, error) {
	panic("not used")
}
func (l *limiter) UpdateRule(vctx.Context, string, *v1limiter.RuleProperties) error {
	panic("not used")
}
func (l *limiter) DeleteRule(vctx.Context, string) error { panic("not used") }
func (l *limiter) GetOverride(vctx.Context, string, string) (*v1limiter.Override, error) {
	panic("not used")
}

func matches(group kvs, m *querymatchaction.MatchActionQuery) bool {
	if n := m.MinNumberOfPermutationKeyValues; n != nil && len(group) < *n {
		return false
	}
	if n := m.MaxNumberOfPermutationKeyValues; n != nil && len(group) > *n {
		return false
	}
	for k, v := range group {
		x, ok := m.KeyValues[k]
		if !ok {
			return false
		}
		if v.Type < x.TypeRestrictions.MinDataType || v.Type > x.TypeRestrictions.MaxDataType {
			return false
		}
		if v.Type != datatypes.T_any && x.Value.Type != datatypes.T_any && v != x.Value {
			return false
		}
	}
	return true
}

func (l *limiter) MatchRules(_ vctx.Context, m *querymatchaction.MatchActionQuery) (v1limiter.Rules, error) {
	defer l.end()
	if l.begin("MatchRules") {
		return nil, errLimiter
	}
	bad("MatchRules", m.Validate())
	var out v1limiter.Rules
	for _, r := range l.rules {
		if matches(r.group, m) {
			n := r.limit
			out = append(out, &v1limiter.Rule{
				Spec: &v1limiter.RuleSpec{
					DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(copyKV(r.group))},
					Properties:   &v1limiter.RuleProperties{Limit: &n},
				},
				State: &v1limiter.RuleState{ID: r.id},
			})
		}
	}
	return out, nil
}

func override(o *ovr) *v1limiter.Override {
	n := o.limit
	return &v1limiter.Override{
		Spec: &v1limiter.OverrideSpec{
			DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(copyKV(o.group))},
			Properties:   &v1limiter.OverrideProperties{Limit: &n},
		},
		State: &v1limiter.OverrideState{ID: o.id},
	}
}

func (l *limiter) MatchOverrides(_ vctx.Context, id string, m *querymatchaction.MatchActionQuery) (v1limiter.Overrides, error) {
	defer l.end()
	if l.begin("MatchOverrides") {
		return nil, errLimiter
	}
	bad("MatchOverrides", m.Validate())
	var out v1limiter.Overrides
	if r := l.find(id); r != nil {
		for _, o := range r.ovr {
			if matches(o.group, m) {
				out = append(out, override(o))
			}
		}
	}
	return out, nil
}

func (l *limiter) CreateOverride(_ vctx.Context, id string, o *v1limiter.Override) (*v1limiter.Override, error) {
	defer l.end()
	if l.begin("CreateOverride") {
		return nil, errLimiter
	}
	bad("CreateOverride", o.ValidateSpecOnly())
	r := l.find(id)
	if r == nil {
		return nil, fmt.Errorf("rule not found")
	}
	g := copyKV(o.Spec.DBDefinition.GroupByKeyValues)
	for _, x := range r.ovr {
		if same(x.group, g) {
			return nil, fmt.Errorf("override exists")
		}
	}
	n := &ovr{id: l.id("o"), group: g, limit: *o.Spec.Properties.Limit}
	r.ovr = append(r.ovr, n)
	return override(n), nil
}

func (l *limiter) QueryOverrides(_ vctx.Context, id string, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Overrides, error) {
	defer l.end()
	if l.begin("QueryOverrides") {
		return nil, errLimiter
	}
	bad("QueryOverrides", q.Validate())
	var out v1limiter.Overrides
	if r := l.find(id); r != nil {
		for _, o := range r.ovr {
			if q.MatchTags(o.group) {
				out = append(out, override(o))
			}
		}
	}
	return out, nil
}

func (l *limiter) UpdateOverride(_ vctx.Context, id, oid string, p *v1limiter.OverrideProperties) error {
	defer l.end()
	if l.begin("UpdateOverride") {
		return errLimiter
	}
	bad("UpdateOverride", p.Validate())
	if r := l.find(id); r != nil {
		for _, o := range r.ovr {
			if o.id == oid {
				o.limit = *p.Limit
				return nil
			}
		}
	}
	return fmt.Errorf("override not found")
}

func (l *limiter) DeleteOverride(_ vctx.Context, id, oid string) error {
	defer l.end()
	if l.begin("DeleteOverride") {
		return errLimiter
	}
	if r := l.find(id); r != nil {
		for i, o := range r.ovr {
			if o.id == oid {
				r.ovr = append(r.ovr[:i:i], r.ovr[i+1:]...)
				return nil
			}
		}
	}
	return fmt.Errorf("override not found")
}

func (l *limiter) UpdateCounter(ctx vctx.Context, c *v1limiter.Counter) error {
	defer l.end()
	n := *c.Spec.Properties.Counters
	method := "Decrement"
	if n > 0 {
		method = "Increment"
	}
	if l.begin(method) {
		return errLimiter
	}
	bad("UpdateCounter", c.ValidateSpecOnly())
	kv := copyKV(c.Spec.DBDefinition.KeyValues)
	_, running := kv["_willow_running"]
	if n > 0 {
		if !l.admits(kv, n) {
			if running {
				l.refused[show(kv)] = true
			}
			return fmt.Errorf("limit reached")
		}
		if running {
			delete(l.refused, show(kv))
		}
		l.set(kv, l.value(kv)+n)
		return nil
	}
	if v := l.value(kv) + n; v >= 0 {
		l.set(kv, v)
	}
	return nil
}

func (l *limiter) QueryCounters(_ vctx.Context, q *queryassociatedaction.AssociatedActionQuery) (v1limiter.Counters, error) {
	defer l.end()
	if l.begin("QueryCounters") {
		return nil, errLimiter
	}
	if err := q.Validate(); err != nil {
		return nil, fmt.Errorf("invalid query: %v", err)
	}
	var out v1limiter.Counters
	for _, c := range l.ctrs {
		if q.MatchTags(c.kv) {
			n := c.n
			out = append(out, &v1limiter.Counter{
				Spec: &v1limiter.CounterSpec{
					DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: datatypes.TypedKeyValues(copyKV(c.kv))},
					Properties:   &v1limiter.CounteProperties{Counters: &n},
				},
				State: &v1limiter.CounterState{},
			})
		}
	}
	return out, nil
}

func (l *limiter) SetCounters(_ vctx.Context, c *v1limiter.Counter) error {
	defer l.end()
	if l.begin("SetCounters") {
		return errLimiter
	}
	bad("SetCounters", c.ValidateSpecOnly())
	l.set(copyKV(c.Spec.DBDefinition.KeyValues), *c.Spec.Properties.Counters)
	return nil
}
