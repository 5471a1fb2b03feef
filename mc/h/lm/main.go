// Limiter: explicit-state exploration of histories of rules, overrides and counters (P10, P12).
package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/DanLavine/willow/internal/limiter/counters"
	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/internal/limiter/rules"
	"github.com/DanLavine/willow/internal/middleware"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
	"go.uber.org/zap"
)

func main() { hx.Main() }

type (
	ev    = datatypes.EncapsulatedValue
	kvs   = datatypes.KeyValues
	query = queryassociatedaction.AssociatedActionQuery
)

func show(kv kvs) string {
	var l []string
	for _, k := range kv.SortedKeys() {
		v := kv[k]
		d := fmt.Sprint(v.Data)
		if v.Type == datatypes.T_any {
			d = "*"
		} else if v.Type == datatypes.T_string {
			d = fmt.Sprintf("%q", v.Data)
		}
		l = append(l, k+":"+d)
	}
	return "{" + strings.Join(l, " ") + "}"
}

func copyOf(a kvs) kvs {
	n := kvs{}
	for k, v := range a {
		n[k] = v
	}
	return n
}

func same(a, b kvs) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// covers: the group-by key-values select the counter: every key is present with the same value, or any for the wildcard
func covers(g, c kvs) bool {
	for k, v := range g {
		x, ok := c[k]
		if !ok || v.Type != datatypes.T_any && v != x {
			return false
		}
	}
	return true
}

func keysIn(a, b kvs) bool {
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ model

type movr struct {
	limit int64
	id    string
}

type mrule struct {
	limit int64
	id    string
	ovr   map[int]*movr // by index of the override's key-values
}

type model struct {
	rules    map[int]*mrule // by index of the rule's key-values
	counters map[int]int64
}

// config is the universe of one scenario.
type config struct {
	rules, ovrs, ctrs []kvs
	limits            []int64
	incs              []int64 // sizes of increments, decrements (negative)
	sets              []int64
	most              int64 // counters are not raised above this
	del               bool  // rules and overrides may be deleted
	upd               bool  // limits may be updated
	stale             bool  // operations with ids of deleted objects, unknown ids
}

// group sums the counters that agree with c on the keys of g.
func (m *model) group(cf *config, g, c kvs) int64 {
	t := int64(0)
	for i, n := range m.counters {
		x := cf.ctrs[i]
		ok := true
		for k := range g {
			if v, has := x[k]; !has || v != c[k] {
				ok = false
			}
		}
		if ok {
			t += n
		}
	}
	return t
}

// admits is the documented meaning: every applicable limit leaves room.
func (m *model) admits(cf *config, ci int, n int64) bool {
	c := cf.ctrs[ci]
	for ri, r := range m.rules {
		if !covers(cf.rules[ri], c) {
			continue
		}
		over := false
		for oi, o := range r.ovr {
			if covers(cf.ovrs[oi], c) {
				over = true
				if o.limit != -1 && m.group(cf, cf.ovrs[oi], c)+n > o.limit {
					return false
				}
			}
		}
		if !over && r.limit != -1 && m.group(cf, cf.rules[ri], c)+n > r.limit {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ the real limiter

type limiter struct {
	c    counters.CounterClient
	r    rules.RuleClient
	o    overrides.OverrideClient
	base vctx.Context
}

func newLimiter() *limiter {
	oc, _ := overrides.NewOverrideConstructor("memory")
	rc, _ := rules.NewRuleConstructor("memory")
	cc, _ := counters.NewCountersConstructor("memory")
	l := &limiter{}
	l.o = overrides.NewDefaultOverridesClientLocal(oc)
	l.r = rules.NewLocalRulesClient(rc, l.o)
	l.c = counters.NewCountersClientLocal(cc, l.r)
	l.base = vctx.WithValue(vctx.Background(), middleware.LoggerCtxKey, zap.NewNop())
	return l
}

func limit(n int64) *int64 { return &n }

func (l *limiter) createRule(kv kvs, n int64) (string, *errors.ServerError) {
	return l.r.CreateRule(l.base, &v1limiter.Rule{Spec: &v1limiter.RuleSpec{
		DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(copyOf(kv))},
		Properties:   &v1limiter.RuleProperties{Limit: limit(n)},
	}})
}

func (l *limiter) createOverride(rule string, kv kvs, n int64) (string, *errors.ServerError) {
	return l.r.CreateOverride(l.base, rule, &v1limiter.Override{Spec: &v1limiter.OverrideSpec{
		DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(copyOf(kv))},
		Properties:   &v1limiter.OverrideProperties{Limit: limit(n)},
	}})
}

func counter(kv kvs, n int64) *v1limiter.Counter {
	return &v1limiter.Counter{Spec: &v1limiter.CounterSpec{
		DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: datatypes.TypedKeyValues(copyOf(kv))},
		Properties:   &v1limiter.CounteProperties{Counters: limit(n)},
	}}
}

// update is what the counters endpoint does with a request.
func (l *limiter) update(ctx vctx.Context, lc lockerclient.LockerClient, kv kvs, n int64) *errors.ServerError {
	if n > 0 {
		return l.c.IncrementCounters(ctx, lc, counter(kv, n))
	}
	return l.c.DecrementCounters(ctx, counter(kv, n))
}

func everything() *query {
	return &query{}
}

func anyKV() v1common.TypeRestrictions {
	return v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
}

func has(key string) *query {
	return &query{Selection: &queryassociatedaction.Selection{KeyValues: queryassociatedaction.SelectionKeyValues{key: {Value: datatypes.Any(), Comparison: v1common.Equals, TypeRestrictions: anyKV()}}}}
}

// ------------------------------------------------------------------ histories

// free is a lock service without contention.
type free struct{ held int }

type freeLock struct {
	f    *free
	done chan struct{}
}

func (f *free) Healthy() error { return nil }
func (f *free) ObtainLock(ctx vctx.Context, r *v1locker.Lock, cb func(datatypes.KeyValues, error)) (lockerclient.Lock, error) {
	if err := r.ValidateSpecOnly(); err != nil {
		hx.FailH("an invalid lock was requested", "%v", err)
	}
	f.held++
	return &freeLock{f, vs.Make(make(chan struct{}))}, nil
}
func (l *freeLock) Done() <-chan struct{} { return l.done }
func (l *freeLock) Release(vctx.Context) error {
	l.f.held--
	vs.Close(l.done)
	return nil
}

type world struct {
	cf     *config
	l      *limiter
	m      *model
	issued map[string]bool
	dead   map[int]string    // last id of a deleted rule
	deadO  map[[2]int]string // last id of a deleted override
	act    []func()
}

func mk(cf *config) func() hx.World {
	return func() hx.World {
		return &world{cf: cf, l: newLimiter(), m: &model{rules: map[int]*mrule{}, counters: map[int]int64{}}, issued: map[string]bool{}, dead: map[int]string{}, deadO: map[[2]int]string{}}
	}
}

func (w *world) fresh(id, what string) {
	if id == "" || w.issued[id] {
		hx.FailH("an id is missing or reused", "%s: %q", what, id)
	}
	w.issued[id] = true
}

func refused(err *errors.ServerError, code int, what string) {
	if err == nil {
		hx.FailH("accepted: "+what, "%s was accepted", what)
	} else if err.StatusCode != code {
		hx.FailH("refused with another status: "+what, "%s: status %d, want %d (%v)", what, err.StatusCode, code, err)
	}
}

func accepted(err *errors.ServerError, what string) {
	if err != nil {
		hx.FailH("refused: "+what, "%s: %v (status %d)", what, err, err.StatusCode)
	}
}

func (w *world) Ops() []string {
	var l []string
	w.act = w.act[:0]
	add := func(name string, f func()) { l = append(l, name); w.act = append(w.act, f) }
	cf, m := w.cf, w.m
	for ri, kv := range cf.rules {
		ri, kv := ri, kv
		r := m.rules[ri]
		for _, n := range cf.limits {
			n := n
			if r == nil || n == cf.limits[0] {
				add(fmt.Sprintf("create rule %s limit %d", show(kv), n), func() {
					id, err := w.l.createRule(kv, n)
					if r != nil {
						refused(err, http.StatusConflict, "a duplicate rule")
						return
					}
					accepted(err, "create rule")
					w.fresh(id, "rule")
					m.rules[ri] = &mrule{limit: n, id: id, ovr: map[int]*movr{}}
				})
			}
			if cf.upd && r != nil && n != r.limit {
				add(fmt.Sprintf("update rule %s limit %d", show(kv), n), func() {
					accepted(w.l.r.UpdateRule(w.l.base, r.id, &v1limiter.RuleProperties{Limit: limit(n)}), "update rule")
					r.limit = n
				})
			}
		}
		if cf.del && r != nil {
			add("delete rule "+show(kv), func() {
				accepted(w.l.r.DeleteRule(w.l.base, r.id), "delete rule")
				delete(m.rules, ri)
				w.dead[ri] = r.id
			})
		}
		for oi, okv := range cf.ovrs {
			oi, okv := oi, okv
			name := fmt.Sprintf("%s of rule %s", show(okv), show(kv))
			if r == nil {
				continue
			}
			o := r.ovr[oi]
			for _, n := range cf.limits {
				n := n
				if n == cf.limits[0] || o == nil && keysIn(kv, okv) {
					add(fmt.Sprintf("create override %s limit %d", name, n), func() {
						id, err := w.l.createOverride(r.id, okv, n)
						if !keysIn(kv, okv) {
							refused(err, http.StatusBadRequest, "an override without the rule's keys")
							return
						}
						if o != nil {
							refused(err, http.StatusConflict, "a duplicate override")
							return
						}
						accepted(err, "create override")
						w.fresh(id, "override")
						r.ovr[oi] = &movr{limit: n, id: id}
					})
				}
				if cf.upd && o != nil && n != o.limit {
					add(fmt.Sprintf("update override %s limit %d", name, n), func() {
						accepted(w.l.r.UpdateOverride(w.l.base, r.id, o.id, &v1limiter.OverrideProperties{Limit: limit(n)}), "update override")
						o.limit = n
					})
				}
			}
			if cf.del && o != nil {
				add("delete override "+name, func() {
					accepted(w.l.r.DeleteOverride(w.l.base, r.id, o.id), "delete override")
					delete(r.ovr, oi)
					w.deadO[[2]int{ri, oi}] = o.id
				})
			}
		}
	}
	for ci, kv := range cf.ctrs {
		ci, kv := ci, kv
		for _, n := range cf.incs {
			n := n
			if n > 0 && m.counters[ci]+n > cf.most {
				continue
			}
			add(fmt.Sprintf("count %s %+d", show(kv), n), func() {
				ok := n <= 0 || m.admits(cf, ci, n)
				fl := &free{}
				ctx, cancel := vctx.WithCancel(w.l.base)
				err := w.l.update(ctx, fl, kv, n)
				cancel()
				if fl.held != 0 {
					hx.FailH("locks are still held after an increment", "%d", fl.held)
				}
				if !ok {
					refused(err, http.StatusConflict, "an increment over a limit")
					return
				}
				accepted(err, "an increment or decrement that every limit allows")
				cur, has := m.counters[ci]
				if n > 0 || has {
					cur += n
					if cur > 0 {
						m.counters[ci] = cur
					} else {
						delete(m.counters, ci)
					}
				}
			})
		}
		for _, n := range cf.sets {
			n := n
			add(fmt.Sprintf("set %s %d", show(kv), n), func() {
				accepted(w.l.c.SetCounter(w.l.base, counter(kv, n)), "set")
				if n > 0 {
					m.counters[ci] = n
				} else {
					delete(m.counters, ci)
				}
			})
		}
	}
	return l
}

func (w *world) Do(i int) { w.Ops(); w.act[i]() }

func (w *world) Key() string {
	live := map[string]string{}
	var l []string
	for ri, r := range w.m.rules {
		live[r.id] = fmt.Sprint("r", ri)
		l = append(l, fmt.Sprint("r", ri, "=", r.limit))
		for oi, o := range r.ovr {
			live[o.id] = fmt.Sprint("o", ri, ".", oi)
			l = append(l, fmt.Sprint("o", ri, ".", oi, "=", o.limit))
		}
	}
	for ci, n := range w.m.counters {
		l = append(l, fmt.Sprint("c", ci, "=", n))
	}
	sort.Strings(l)
	k := strings.Join(l, ",")
	// what the service itself holds (ids by role)
	k += hx.Dump(func(s string) string {
		if n, ok := live[s]; ok {
			return n
		}
		if w.issued[s] {
			return "dead"
		}
		if len(s) > 20 {
			return "id"
		}
		return s
	}, w.l.c, w.l.r, w.l.o)
	return k
}

func (w *world) ruleOf(r *v1limiter.Rule, what string) int {
	for ri := range w.cf.rules {
		if same(kvs(r.Spec.DBDefinition.GroupByKeyValues), w.cf.rules[ri]) {
			mr := w.m.rules[ri]
			if mr == nil {
				hx.FailH("a missing rule was returned", "%s: %s", what, show(w.cf.rules[ri]))
			}
			if r.State == nil || r.State.ID != mr.id || r.Spec.Properties.Limit == nil || *r.Spec.Properties.Limit != mr.limit {
				hx.FailH("a rule was returned with another id or limit", "%s: %s", what, show(w.cf.rules[ri]))
			}
			return ri
		}
	}
	hx.FailH("an unknown rule was returned", "%s: %s", what, show(kvs(r.Spec.DBDefinition.GroupByKeyValues)))
	return -1
}

func (w *world) ovrOf(ri int, o *v1limiter.Override, what string) int {
	for oi := range w.cf.ovrs {
		if same(kvs(o.Spec.DBDefinition.GroupByKeyValues), w.cf.ovrs[oi]) {
			mo := w.m.rules[ri].ovr[oi]
			if mo == nil {
				hx.FailH("a missing override was returned", "%s: %s", what, show(w.cf.ovrs[oi]))
			}
			if o.State == nil || o.State.ID != mo.id || o.Spec.Properties.Limit == nil || *o.Spec.Properties.Limit != mo.limit {
				hx.FailH("an override was returned with another id or limit", "%s: %s", what, show(w.cf.ovrs[oi]))
			}
			return oi
		}
	}
	hx.FailH("an unknown override was returned", "%s: %s", what, show(kvs(o.Spec.DBDefinition.GroupByKeyValues)))
	return -1
}

// set compares a returned list with the expected indices.
func set(what string, got []int, want map[int]bool) {
	seen := map[int]bool{}
	for _, g := range got {
		if seen[g] {
			hx.FailH("returned twice: "+what, "%s", what)
		}
		seen[g] = true
		if !want[g] {
			hx.FailH("returned what does not match: "+what, "%s: %d", what, g)
		}
	}
	if len(seen) != len(want) {
		hx.FailH("missing from the result: "+what, "%s: got %v, want %v", what, got, want)
	}
}

func (w *world) rulesOf(rs v1limiter.Rules, what string) []int {
	var l []int
	for _, r := range rs {
		l = append(l, w.ruleOf(r, what))
	}
	return l
}

func (w *world) ovrsOf(ri int, os v1limiter.Overrides, what string) []int {
	var l []int
	for _, o := range os {
		l = append(l, w.ovrOf(ri, o, what))
	}
	return l
}

func (w *world) Check() {
	cf, m, l := w.cf, w.m, w.l
	before := w.Key()
	// counters
	cs, err := l.c.QueryCounters(l.base, everything())
	accepted(err, "query counters")
	got := map[int]int64{}
	for _, c := range cs {
		found := false
		for ci := range cf.ctrs {
			if same(kvs(c.Spec.DBDefinition.KeyValues), cf.ctrs[ci]) {
				found = true
				if _, dup := got[ci]; dup {
					hx.FailH("a counter was returned twice", "%s", show(cf.ctrs[ci]))
				}
				got[ci] = *c.Spec.Properties.Counters
			}
		}
		if !found {
			hx.FailH("an unknown counter was returned", "%s", show(kvs(c.Spec.DBDefinition.KeyValues)))
		}
	}
	for ci := range cf.ctrs {
		n, ok := m.counters[ci]
		if g, has := got[ci]; has != ok || g != n {
			hx.FailH("a counter has another value", "%s: stored %v %d, expected %v %d", show(cf.ctrs[ci]), has, g, ok, n)
		}
	}
	// rules
	all := map[int]bool{}
	for ri := range m.rules {
		all[ri] = true
	}
	rs, err := l.r.QueryRules(l.base, everything())
	accepted(err, "query rules")
	set("query of all rules", w.rulesOf(rs, "query of all rules"), all)
	for _, k := range []string{"a", "b", "c"} {
		want := map[int]bool{}
		for ri := range m.rules {
			if _, ok := cf.rules[ri][k]; ok {
				want[ri] = true
			}
		}
		rs, err := l.r.QueryRules(l.base, has(k))
		accepted(err, "query rules")
		set("query of the rules with a key", w.rulesOf(rs, "query "+k), want)
	}
	for _, c := range cf.ctrs {
		want := map[int]bool{}
		for ri := range m.rules {
			if covers(cf.rules[ri], c) {
				want[ri] = true
			}
		}
		rs, err := l.r.MatchRules(l.base, querymatchaction.KeyValuesToAnyMatchActionQuery(c))
		accepted(err, "match rules")
		set("match of rules", w.rulesOf(rs, "match "+show(c)), want)
		if len(m.counters) == 0 {
			// the limits to enforce: complete unless one of them already refuses everything
			fl, err := l.r.FindLimits(l.base, c)
			accepted(err, "find limits")
			zero := false
			seen := map[int]bool{}
			for _, r := range fl {
				ri := w.ruleOf(r, "limits of "+show(c))
				if !want[ri] || seen[ri] {
					hx.FailH("a limit that does not apply", "%s for %s", show(cf.rules[ri]), show(c))
				}
				seen[ri] = true
				wo := map[int]bool{}
				oz := false
				for oi, o := range m.rules[ri].ovr {
					if covers(cf.ovrs[oi], c) {
						wo[oi] = true
					}
					_ = o
				}
				so := map[int]bool{}
				for _, o := range r.State.Overrides {
					oi := w.ovrOf(ri, o, "limits of "+show(c))
					if !wo[oi] || so[oi] {
						hx.FailH("an override that does not apply", "%s for %s", show(cf.ovrs[oi]), show(c))
					}
					so[oi] = true
					oz = oz || *o.Spec.Properties.Limit == 0
				}
				if !oz && len(so) != len(wo) {
					hx.FailH("an applicable override is missing", "rule %s for %s", show(cf.rules[ri]), show(c))
				}
				zero = zero || oz || len(wo) == 0 && *r.Spec.Properties.Limit == 0
			}
			if !zero && len(seen) != len(want) {
				hx.FailH("an applicable rule is missing", "for %s: %v of %v", show(c), seen, want)
			}
		}
	}
	for ri := range cf.rules {
		r := m.rules[ri]
		if r == nil {
			if id := w.dead[ri]; id != "" {
				w.missingRule(id)
			}
			continue
		}
		g, err := l.r.GetRule(l.base, r.id)
		accepted(err, "get rule")
		if w.ruleOf(g, "get rule") != ri {
			hx.FailH("get returned another rule", "%s", show(cf.rules[ri]))
		}
		all := map[int]bool{}
		for oi := range r.ovr {
			all[oi] = true
		}
		os, err := l.r.QueryOverrides(l.base, r.id, everything())
		accepted(err, "query overrides")
		set("query of all overrides", w.ovrsOf(ri, os, "query of all overrides"), all)
		for _, c := range cf.ctrs {
			want := map[int]bool{}
			for oi := range r.ovr {
				if covers(cf.ovrs[oi], c) {
					want[oi] = true
				}
			}
			os, err := l.r.MatchOverrides(l.base, r.id, querymatchaction.KeyValuesToAnyMatchActionQuery(c))
			accepted(err, "match overrides")
			set("match of overrides", w.ovrsOf(ri, os, "match "+show(c)), want)
		}
		for oi, o := range r.ovr {
			g, err := l.r.GetOverride(l.base, r.id, o.id)
			accepted(err, "get override")
			if w.ovrOf(ri, g, "get override") != oi {
				hx.FailH("get returned another override", "%s", show(cf.ovrs[oi]))
			}
			// an override is only known under its own rule
			for rj, r2 := range m.rules {
				if rj != ri {
					_, err := l.r.GetOverride(l.base, r2.id, o.id)
					refused(err, http.StatusNotFound, "get of an override under another rule")
				}
			}
		}
		if w.cf.stale {
			for oi := range cf.ovrs {
				if id := w.deadO[[2]int{ri, oi}]; id != "" && r.ovr[oi] == nil {
					w.missingOverride(r.id, id)
				}
			}
			w.missingOverride(r.id, "unknown")
			w.missingOverride(r.id, r.id)
		}
	}
	if w.cf.stale {
		w.missingRule("unknown")
		for _, id := range w.dead {
			// nothing of a deleted rule is left behind
			os, err := l.o.QueryOverrides(l.base, id, everything())
			accepted(err, "query of the overrides of a deleted rule")
			if len(os) != 0 {
				hx.FailH("a deleted rule left overrides behind", "%d", len(os))
			}
		}
	}
	if after := w.Key(); after != before {
		hx.FailH("a read or refused call changed the state", "before %s\nafter %s", before, after)
	}
}

func (w *world) missingRule(id string) {
	l := w.l
	_, err := l.r.GetRule(l.base, id)
	refused(err, http.StatusNotFound, "get of a missing rule")
	refused(l.r.UpdateRule(l.base, id, &v1limiter.RuleProperties{Limit: limit(1)}), http.StatusNotFound, "update of a missing rule")
	refused(l.r.DeleteRule(l.base, id), http.StatusNotFound, "delete of a missing rule")
	_, err = l.createOverride(id, w.cf.ctrs[0], 1)
	refused(err, http.StatusNotFound, "create of an override of a missing rule")
	_, err = l.r.QueryOverrides(l.base, id, everything())
	refused(err, http.StatusNotFound, "query of the overrides of a missing rule")
	_, err = l.r.MatchOverrides(l.base, id, querymatchaction.KeyValuesToAnyMatchActionQuery(w.cf.ctrs[0]))
	refused(err, http.StatusNotFound, "match of the overrides of a missing rule")
	w.missingOverride(id, "unknown")
	refused(l.r.DeleteOverride(l.base, id, "unknown"), http.StatusNotFound, "delete of an override of a missing rule")
}

func (w *world) missingOverride(rule, id string) {
	l := w.l
	_, err := l.r.GetOverride(l.base, rule, id)
	refused(err, http.StatusNotFound, "get of a missing override")
	refused(l.r.UpdateOverride(l.base, rule, id, &v1limiter.OverrideProperties{Limit: limit(1)}), http.StatusNotFound, "update of a missing override")
	// deleting it again is no error, and has no effect
	_ = l.r.DeleteOverride(l.base, rule, id)
}

func a(v ...any) kvs {
	kv := kvs{}
	for i := 0; i < len(v); i += 2 {
		switch x := v[i+1].(type) {
		case int:
			kv[v[i].(string)] = datatypes.Int(x)
		case string:
			if x == "*" {
				kv[v[i].(string)] = datatypes.Any()
			} else {
				kv[v[i].(string)] = datatypes.String(x)
			}
		}
	}
	return kv
}

func init() {
	ex := func(props, name string, q, t int, cf *config) *hx.Scen {
		if cf.most == 0 {
			cf.most = 3
		}
		return hx.Explicit(props, "lm/"+name, q, t, mk(cf))
	}
	D := 40
	// one rule, its limit and the counters of its groups
	ex("P10", "one-rule", 6, D, &config{
		rules:  []kvs{a("a", "*")},
		ctrs:   []kvs{a("a", 1), a("a", 2), a("a", 1, "b", 1), a("b", 1)},
		limits: []int64{-1, 0, 1, 2}, incs: []int64{1, -1}, sets: []int64{0, 3}, upd: true, del: true,
	})
	// increments and decrements of more than one
	ex("P10", "sizes", D, D, &config{
		rules:  []kvs{a("a", "*")},
		ctrs:   []kvs{a("a", 1), a("a", 1, "b", 1)},
		limits: []int64{-1, 0, 2, 3}, most: 5, incs: []int64{1, 2, 3, -1, -2, 0}, sets: []int64{-1, 5}, upd: true,
	})
	// several rules apply to one counter
	ex("P10", "two-rules", 5, 7, &config{
		rules:  []kvs{a("a", "*"), a("b", "*")},
		ctrs:   []kvs{a("a", 1, "b", 1), a("a", 1, "b", 2), a("a", 1)},
		limits: []int64{-1, 0, 1, 2}, incs: []int64{1, -1},
	})
	ex("P10", "nested-rules", 5, 7, &config{
		rules:  []kvs{a("a", "*"), a("a", "*", "b", "*"), a("a", 1)},
		ctrs:   []kvs{a("a", 1, "b", 1), a("a", 1, "b", 2), a("a", 2), a("a", "1")},
		limits: []int64{-1, 0, 1}, incs: []int64{1, -1}, del: true,
	})
	// overrides replace the rule's own limit
	ex("P10", "override", 5, 8, &config{
		rules:  []kvs{a("a", "*")},
		ovrs:   []kvs{a("a", 1), a("a", "*", "b", 1)},
		ctrs:   []kvs{a("a", 1), a("a", 1, "b", 1), a("a", 2, "b", 1), a("a", 2)},
		limits: []int64{-1, 0, 1, 2}, incs: []int64{1, -1}, upd: true, del: true,
	})
	ex("P10", "overrides-of-two-rules", 5, 7, &config{
		rules:  []kvs{a("a", "*"), a("b", "*")},
		ovrs:   []kvs{a("a", 1), a("a", 1, "b", 1)},
		ctrs:   []kvs{a("a", 1, "b", 1), a("a", 1), a("b", 1)},
		limits: []int64{-1, 0, 1}, incs: []int64{1}, sets: []int64{2},
	})
	// storage of rules and overrides
	ex("P12", "rules", D, D, &config{
		rules:  []kvs{a("a", "*"), a("a", 1), a("a", "1"), a("a", "*", "b", "*"), a("b", 1)},
		ctrs:   []kvs{a("a", 1), a("a", "1", "b", 1), a("b", 1), a("c", 1)},
		limits: []int64{0, 5}, upd: true, del: true, stale: true,
	})
	ex("P12", "overrides", 6, D, &config{
		rules:  []kvs{a("a", "*"), a("b", "*")},
		ovrs:   []kvs{a("a", 1), a("a", "*", "b", 1), a("a", "1", "b", "*")},
		ctrs:   []kvs{a("a", 1), a("a", "1", "b", 1), a("b", 1)},
		limits: []int64{0, 5}, upd: true, del: true, stale: true,
	})
	ex("P12", "typed-rules", D, D, &config{
		rules:  []kvs{a("a", 1), a("a", "1")},
		ovrs:   []kvs{a("a", 1), a("a", "*"), a("b", 1)},
		ctrs:   []kvs{a("a", 1), a("a", "1"), a("a", 1, "b", 1)},
		limits: []int64{-1, 7}, upd: true, del: true, stale: true,
	})
}
