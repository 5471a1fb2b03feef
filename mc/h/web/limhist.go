package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// Histories of the limiter's endpoints, through the client library: rules, overrides and counters against a model
// that is written from the documentation alone.

type movr struct {
	id    string
	limit int64
}

type mrule struct {
	id    string
	limit int64
	ovr   map[int]*movr
}

type mworld struct {
	*system
	rules    map[int]*mrule
	counters map[int]int64
	deadRule string
	deadOvr  [2]string
	ids      map[string]bool
	history  []string
}

var (
	mRules = []kvs{{"a": datatypes.Any()}, {"a": datatypes.Any(), "b": datatypes.Any()}}
	mOvrs  = []kvs{{"a": datatypes.String("x/?#% \"")}, {"a": datatypes.Int(1), "b": datatypes.Int(2)}}
	mCtrs  = []kvs{{"a": datatypes.String("x/?#% \"")}, {"a": datatypes.Int(1), "b": datatypes.Int(2)}, {"b": datatypes.Int(2)}}
	mQuery = []struct {
		name string
		q    *queryassociatedaction.AssociatedActionQuery
		want func(kvs) bool
	}{
		{"all", &queryassociatedaction.AssociatedActionQuery{}, func(kvs) bool { return true }},
	}
)

func (w *mworld) fail(key, f string, a ...any) {
	hx.FailH(key, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(w.history, "\n  "))
}

func applies(g, c kvs) bool {
	for k, v := range g {
		if x, ok := c[k]; !ok || v.Type != datatypes.T_any && v != x {
			return false
		}
	}
	return true
}

func covered(g, o kvs) bool {
	for k := range g {
		if _, ok := o[k]; !ok {
			return false
		}
	}
	return true
}

func (w *mworld) count(g, c kvs) int64 {
	t := int64(0)
	for ci, n := range w.counters {
		ok := true
		for k := range g {
			if v, has := mCtrs[ci][k]; !has || v != c[k] {
				ok = false
			}
		}
		if ok {
			t += n
		}
	}
	return t
}

func (w *mworld) admits(ci int, n int64) bool {
	c := mCtrs[ci]
	for ri, r := range w.rules {
		if !applies(mRules[ri], c) {
			continue
		}
		over := false
		for oi, o := range r.ovr {
			if applies(mOvrs[oi], c) {
				over = true
				if o.limit != -1 && w.count(mOvrs[oi], c)+n > o.limit {
					return false
				}
			}
		}
		if !over && r.limit != -1 && w.count(mRules[ri], c)+n > r.limit {
			return false
		}
	}
	return true
}

// refused: the client reports the service's refusal.
func (w *mworld) refused(what string, err error, status int) {
	if err == nil {
		w.fail("not refused: "+what, "the client reports success, the service answered %d", w.last.status)
	}
	if w.last.status != status {
		w.fail("refused with another status: "+what, "%d %s, expected %d", w.last.status, w.last.body, status)
	}
	if e, ok := err.(*errors.Error); !ok || e.Message == "" {
		w.fail("the client does not report the service's message: "+what, "%T %v", err, err)
	}
}

func (w *mworld) ok(what string, err error) {
	if err != nil {
		w.fail("refused: "+what, "%v (the service answered %d %s)", err, w.last.status, w.last.body)
	}
}

func mrule_(kv kvs, n int64) *v1limiter.Rule {
	return &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: kv}, Properties: &v1limiter.RuleProperties{Limit: &n}}}
}

func movr_(kv kvs, n int64) *v1limiter.Override {
	return &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: kv}, Properties: &v1limiter.OverrideProperties{Limit: &n}}}
}

func mctr_(kv kvs, n int64) *v1limiter.Counter {
	return &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: kv}, Properties: &v1limiter.CounteProperties{Counters: &n}}}
}

func (w *mworld) freshID(id string) {
	if id == "" || w.ids[id] {
		w.fail("an id is used twice", "%q", id)
	}
	w.ids[id] = true
}

func (w *mworld) doCreateRule(ri int, n int64) {
	ctx := vctx.Background()
	r, err := w.limiter.CreateRule(ctx, mrule_(mRules[ri], n))
	if w.rules[ri] != nil {
		w.refused("a duplicate rule", err, 409)
		return
	}
	w.ok("create rule", err)
	if fmt.Sprint(r.Spec.DBDefinition.GroupByKeyValues) != fmt.Sprint(mRules[ri]) || *r.Spec.Properties.Limit != n {
		w.fail("a created rule is answered with another one", "%s", w.last.body)
	}
	w.freshID(r.State.ID)
	w.rules[ri] = &mrule{r.State.ID, n, map[int]*movr{}}
}

func (w *mworld) doCreateOverride(ri, oi int, n int64) {
	r := w.rules[ri]
	o, err := w.limiter.CreateOverride(vctx.Background(), r.id, movr_(mOvrs[oi], n))
	if !covered(mRules[ri], mOvrs[oi]) {
		w.refused("an override without the rule's keys", err, 400)
		return
	}
	if r.ovr[oi] != nil {
		w.refused("a duplicate override", err, 409)
		return
	}
	w.ok("create override", err)
	if fmt.Sprint(o.Spec.DBDefinition.GroupByKeyValues) != fmt.Sprint(mOvrs[oi]) || *o.Spec.Properties.Limit != n {
		w.fail("a created override is answered with another one", "%s", w.last.body)
	}
	w.freshID(o.State.ID)
	r.ovr[oi] = &movr{o.State.ID, n}
}

func (w *mworld) step() {
	type op struct {
		name string
		f    func()
	}
	var ops []op
	add := func(f func(), name string, a ...any) { ops = append(ops, op{fmt.Sprintf(name, a...), f}) }
	ctx := vctx.Background()
	for ri := range mRules {
		ri := ri
		r := w.rules[ri]
		add(func() { w.doCreateRule(ri, 2) }, "create rule %d", ri)
		if r == nil {
			continue
		}
		n := 1 - r.limit // 2 -> -1 -> 2
		add(func() {
			w.ok("update rule", w.limiter.UpdateRule(ctx, r.id, &v1limiter.RuleProperties{Limit: &n}))
			r.limit = n
		}, "update rule %d limit %d", ri, n)
		add(func() {
			w.ok("delete rule", w.limiter.DeleteRule(ctx, r.id))
			delete(w.rules, ri)
			w.deadRule = r.id
			for _, o := range r.ovr {
				w.deadOvr = [2]string{r.id, o.id}
			}
		}, "delete rule %d", ri)
		for oi := range mOvrs {
			oi := oi
			o := r.ovr[oi]
			add(func() { w.doCreateOverride(ri, oi, 0) }, "create override %d of rule %d", oi, ri)
			if o == nil {
				continue
			}
			n := 3 - o.limit
			add(func() {
				w.ok("update override", w.limiter.UpdateOverride(ctx, r.id, o.id, &v1limiter.OverrideProperties{Limit: &n}))
				o.limit = n
			}, "update override %d of rule %d limit %d", oi, ri, n)
			add(func() {
				w.ok("delete override", w.limiter.DeleteOverride(ctx, r.id, o.id))
				delete(r.ovr, oi)
				w.deadOvr = [2]string{r.id, o.id}
			}, "delete override %d of rule %d", oi, ri)
		}
	}
	for ci := range mCtrs {
		ci := ci
		for _, n := range []int64{1, -1} {
			n := n
			add(func() {
				ok := n <= 0 || w.admits(ci, n)
				err := w.limiter.UpdateCounter(ctx, mctr_(mCtrs[ci], n))
				if !ok {
					w.refused("an increment over a limit", err, 409)
					return
				}
				w.ok("an increment or decrement", err)
				if cur := w.counters[ci] + n; cur > 0 {
					w.counters[ci] = cur
				} else {
					delete(w.counters, ci)
				}
			}, "count %d %+d", ci, n)
		}
		for _, n := range []int64{0, 2} {
			n := n
			add(func() {
				w.ok("set", w.limiter.SetCounters(ctx, mctr_(mCtrs[ci], n)))
				delete(w.counters, ci)
				if n > 0 {
					w.counters[ci] = n
				}
			}, "set %d %d", ci, n)
		}
	}
	add(w.missing, "missing things")
	o := ops[vs.Choose(len(ops))]
	w.history = append(w.history, o.name)
	o.f()
	w.check()
}

func (w *mworld) missing() {
	ctx := vctx.Background()
	for _, id := range []string{"nobody", w.deadRule} {
		if id == "" {
			continue
		}
		_, err := w.limiter.GetRule(ctx, id)
		w.refused("get of a missing rule", err, 404)
		n := int64(1)
		w.refused("update of a missing rule", w.limiter.UpdateRule(ctx, id, &v1limiter.RuleProperties{Limit: &n}), 404)
		_ = w.limiter.DeleteRule(ctx, id)
		_, err = w.limiter.CreateOverride(ctx, id, movr_(mOvrs[0], 1))
		w.refused("an override of a missing rule", err, 404)
		_, err = w.limiter.QueryOverrides(ctx, id, mQuery[0].q)
		if err == nil {
			w.fail("not refused: query of the overrides of a missing rule", "%s", w.last.body)
		}
	}
	all := [][2]string{w.deadOvr}
	for _, r := range w.rules {
		all = append(all, [2]string{r.id, "nobody"})
	}
	for _, o := range all {
		if o[0] == "" {
			continue
		}
		if _, err := w.limiter.GetOverride(ctx, o[0], o[1]); err == nil || w.last.status != 404 {
			w.fail("not refused: get of a missing override", "%v %d", err, w.last.status)
		}
		n := int64(1)
		w.refused("update of a missing override", w.limiter.UpdateOverride(ctx, o[0], o[1], &v1limiter.OverrideProperties{Limit: &n}), 404)
		_ = w.limiter.DeleteOverride(ctx, o[0], o[1])
	}
}

func (w *mworld) compare(what string, got, want []string) {
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		w.fail("not what is stored: "+what, "got\n  %s\nwant\n  %s", strings.Join(got, "\n  "), strings.Join(want, "\n  "))
	}
}

func ruleLine(id string, kv any, n int64) string { return fmt.Sprintf("%s %v %d", id, kv, n) }

func (w *mworld) rulesLines(l v1limiter.Rules) []string {
	var s []string
	for _, r := range l {
		s = append(s, ruleLine(r.State.ID, r.Spec.DBDefinition.GroupByKeyValues, *r.Spec.Properties.Limit))
	}
	return s
}

func (w *mworld) ovrLines(l v1limiter.Overrides) []string {
	var s []string
	for _, r := range l {
		s = append(s, ruleLine(r.State.ID, r.Spec.DBDefinition.GroupByKeyValues, *r.Spec.Properties.Limit))
	}
	return s
}

func (w *mworld) check() {
	ctx := vctx.Background()
	all := mQuery[0].q
	rs, err := w.limiter.QueryRules(ctx, all)
	w.ok("query rules", err)
	var want []string
	for ri, r := range w.rules {
		want = append(want, ruleLine(r.id, mRules[ri], r.limit))
	}
	w.compare("query of the rules", w.rulesLines(rs), want)
	cs, err := w.limiter.QueryCounters(ctx, all)
	w.ok("query counters", err)
	var got []string
	for _, c := range cs {
		got = append(got, ruleLine("", c.Spec.DBDefinition.KeyValues, *c.Spec.Properties.Counters))
	}
	want = nil
	for ci, n := range w.counters {
		want = append(want, ruleLine("", mCtrs[ci], n))
	}
	w.compare("query of the counters", got, want)
	for _, c := range mCtrs {
		ms, err := w.limiter.MatchRules(ctx, querymatchaction.KeyValuesToAnyMatchActionQuery(c))
		w.ok("match rules", err)
		want = nil
		for ri, r := range w.rules {
			if applies(mRules[ri], c) {
				want = append(want, ruleLine(r.id, mRules[ri], r.limit))
			}
		}
		w.compare("match of the rules", w.rulesLines(ms), want)
	}
	for ri, r := range w.rules {
		g, err := w.limiter.GetRule(ctx, r.id)
		w.ok("get rule", err)
		w.compare("get of a rule", w.rulesLines(v1limiter.Rules{g}), []string{ruleLine(r.id, mRules[ri], r.limit)})
		os, err := w.limiter.QueryOverrides(ctx, r.id, all)
		w.ok("query overrides", err)
		want = nil
		for oi, o := range r.ovr {
			want = append(want, ruleLine(o.id, mOvrs[oi], o.limit))
			g, err := w.limiter.GetOverride(ctx, r.id, o.id)
			w.ok("get override", err)
			w.compare("get of an override", w.ovrLines(v1limiter.Overrides{g}), []string{ruleLine(o.id, mOvrs[oi], o.limit)})
		}
		w.compare("query of the overrides", w.ovrLines(os), want)
		for _, c := range mCtrs {
			ms, err := w.limiter.MatchOverrides(ctx, r.id, querymatchaction.KeyValuesToAnyMatchActionQuery(c))
			w.ok("match overrides", err)
			want = nil
			for oi, o := range r.ovr {
				if applies(mOvrs[oi], c) {
					want = append(want, ruleLine(o.id, mOvrs[oi], o.limit))
				}
			}
			w.compare("match of the overrides", w.ovrLines(ms), want)
		}
	}
	// nobody is left holding a lock
	if a := w.do("locker", "GET", "/v1/locks", "{}"); string(a.body) != "[]" {
		w.fail("the limiter keeps locks after its answer", "%s", a.body)
	}
}

func init() {
	for _, start := range []string{"empty", "rules", "full"} {
		start := start
		s := hx.Seq("P20", "web/history/limiter/"+start, func() {
			depth := hx.Pick(3, 4)
			hx.Reset()
			vs.Calm(true)
			w := &mworld{system: newSystem("locker limiter"), rules: map[int]*mrule{}, counters: map[int]int64{}, ids: map[string]bool{}}
			if start != "empty" {
				w.doCreateRule(0, 2)
				w.doCreateRule(1, 2)
			}
			if start == "full" {
				w.doCreateOverride(0, 0, 0)
				w.doCreateOverride(1, 1, 3)
				w.ok("set", w.limiter.SetCounters(vctx.Background(), mctr_(mCtrs[1], 2)))
				w.counters[1] = 2
			}
			w.check()
			for d := 0; d < depth; d++ {
				w.step()
			}
		})
		s.Horizon = 100 * time.Hour
	}
}
