package main

import (
	"fmt"
	"sort"
	"strings"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"
)

type selection = queryassociatedaction.Selection
type vq = queryassociatedaction.ValueQuery

// ---------------------------------------------------------------- the reference

func lessEV(a, b ev) bool {
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	switch x := a.Data.(type) {
	case int:
		return x < b.Data.(int)
	case int8:
		return x < b.Data.(int8)
	case string:
		return x < b.Data.(string)
	}
	return false
}

// holds: does the stored value satisfy the comparison (equality for !=)
func holds(q vq, e ev) bool {
	if e.Type < q.TypeRestrictions.MinDataType || e.Type > q.TypeRestrictions.MaxDataType {
		return false
	}
	if e.Type == datatypes.T_any {
		return true
	}
	if q.Value.Type == datatypes.T_any {
		return true
	}
	eq := e == q.Value
	switch q.Comparison {
	case v1common.Equals, v1common.NotEquals:
		return eq
	case v1common.LessThan:
		return lessEV(e, q.Value)
	case v1common.LessThanOrEqual:
		return lessEV(e, q.Value) || eq
	case v1common.GreaterThan:
		return lessEV(q.Value, e)
	case v1common.GreaterThanOrEqual:
		return lessEV(q.Value, e) || eq
	}
	panic("comparison")
}

// refSel: the item satisfies every positive comparison and does not carry the whole excluded combination
func refSel(s *selection, kv kvs, id string) bool {
	if len(s.IDs) > 0 {
		ok := false
		for _, i := range s.IDs {
			ok = ok || i == id
		}
		if !ok {
			return false
		}
	}
	if s.MinNumberOfKeyValues != nil && len(kv) < *s.MinNumberOfKeyValues || s.MaxNumberOfKeyValues != nil && len(kv) > *s.MaxNumberOfKeyValues {
		return false
	}
	excluded, nots := true, 0
	for k, q := range s.KeyValues {
		e, ok := kv[k]
		h := ok && holds(q, e)
		if q.Comparison == v1common.NotEquals {
			nots++
			excluded = excluded && h
		} else if !h {
			return false
		}
	}
	return nots == 0 || !excluded
}

func ref(q *query, kv kvs, id string) bool {
	if q.Selection == nil && len(q.And) == 0 && len(q.Or) == 0 {
		return true
	}
	base := q.Selection != nil || len(q.And) > 0
	if q.Selection != nil && !refSel(q.Selection, kv, id) {
		base = false
	}
	for _, a := range q.And {
		base = base && ref(a, kv, id)
	}
	for _, o := range q.Or {
		base = base || ref(o, kv, id)
	}
	return base
}

func hasIDs(q *query) bool {
	if q.Selection != nil && len(q.Selection.IDs) > 0 {
		return true
	}
	for _, x := range append(append([]*query{}, q.And...), q.Or...) {
		if hasIDs(x) {
			return true
		}
	}
	return false
}

func showSel(s *selection) string {
	var l []string
	if len(s.IDs) > 0 {
		l = append(l, fmt.Sprintf("%d ids", len(s.IDs)))
	}
	for _, k := range s.SortedKeys() {
		q := s.KeyValues[k]
		l = append(l, fmt.Sprintf("%s %s %s [%s..%s]", k, q.Comparison, show(kvs{"": q.Value}), q.TypeRestrictions.MinDataType.ToString(), q.TypeRestrictions.MaxDataType.ToString()))
	}
	if s.MinNumberOfKeyValues != nil {
		l = append(l, fmt.Sprint("min ", *s.MinNumberOfKeyValues))
	}
	if s.MaxNumberOfKeyValues != nil {
		l = append(l, fmt.Sprint("max ", *s.MaxNumberOfKeyValues))
	}
	return "(" + strings.Join(l, ", ") + ")"
}

func showQ(q *query) string {
	s := "{"
	if q.Selection != nil {
		s += showSel(q.Selection)
	}
	for _, a := range q.And {
		s += " AND" + showQ(a)
	}
	for _, o := range q.Or {
		s += " OR" + showQ(o)
	}
	if q.And != nil && len(q.And) == 0 {
		s += " AND[]"
	}
	if q.Or != nil && len(q.Or) == 0 {
		s += " OR[]"
	}
	return s + "}"
}

// ---------------------------------------------------------------- the enumerated queries

var (
	full    = rng(datatypes.MinDataType, datatypes.MaxDataType)
	noAny   = rng(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType)
	intOnly = rng(datatypes.T_int, datatypes.T_int)
	intAny  = rng(datatypes.T_int, datatypes.T_any)
	anyOnly = rng(datatypes.T_any, datatypes.T_any)
	toInt8  = rng(datatypes.T_uint8, datatypes.T_int8)
)

var cmps = []v1common.DataComparison{v1common.Equals, v1common.NotEquals, v1common.LessThan, v1common.LessThanOrEqual, v1common.GreaterThan, v1common.GreaterThanOrEqual}

func vqs(values []ev, rs []v1common.TypeRestrictions, cs []v1common.DataComparison) []vq {
	var l []vq
	for _, v := range values {
		for _, r := range rs {
			for _, c := range cs {
				if v.Type == datatypes.T_any && c != v1common.Equals && c != v1common.NotEquals {
					continue
				}
				l = append(l, vq{Value: v, TypeRestrictions: r, Comparison: c})
			}
		}
	}
	return l
}

func ip(i int) *int { return &i }

var bounds = []*int{nil, ip(0), ip(1), ip(2), ip(3)}

// eachBounds calls f with every valid pair of count bounds.
func eachBounds(f func(min, max *int)) {
	for _, a := range bounds {
		for _, b := range bounds {
			if a != nil && b != nil && *b < *a {
				continue
			}
			f(a, b)
		}
	}
}

// selections for a population
func selections(deep bool, ids []string) (simple, compose []*selection) {
	I, I8, S, A := datatypes.Int, datatypes.Int8, datatypes.String, datatypes.Any
	add := func(s *selection) { simple = append(simple, s) }
	comp := func(s *selection) { simple = append(simple, s); compose = append(compose, s) }
	skv := func(l ...any) queryassociatedaction.SelectionKeyValues {
		m := queryassociatedaction.SelectionKeyValues{}
		for i := 0; i < len(l); i += 2 {
			m[l[i].(string)] = l[i+1].(vq)
		}
		return m
	}
	// one key
	for _, k := range []string{"a", "b", "z"} {
		for _, q := range vqs([]ev{I(1), I(2), I8(1), S("1"), A()}, []v1common.TypeRestrictions{full, noAny, intOnly, intAny, anyOnly, toInt8}, cmps) {
			add(&selection{KeyValues: skv(k, q)})
		}
	}
	// counts
	eachBounds(func(min, max *int) {
		if min != nil || max != nil {
			add(&selection{MinNumberOfKeyValues: min, MaxNumberOfKeyValues: max})
		}
		for _, q := range vqs([]ev{I(1)}, []v1common.TypeRestrictions{full, intOnly}, []v1common.DataComparison{v1common.Equals, v1common.NotEquals, v1common.GreaterThanOrEqual}) {
			add(&selection{KeyValues: skv("a", q), MinNumberOfKeyValues: min, MaxNumberOfKeyValues: max})
		}
	})
	// two and three keys
	two := vqs([]ev{I(1), I(2), A()}, []v1common.TypeRestrictions{full, intOnly}, []v1common.DataComparison{v1common.Equals, v1common.NotEquals, v1common.LessThan, v1common.GreaterThanOrEqual})
	for _, x := range two {
		for _, y := range two {
			add(&selection{KeyValues: skv("a", x, "b", y)})
		}
	}
	three := vqs([]ev{I(1)}, []v1common.TypeRestrictions{full, noAny}, []v1common.DataComparison{v1common.Equals, v1common.NotEquals})
	for _, x := range three {
		for _, y := range three {
			for _, z := range three {
				add(&selection{KeyValues: skv("a", x, "b", y, "c", z)})
			}
			add(&selection{KeyValues: skv("a", x, "b", y), MinNumberOfKeyValues: ip(2)})
			add(&selection{KeyValues: skv("a", x, "c", y), MaxNumberOfKeyValues: ip(2)})
		}
	}
	// identifiers
	for i, id := range ids {
		comp(&selection{IDs: []string{id}})
		add(&selection{IDs: []string{id, id}})
		add(&selection{IDs: []string{id, unknown}})
		for j := i + 1; j < len(ids); j++ {
			add(&selection{IDs: []string{id, ids[j]}})
		}
		for _, x := range three {
			add(&selection{IDs: []string{id}, KeyValues: skv("a", x)})
			for _, y := range three {
				add(&selection{IDs: []string{id}, KeyValues: skv("a", x, "b", y)})
			}
		}
		eachBounds(func(min, max *int) {
			add(&selection{IDs: []string{id}, MinNumberOfKeyValues: min, MaxNumberOfKeyValues: max})
		})
		if i == 1 {
			break
		}
	}
	add(&selection{IDs: []string{unknown}})
	// composition material
	e, n := v1common.Equals, v1common.NotEquals
	comp(&selection{KeyValues: skv("a", vq{I(1), e, full})})
	comp(&selection{KeyValues: skv("b", vq{I(1), e, noAny})})
	comp(&selection{KeyValues: skv("a", vq{A(), e, full}), MaxNumberOfKeyValues: ip(1)})
	comp(&selection{KeyValues: skv("a", vq{I(1), n, noAny})})
	comp(&selection{KeyValues: skv("a", vq{I(1), n, full}, "b", vq{I(1), n, full})})
	comp(&selection{MinNumberOfKeyValues: ip(2)})
	comp(&selection{KeyValues: skv("z", vq{A(), e, full})})
	if deep {
		comp(&selection{KeyValues: skv("b", vq{I(2), v1common.LessThan, full})})
		comp(&selection{KeyValues: skv("c", vq{S("x"), v1common.GreaterThanOrEqual, full})})
	}
	return
}

// eachQuery enumerates the query grammar.
func eachQuery(deep bool, ids []string, f func(q *query)) {
	simple, compose := selections(deep, ids)
	f(&query{})
	for _, s := range simple {
		f(&query{Selection: s})
	}
	// empty but present lists, as decoded from "And": []
	for i := 0; i < 3; i++ {
		q := &query{}
		if i != 1 {
			q.And = []*query{}
		}
		if i != 0 {
			q.Or = []*query{}
		}
		f(q)
		f(&query{Selection: compose[0], And: q.And, Or: q.Or})
	}
	var sub []*query
	for _, s := range compose {
		sub = append(sub, &query{Selection: s})
	}
	sub = append(sub, &query{})
	l := func(q ...*query) []*query { return q }
	for _, x := range sub {
		f(&query{And: l(x)})
		f(&query{Or: l(x)})
		for _, y := range sub {
			f(&query{And: l(x, y)})
			f(&query{Or: l(x, y)})
			f(&query{And: l(x), Or: l(y)})
			f(&query{Selection: x.Selection, And: l(y)})
			f(&query{Selection: x.Selection, Or: l(y)})
			f(&query{Selection: x.Selection, Or: l(&query{Or: l(y)})})
			f(&query{Selection: x.Selection, And: l(&query{Or: l(y)})})
			for _, z := range sub {
				f(&query{Selection: x.Selection, And: l(y), Or: l(z)})
				f(&query{Selection: x.Selection, And: l(y, z)})
				f(&query{Selection: x.Selection, Or: l(y, z)})
				f(&query{And: l(&query{Selection: x.Selection, Or: l(y)}, z)})
				f(&query{Or: l(&query{Selection: x.Selection, And: l(y)}, z)})
				if deep {
					f(&query{Or: l(&query{And: l(x, &query{Or: l(y, z)})})})
					f(&query{And: l(&query{Or: l(x, y)}, &query{Or: l(z)})})
				}
			}
		}
	}
}

func (w *world) queries(deep bool) {
	var ids []string
	var has []int
	for k := range w.m {
		has = append(has, k)
	}
	sort.Ints(has)
	for _, k := range has {
		ids = append(ids, w.m[k].id)
	}
	eachQuery(deep, ids, func(q *query) {
		if err := q.Validate(); err != nil {
			panic(fmt.Sprint("harness: invalid query ", showQ(q), " ", err))
		}
		want := map[int]bool{}
		for k, e := range w.m {
			if ref(q, w.sets[k], e.id) {
				want[k] = true
			}
		}
		what := "query " + showQ(q)
		run := func(f btreeassociated.BTreeAssociatedIterate) error { return w.t.QueryAction(q, f) }
		w.expect(what, want, run)
		if len(want) > 1 {
			if got := w.entries(what, 1, run); len(got) != 1 {
				hx.FailH("a stopped query", "%s: reported %d entries before the stop", what, len(got))
			}
		}
		if !hasIDs(q) {
			for _, s := range w.sets {
				if q.MatchTags(s) != ref(q, s, "") {
					hx.FailH("a query judges one entry's key-values differently", "%s: MatchTags(%s) = %v", what, show(s), q.MatchTags(s))
				}
			}
		}
	})
}

func (w *world) matches(deep bool) {
	I, I8, S, A := datatypes.Int, datatypes.Int8, datatypes.String, datatypes.Any
	vals := []querymatchaction.MatchValue{
		{Value: I(1), TypeRestrictions: full}, {Value: I(1), TypeRestrictions: intOnly}, {Value: I(2), TypeRestrictions: intAny}, {Value: A(), TypeRestrictions: full},
		{Value: A(), TypeRestrictions: noAny}, {Value: I8(1), TypeRestrictions: full}, {Value: S("x"), TypeRestrictions: full}, {Value: A(), TypeRestrictions: anyOnly}}
	var qs []querymatchaction.MatchKeyValues
	for i := range vals {
		for _, k := range []string{"a", "b", "c"} {
			qs = append(qs, querymatchaction.MatchKeyValues{k: vals[i]})
		}
		for j := range vals {
			qs = append(qs, querymatchaction.MatchKeyValues{"a": vals[i], "b": vals[j]}, querymatchaction.MatchKeyValues{"a": vals[i], "z": vals[j]})
			for l := range vals {
				if !deep && (l == 1 || l == 4) {
					continue
				}
				qs = append(qs, querymatchaction.MatchKeyValues{"a": vals[i], "b": vals[j], "c": vals[l]})
			}
			qs = append(qs, querymatchaction.MatchKeyValues{"a": vals[i], "b": vals[j], "c": vals[3], "z": vals[3]})
		}
	}
	check := func(m querymatchaction.MatchKeyValues, min, max *int) {
		q := &querymatchaction.MatchActionQuery{KeyValues: m, MinNumberOfPermutationKeyValues: min, MaxNumberOfPermutationKeyValues: max}
		what := "match"
		for _, k := range m.SortedKeys() {
			what += fmt.Sprintf(" %s [%s..%s]", show(kvs{k: m[k].Value}), m[k].TypeRestrictions.MinDataType.ToString(), m[k].TypeRestrictions.MaxDataType.ToString())
		}
		if min != nil {
			what += fmt.Sprint(" min ", *min)
		}
		if max != nil {
			what += fmt.Sprint(" max ", *max)
		}
		want := map[int]bool{}
		for k := range w.m {
			kv := w.sets[k]
			ok := (min == nil || len(kv) >= *min) && (max == nil || len(kv) <= *max)
			for x, e := range kv {
				mv, has := m[x]
				ok = ok && has && holds(vq{Value: mv.Value, Comparison: v1common.Equals, TypeRestrictions: mv.TypeRestrictions}, e)
			}
			if ok {
				want[k] = true
			}
		}
		run := func(f btreeassociated.BTreeAssociatedIterate) error { return w.t.MatchAction(q, f) }
		w.expect(what, want, run)
		if len(want) > 1 {
			if got := w.entries(what, 1, run); len(got) != 1 {
				hx.FailH("a stopped match", "%s: reported %d entries before the stop", what, len(got))
			}
		}
	}
	for i, m := range qs {
		check(m, nil, nil)
		if deep || i%5 == 0 {
			eachBounds(func(min, max *int) { check(m, min, max) })
		}
	}
	for _, s := range w.sets {
		want := map[int]bool{}
		for k := range w.m {
			ok := true
			for x, e := range w.sets[k] {
				v, has := s[x]
				ok = ok && has && (e == v || e.Type == datatypes.T_any)
			}
			if ok {
				want[k] = true
			}
		}
		w.expect("match of the key-values "+show(s), want, func(f btreeassociated.BTreeAssociatedIterate) error {
			return w.t.MatchAction(querymatchaction.KeyValuesToAnyMatchActionQuery(s), f)
		})
	}
}

func init() {
	I, I8, S, A := datatypes.Int, datatypes.Int8, datatypes.String, datatypes.Any
	sets := []kvs{
		one("a", I(1)), one("b", I(1)), {"a": I(1), "b": I(1)}, {"a": I(1), "b": I(2)}, {"a": I(2), "b": I(1)}, one("a", A()), {"a": A(), "b": I(1)}, one("a", I8(1)),
		{"a": I(1), "b": I(1), "c": S("x")}, one("a", S("1")),
	}
	more := append(sets[:len(sets):len(sets)], kvs{"a": I(1), "b": A(), "c": A()}, kvs{"a": I(2), "c": S("x")}, kvs{"b": A(), "c": I(1)})
	populate := func(sets []kvs) *world {
		w := mk(sets, nil)().(*world)
		// all subsets, and which of the others were created and removed again
		for k := range sets {
			c := vs.Choose(2)
			if c == 1 {
				w.Do(k)
			}
		}
		return w
	}
	long := func(s *hx.Scen) { s.MaxSteps, s.Horizon = 1<<50, 1<<60 }
	long(hx.Seq("P05", "asq/queries", func() {
		w := populate(sets[:hx.Pick(6, 10)])
		w.queries(hx.Thorough)
	}))
	long(hx.Seq("P05", "asq/matches", func() {
		w := populate(sets[:hx.Pick(7, 10)])
		w.matches(hx.Thorough)
	}))
	// every population reached by removing one entry of all (index nodes left by removals)
	long(hx.Seq("P05", "asq/after-removals", func() {
		w := mk(more, nil)().(*world)
		for k := range more {
			w.Do(k)
		}
		del := 4 * len(more) // the first delete operation
		x := vs.Choose(len(more))
		w.Do(del + x)
		if y := vs.Choose(len(more)); y != x {
			w.Do(del + y)
		}
		w.queries(false)
		w.matches(false)
	}))
}
