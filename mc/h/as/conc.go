package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// cw is one concurrent run.
type cw struct {
	h     *hx.H
	t     btreeassociated.BTreeAssociated
	sets  []kvs
	gen   int
	id0   map[int]string // identifiers of the initial entries
	idOf  map[int]string // generation -> identifier
	seenI []struct {
		gen int
		id  string
	}
}

// res is the outcome of one call.
type res struct {
	err  string
	id   string
	made int
	saw  []int // generations seen
	keys []int // sets seen
}

func (r res) String() string {
	s := ""
	if r.err != "" {
		s = "error " + r.err
	}
	if r.id != "" {
		s += " id"
	}
	if r.made > 0 {
		s += " created"
	}
	if len(r.saw) > 0 {
		s += fmt.Sprint(" saw ", r.saw)
	}
	if s == "" {
		s = "nothing"
	}
	return s
}

type call struct {
	k, gen int
	s      string
}

func (c call) String() string { return fmt.Sprintf("%s #%d", c.s, c.gen) }

type op struct {
	name string
	k    int
}

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, btreeassociated.ErrorKeyValuesAlreadyExists):
		return "exists"
	case errors.Is(err, btreeassociated.ErrorTreeItemDestroying):
		return "item-destroying"
	case errors.Is(err, btreeassociated.ErrorTreeDestroying):
		return "tree-destroying"
	}
	return "?" + err.Error()
}

func (w *cw) idx(kv kvs) int {
	for i, s := range w.sets {
		if same(s, kv) {
			return i
		}
	}
	return -1
}

// what the reading calls select
var reads = map[string]func(kv kvs) bool{
	"query-all":   func(kvs) bool { return true },
	"query-has-a": func(kv kvs) bool { _, ok := kv["a"]; return ok },
	"query-not-a": func(kv kvs) bool { v, ok := kv["a"]; return !ok || v != datatypes.Int(1) },
	"match-ab": func(kv kvs) bool {
		for k := range kv {
			if k != "a" && k != "b" {
				return false
			}
		}
		return true
	},
}

func (w *cw) do(o op) {
	w.h.Sync()
	w.gen++
	set := w.sets[o.k]
	c := call{k: o.k, gen: w.gen, s: show(set)}
	if _, ok := reads[o.name]; ok || o.name == "destroy-tree" {
		c.s = ""
	}
	v := &val{o.k, w.gen}
	w.h.Do(o.name, c, func() any {
		var r res
		note := func(a assoc) {
			vs.Point("callback")
			x := a.Value().(*val)
			r.saw = append(r.saw, x.gen)
			r.keys = append(r.keys, x.k)
			if !same(a.KeyValues(), w.sets[x.k]) {
				hx.Fail("an entry has the key-values of another", "%s: %s, created as %s", o.name, show(a.KeyValues()), show(w.sets[x.k]))
			}
			w.h.Saw(a.AssociatedID())
			w.seenI = append(w.seenI, struct {
				gen int
				id  string
			}{x.gen, a.AssociatedID()})
		}
		create := func() any { vs.Point("callback"); r.made++; return v }
		decline := func() any { vs.Point("callback"); r.made++; return nil }
		can := func(ok bool) btreeassociated.BTreeAssociatedRemove {
			return func(a assoc) bool { note(a); return ok }
		}
		visit := func(a assoc) bool { note(a); return true }
		any1 := v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
		sel := func(k string, v ev, c v1common.DataComparison) *query {
			return &query{Selection: &queryassociatedaction.Selection{KeyValues: queryassociatedaction.SelectionKeyValues{k: {Value: v, Comparison: c, TypeRestrictions: any1}}}}
		}
		id := w.id0[o.k]
		if id == "" {
			id = unknown + fmt.Sprint(o.k)
		}
		var err error
		switch o.name {
		case "create":
			r.id, err = w.t.Create(set, create)
		case "create-declined":
			r.id, err = w.t.Create(set, decline)
		case "find-or-create":
			r.id, err = w.t.CreateOrFind(set, create, func(a assoc) { note(a) })
		case "find-or-create-declined":
			r.id, err = w.t.CreateOrFind(set, decline, func(a assoc) { note(a) })
		case "delete":
			err = w.t.Delete(set, can(true))
		case "delete-refused":
			err = w.t.Delete(set, can(false))
		case "delete-by-id":
			err = w.t.DeleteByAssociatedID(id, can(true))
		case "destroy-by-id":
			err = w.t.DestroyByAssociatedID(id, can(true))
		case "destroy-by-id-refused":
			err = w.t.DestroyByAssociatedID(id, can(false))
		case "destroy-tree":
			err = w.t.DestroyTree(can(true))
		case "exact":
			err = w.t.QueryAction(queryassociatedaction.KeyValuesToExactAssociatedActionQuery(set), visit)
		case "by-id":
			err = w.t.QueryAction(queryassociatedaction.StringToAssociatedActionQuery(id), visit)
		case "query-all":
			err = w.t.QueryAction(&query{}, visit)
		case "query-has-a":
			err = w.t.QueryAction(sel("a", datatypes.Any(), v1common.Equals), visit)
		case "query-not-a":
			err = w.t.QueryAction(sel("a", datatypes.Int(1), v1common.NotEquals), visit)
		case "match-ab":
			mv := querymatchaction.MatchValue{Value: datatypes.Any(), TypeRestrictions: any1}
			err = w.t.MatchAction(&querymatchaction.MatchActionQuery{KeyValues: querymatchaction.MatchKeyValues{"a": mv, "b": mv}}, visit)
		default:
			panic(o.name)
		}
		r.err = errName(err)
		w.h.Sync()
		if r.made == 1 && r.err == "" && (o.name == "create" || o.name == "find-or-create") {
			w.idOf[c.gen] = r.id
		}
		return r
	})
}

type cstate map[int]int // set -> generation

func (s cstate) key() string {
	var l []string
	for k, g := range s {
		l = append(l, fmt.Sprintf("%d:%d", k, g))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func overlaps(a, b *hx.Op) bool { return a.Inv < b.Ret && b.Inv < a.Ret }

func isRead(n string) bool { _, ok := reads[n]; return ok || n == "exact" || n == "by-id" }

func (w *cw) judge(init cstate, initIDs map[int]string) {
	h := w.h
	for g, id := range initIDs {
		w.idOf[g] = id
	}
	ids := map[string]bool{}
	for g, id := range w.idOf {
		if id == "" {
			hx.Fail("a created entry has no identifier", "#%d\n%s", g, h.History())
		}
		if ids[id] {
			hx.Fail("an identifier was issued twice", "%s", h.History())
		}
		ids[id] = true
	}
	for _, s := range w.seenI {
		if id, ok := w.idOf[s.gen]; ok && id != s.id {
			hx.Fail("an entry was seen with another identifier", "#%d\n%s", s.gen, h.History())
		}
	}
	for _, o := range h.Ops {
		r, c := o.Res.(res), o.Arg.(call)
		switch r.err {
		case "", "exists":
		case "item-destroying", "tree-destroying":
			ok := false
			for _, d := range h.Ops {
				if d == o || !overlaps(o, d) {
					continue
				}
				if d.Name == "destroy-tree" && r.err == "tree-destroying" || strings.HasPrefix(d.Name, "destroy-by-id") && d.Arg.(call).k == c.k && r.err == "item-destroying" {
					ok = true
				}
			}
			if !ok {
				hx.Fail("refused as destroying without a reason", "%s\n%s", o.Name, h.History())
			}
		default:
			hx.Fail("unexpected error", "%s: %s\n%s", o.Name, r.err, h.History())
		}
		if r.err != "" && (r.made > 0 || len(r.saw) > 0 || r.id != "") {
			hx.Fail("a refused call had an effect", "%s\n%s", o.Name, h.History())
		}
		if strings.HasPrefix(o.Name, "find-or-create") && r.err == "" && len(r.saw) == 1 && w.idOf[r.saw[0]] != r.id {
			hx.Fail("find-or-create returned another identifier", "%s\n%s", o.Name, h.History())
		}
	}
	var lin []*hx.Op
	for _, o := range h.Ops {
		if !isRead(o.Name) {
			lin = append(lin, o)
		}
	}
	for _, o := range h.Ops {
		if isRead(o.Name) && o.Res.(res).err == "" {
			w.judgeRead(init, o, lin)
		}
	}
	all := h.Ops
	h.Ops = lin
	ok := h.Linearizable(init, func(s any) string { return s.(cstate).key() }, func(s any, o *hx.Op) (any, bool) { return w.step(s.(cstate), o) })
	h.Ops = all
	if !ok {
		hx.Fail("not linearizable", "initial %v\n%s", init, h.History())
	}
}

func with(s cstate, k, g int) cstate {
	n := cstate{}
	for a, b := range s {
		n[a] = b
	}
	if g == 0 {
		delete(n, k)
	} else {
		n[k] = g
	}
	return n
}

func (w *cw) step(s cstate, o *hx.Op) (any, bool) {
	c, r := o.Arg.(call), o.Res.(res)
	if strings.HasSuffix(r.err, "destroying") {
		return s, true
	}
	old := s[c.k]
	saw := func(g int) bool { return len(r.saw) == 1 && r.saw[0] == g && r.made == 0 }
	none := len(r.saw) == 0
	switch o.Name {
	case "create", "create-declined":
		if old != 0 {
			return s, r.err == "exists" && none && r.made == 0
		}
		if r.err != "" || r.made != 1 || !none {
			return nil, false
		}
		if o.Name == "create" {
			return with(s, c.k, c.gen), true
		}
		return s, r.id == ""
	case "find-or-create", "find-or-create-declined":
		if r.err != "" {
			return nil, false
		}
		if old != 0 {
			return s, saw(old)
		}
		if r.made != 1 || !none {
			return nil, false
		}
		if o.Name == "find-or-create" {
			return with(s, c.k, c.gen), true
		}
		return s, true
	case "delete", "delete-refused", "delete-by-id", "destroy-by-id", "destroy-by-id-refused":
		if r.err != "" {
			return nil, false
		}
		if strings.Contains(o.Name, "-by-id") && (old == 0 || w.idOf[old] != w.id0[c.k]) {
			return s, none
		}
		if old == 0 {
			return s, none
		}
		if !saw(old) {
			return nil, false
		}
		if strings.HasSuffix(o.Name, "refused") {
			return s, true
		}
		return with(s, c.k, 0), true
	case "destroy-tree":
		if len(r.keys) != len(s) {
			return nil, false
		}
		seen := map[int]bool{}
		for i, k := range r.keys {
			if s[k] != r.saw[i] || seen[k] {
				return nil, false
			}
			seen[k] = true
		}
		return cstate{}, true
	}
	panic(o.Name)
}

// judgeRead: an entry whose presence no overlapping call can have changed is reported exactly when it is present; no
// entry twice; others may or may not be reported. An entry being destroyed may be left out.
func (w *cw) judgeRead(init cstate, t *hx.Op, lin []*hx.Op) {
	tc, r := t.Arg.(call), t.Res.(res)
	seen := map[int]int{}
	for i, k := range r.keys {
		if seen[r.saw[i]] != 0 {
			hx.Fail("a query reported an entry twice", "%s\n%s", t.Name, w.h.History())
		}
		seen[r.saw[i]] = 1
		ok := false
		switch t.Name {
		case "exact":
			ok = k == tc.k
		case "by-id":
			ok = w.idOf[r.saw[i]] == w.id0[tc.k]
		default:
			ok = reads[t.Name](w.sets[k])
		}
		if !ok {
			hx.Fail("a query reported an entry that does not match", "%s\n%s", t.Name, w.h.History())
		}
	}
	for k := range w.sets {
		selected := false
		switch t.Name {
		case "exact":
			selected = k == tc.k
		case "by-id":
			selected = k == tc.k && init[k] != 0
		default:
			selected = reads[t.Name](w.sets[k])
		}
		if !selected {
			continue
		}
		cur := map[int]bool{init[k]: true}
		removedBefore := false
		for _, o := range lin {
			if o.Inv > t.Ret {
				continue
			}
			oc, or := o.Arg.(call), o.Res.(res)
			if or.err != "" {
				continue
			}
			before := o.Ret < t.Inv
			gone := false
			switch o.Name {
			case "create", "find-or-create":
				if oc.k == k && or.made == 1 {
					cur[oc.gen] = true
				}
			case "delete", "delete-by-id", "destroy-by-id":
				gone = oc.k == k && len(or.saw) > 0
			case "destroy-tree":
				for _, x := range or.keys {
					gone = gone || x == k
				}
			case "destroy-by-id-refused":
				if oc.k == k && overlaps(o, t) {
					cur[0] = true
				}
			}
			if gone {
				cur[0] = true
				if before {
					removedBefore = true
					for _, g := range or.saw {
						delete(cur, g)
					}
				}
			}
		}
		_ = removedBefore
		for i, g := range r.saw {
			if r.keys[i] == k && !cur[g] {
				hx.Fail("a query reported a removed entry", "%s #%d\n%s", t.Name, g, w.h.History())
			}
		}
		if !cur[0] && len(cur) == 1 {
			for g := range cur {
				if seen[g] == 0 {
					hx.Fail("a query missed an entry", "%s %s\n%s", t.Name, show(w.sets[k]), w.h.History())
				}
			}
		}
	}
}

func conc(sets []kvs, build []int, threads ...[]op) {
	w := &cw{h: hx.New(), t: btreeassociated.NewThreadSafe(), sets: sets, id0: map[int]string{}, idOf: map[int]string{}}
	init := cstate{}
	initIDs := map[int]string{}
	for _, k := range build {
		w.gen++
		v := &val{k, w.gen}
		id, err := w.t.Create(sets[k], func() any { return v })
		if err != nil {
			hx.Fail("setup failed", "%v", err)
		}
		init[k] = v.gen
		w.id0[k] = id
		initIDs[v.gen] = id
	}
	for i, ops := range threads {
		ops := ops
		w.h.Go(fmt.Sprintf("t%d", i+1), func() {
			for _, o := range ops {
				w.do(o)
			}
		})
	}
	w.h.Wait()
	w.do(op{"query-all", 0})
	touched := map[int]bool{}
	for _, ops := range threads {
		for _, o := range ops {
			touched[o.k] = true
		}
	}
	for _, k := range build {
		touched[k] = true
	}
	var l []int
	for k := range touched {
		l = append(l, k)
	}
	sort.Ints(l)
	for _, k := range l {
		w.do(op{"exact", k})
		w.do(op{"delete-refused", k})
		w.do(op{"create", k})
	}
	w.do(op{"destroy-tree", 0})
	w.do(op{"query-all", 0})
	w.judge(init, initIDs)
}

var csets = []kvs{
	one("a", datatypes.Int(1)),
	one("b", datatypes.Int(1)),
	{"a": datatypes.Int(1), "b": datatypes.Int(1)},
	{"a": datatypes.Int(1), "b": datatypes.Int(2)},
	{"a": datatypes.Int(2), "b": datatypes.Int(1)},
}

var mutators = []string{"create", "create-declined", "find-or-create", "find-or-create-declined", "delete", "delete-refused", "delete-by-id", "destroy-by-id", "destroy-by-id-refused"}

func pick(l []op, from int) int { return from + vs.Choose(len(l)-from) }

func cross(names []string, ks ...int) []op {
	var l []op
	for _, n := range names {
		for _, k := range ks {
			l = append(l, op{n, k})
		}
	}
	return l
}

func init() {
	builds := [][]int{{}, {0}, {2}, {0, 2}, {0, 2, 3}}
	hx.Sched("P04", "asc/same-set", 2, 3, func() {
		b := [][]int{{}, {0}, {2}, {0, 2}}[vs.Choose(4)]
		ops := append(cross(mutators, 2), op{"exact", 2}, op{"by-id", 2})
		a := vs.Choose(len(ops))
		c := pick(ops, a)
		conc(csets, b, []op{ops[a]}, []op{ops[c]})
	})
	hx.Sched("P04", "asc/overlapping", 1, 2, func() {
		b := builds[vs.Choose(len(builds))]
		ops := cross([]string{"create", "create-declined", "find-or-create", "delete", "destroy-by-id"}, 0, 2, 3)
		a := vs.Choose(len(ops))
		c := pick(ops, a)
		conc(csets, b, []op{ops[a]}, []op{ops[c]})
	})
	hx.Sched("P04", "asc/readers", 1, 2, func() {
		b := builds[vs.Choose(len(builds))]
		ops := cross([]string{"create", "find-or-create-declined", "delete", "destroy-by-id", "destroy-by-id-refused"}, 0, 2)
		rs := []op{{"query-all", 0}, {"query-has-a", 0}, {"query-not-a", 0}, {"match-ab", 0}, {"exact", 2}, {"by-id", 2}}
		conc(csets, b, []op{ops[vs.Choose(len(ops))]}, []op{rs[vs.Choose(len(rs))]})
	})
	hx.Sched("P04", "asc/three", 1, 2, func() {
		b := [][]int{{}, {2}}[vs.Choose(2)]
		ops := cross([]string{"create", "create-declined", "find-or-create", "delete", "delete-by-id", "destroy-by-id"}, 2)
		a := vs.Choose(len(ops))
		c := pick(ops, a)
		d := pick(ops, c)
		conc(csets, b, []op{ops[a]}, []op{ops[c]}, []op{ops[d]})
	})
	hx.Sched("P04", "asc/destroy-tree", 2, 3, func() {
		b := [][]int{{}, {2}, {0, 2}}[vs.Choose(3)]
		ops := append(cross([]string{"create", "create-declined", "find-or-create", "find-or-create-declined", "delete", "delete-by-id", "destroy-by-id"}, 2), op{"destroy-tree", 0}, op{"query-has-a", 0}, op{"query-all", 0}, op{"match-ab", 0})
		conc(csets, b, []op{{"destroy-tree", 0}}, []op{ops[vs.Choose(len(ops))]})
	})
	hx.Sched("P04", "asc/sequences", 1, 2, func() {
		b := [][]int{{}, {2}}[vs.Choose(2)]
		ops := cross([]string{"create", "find-or-create", "delete", "delete-by-id"}, 2)
		p := func() []op { return []op{ops[vs.Choose(len(ops))], ops[vs.Choose(len(ops))]} }
		conc(csets, b, p(), p())
	})
}
