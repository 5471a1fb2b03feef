// Grouped (one-to-many) store: explicit-state exploration of operation histories and concurrent scenarios (P06).
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	otm "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"
)

type (
	ev    = datatypes.EncapsulatedValue
	kvs   = datatypes.KeyValues
	query = queryassociatedaction.AssociatedActionQuery
	item  = otm.OneToManyItem
)

// val is a stored value: the cell (group and set) it was created for and by which creation.
type val struct{ c, gen int }

func (*val) Opaque() {}

var groups = []string{"g0", "g1"}

type entry struct {
	v  *val
	id string
}

func show(kv kvs) string {
	var l []string
	for _, k := range kv.SortedKeys() {
		l = append(l, fmt.Sprintf("%s:%v", k, kv[k].Data))
	}
	return "{" + strings.Join(l, " ") + "}"
}

func same(a, b kvs) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func contained(a, b kvs) bool {
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func copyOf(a kvs) kvs {
	n := kvs{}
	for k, v := range a {
		n[k] = v
	}
	return n
}

func anyRange() v1common.TypeRestrictions {
	return v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}
}

func matchOf(kv kvs) *querymatchaction.MatchActionQuery {
	m := &querymatchaction.MatchActionQuery{KeyValues: querymatchaction.MatchKeyValues{}}
	for k, v := range kv {
		m.KeyValues[k] = querymatchaction.MatchValue{Value: v, TypeRestrictions: v1common.TypeRestrictions{MinDataType: v.Type, MaxDataType: v.Type}}
	}
	return m
}

func has(key string) *query {
	return &query{Selection: &queryassociatedaction.Selection{KeyValues: queryassociatedaction.SelectionKeyValues{key: {Value: datatypes.Any(), Comparison: v1common.Equals, TypeRestrictions: anyRange()}}}}
}

// ---------------------------------------------------------------- histories

type world struct {
	sets   []kvs
	t      otm.BTreeOneToMany
	m      map[int]*entry // cell = group*len(sets)+set
	issued map[string]bool
	gen    int
}

func mk(sets ...kvs) func() hx.World {
	return func() hx.World {
		return &world{sets: sets, t: otm.NewThreadSafe(), m: map[int]*entry{}, issued: map[string]bool{}}
	}
}

func (w *world) cells() int        { return len(groups) * len(w.sets) }
func (w *world) g(c int) string    { return groups[c/len(w.sets)] }
func (w *world) set(c int) kvs     { return w.sets[c%len(w.sets)] }
func (w *world) show(c int) string { return w.g(c) + show(w.set(c)) }

func (w *world) Key() string {
	live := map[string]string{}
	var l []int
	for c, e := range w.m {
		live[e.id] = fmt.Sprint("id", c)
		l = append(l, c)
	}
	sort.Ints(l)
	return hx.Dump(func(s string) string {
		if n, ok := live[s]; ok {
			return n
		}
		if w.issued[s] {
			return "dead"
		}
		return s
	}, w.t, l)
}

var kinds = []string{"find-or-create", "find-or-create-declined", "delete", "delete-refused", "destroy-by-id", "destroy-by-id-refused"}

func (w *world) Ops() []string {
	var l []string
	for _, n := range kinds {
		for c := 0; c < w.cells(); c++ {
			l = append(l, n+" "+w.show(c))
		}
	}
	for _, g := range groups {
		l = append(l, "destroy "+g, "destroy "+g+" refused at 1", "destroy "+g+" refused at 2", "destroy-by-id of the other group in "+g)
	}
	return l
}

const unknown = "no-such-id"

func (w *world) ok(a item, c int, what string) {
	e := w.m[c]
	if e == nil {
		hx.FailH(what+" reported an entry that does not exist", "%s%s", a.OneID(), show(a.ManyKeyValues()))
	}
	if a.OneID() != w.g(c) || a.ManyID() != e.id || !same(a.ManyKeyValues(), w.set(c)) || a.Value() != any(e.v) {
		hx.FailH(what+" reported a wrong entry", "reported %s%s id %q value %v, stored %s id %q value %v", a.OneID(), show(a.ManyKeyValues()), a.ManyID(), a.Value(), w.show(c), e.id, e.v)
	}
	// what the caller does with the key-values is its own business
	kv := a.ManyKeyValues()
	for k := range kv {
		kv[k] = datatypes.String("changed by the caller")
	}
}

func (w *world) Do(i int) {
	n := w.cells()
	if i >= len(kinds)*n {
		i -= len(kinds) * n
		if i%4 == 3 {
			w.foreign(i / 4)
		} else {
			w.destroy(i/4, i%4)
		}
		return
	}
	op, c := kinds[i/n], i%n
	set := copyOf(w.set(c))
	old := w.m[c]
	w.gen++
	v := &val{c, w.gen}
	made, found := 0, 0
	can := func(ok bool) otm.OneToManyTreeRemove {
		return func(a item) bool { found++; w.ok(a, c, op); return ok }
	}
	id := unknown
	if old != nil {
		id = old.id
	}
	var err error
	var got string
	gone := false
	switch op {
	case "find-or-create":
		got, err = w.t.CreateOrFind(w.g(c), set, func() any { made++; return v }, func(a item) { found++; w.ok(a, c, op) })
	case "find-or-create-declined":
		got, err = w.t.CreateOrFind(w.g(c), set, func() any { made++; return nil }, func(a item) { found++; w.ok(a, c, op) })
	case "delete":
		if old != nil && w.gen%2 == 0 {
			err, found = w.t.DeleteOneOfManyByKeyValues(w.g(c), set, nil), 1
		} else {
			err = w.t.DeleteOneOfManyByKeyValues(w.g(c), set, can(true))
		}
		gone = true
	case "delete-refused":
		err = w.t.DeleteOneOfManyByKeyValues(w.g(c), set, can(false))
	case "destroy-by-id":
		err, gone = w.t.DestroyOneOfManyByID(w.g(c), id, can(true)), true
	case "destroy-by-id-refused":
		err = w.t.DestroyOneOfManyByID(w.g(c), id, can(false))
	}
	if err != nil {
		hx.FailH(op+" failed", "%s: %v", w.show(c), err)
	}
	want := func(nm, nf int) {
		if made != nm || found != nf {
			hx.FailH(op+" ran its callbacks wrongly", "%s: created %d (want %d) found %d (want %d)", w.show(c), made, nm, found, nf)
		}
	}
	if strings.HasPrefix(op, "find-or-create") {
		if old != nil {
			want(0, 1)
			if got != old.id {
				hx.FailH("find-or-create returned another identifier", "%q, the entry has %q", got, old.id)
			}
			return
		}
		want(1, 0)
		if op == "find-or-create" {
			if got == "" {
				hx.FailH("a created entry has no identifier", "")
			}
			if w.issued[got] {
				hx.FailH("an identifier was issued twice", "%q", got)
			}
			w.m[c] = &entry{v, got}
		}
		w.issued[got] = true
		return
	}
	if old != nil {
		want(0, 1)
	} else {
		want(0, 0)
	}
	if gone {
		delete(w.m, c)
	}
}

// foreign: identifiers of the other group mean nothing in this one
func (w *world) foreign(g int) {
	for c, e := range w.m {
		if c/len(w.sets) != g {
			if err := w.t.DestroyOneOfManyByID(groups[g], e.id, func(a item) bool {
				hx.FailH("an identifier of another group was found", "%s in %s", w.show(c), groups[g])
				return true
			}); err != nil {
				hx.FailH("destroy-by-id failed", "%v", err)
			}
		}
	}
}

func (w *world) cell(a item) int {
	for c := 0; c < w.cells(); c++ {
		if w.g(c) == a.OneID() && same(w.set(c), a.ManyKeyValues()) {
			return c
		}
	}
	return -1
}

func (w *world) destroy(g, refuse int) {
	n, have := 0, 0
	for c := range w.m {
		if c/len(w.sets) == g {
			have++
		}
	}
	seen := map[int]bool{}
	err := w.t.DestroyOne(groups[g], func(a item) bool {
		n++
		c := w.cell(a)
		if c < 0 || seen[c] || c/len(w.sets) != g {
			hx.FailH("destroying a group reported a wrong or repeated entry", "%s%s", a.OneID(), show(a.ManyKeyValues()))
		}
		w.ok(a, c, "destroying a group")
		if refuse != 0 && n == refuse {
			return false
		}
		seen[c] = true
		return true
	})
	if err != nil {
		hx.FailH("destroying a group failed", "%v", err)
	}
	if want := have; n != want && !(refuse != 0 && refuse <= have && n == refuse) {
		hx.FailH("destroying a group visited a wrong number of entries", "%d visited, %d stored, refused at %d", n, have, refuse)
	}
	for c := range seen {
		delete(w.m, c)
	}
}

func (w *world) expect(what string, g int, want func(c int) bool, run func(otm.OneToManyTreeIterate) error) {
	got := map[int]bool{}
	err := run(func(a item) bool {
		c := w.cell(a)
		if c < 0 {
			hx.FailH("a query or match reported an entry that does not exist", "%s: %s%s", what, a.OneID(), show(a.ManyKeyValues()))
		}
		w.ok(a, c, "a query or match")
		if got[c] {
			hx.FailH("a query or match reported an entry twice", "%s: %s", what, w.show(c))
		}
		got[c] = true
		return true
	})
	if err != nil {
		hx.FailH("a query or match failed", "%s: %v", what, err)
	}
	for c := 0; c < w.cells(); c++ {
		in := w.m[c] != nil && c/len(w.sets) == g && want(c)
		if in && !got[c] {
			hx.FailH("a query or match missed an entry", "%s in %s: %s", what, groups[g], w.show(c))
		}
		if !in && got[c] {
			hx.FailH("a query or match reported an entry that does not match", "%s in %s: %s", what, groups[g], w.show(c))
		}
	}
}

func (w *world) Check() {
	before := w.Key()
	for g := range groups {
		G := groups[g]
		w.expect("select all", g, func(int) bool { return true }, func(f otm.OneToManyTreeIterate) error { return w.t.QueryAction(G, &query{}, f) })
		w.expect("has a", g, func(c int) bool { _, ok := w.set(c)["a"]; return ok }, func(f otm.OneToManyTreeIterate) error { return w.t.QueryAction(G, has("a"), f) })
		for _, s := range w.sets {
			w.expect("exact "+show(s), g, func(c int) bool { return same(w.set(c), s) }, func(f otm.OneToManyTreeIterate) error {
				return w.t.QueryAction(G, queryassociatedaction.KeyValuesToExactAssociatedActionQuery(s), f)
			})
			w.expect("match "+show(s), g, func(c int) bool { return contained(w.set(c), s) }, func(f otm.OneToManyTreeIterate) error {
				return w.t.MatchAction(G, matchOf(s), f)
			})
		}
		for id := range w.issued {
			w.expect("by id", g, func(c int) bool { return w.m[c].id == id }, func(f otm.OneToManyTreeIterate) error {
				return w.t.QueryAction(G, queryassociatedaction.StringToAssociatedActionQuery(id), f)
			})
		}
	}
	if w.Key() != before {
		hx.FailH("a query or match changed the store", "%s", before)
	}
	w.destroy(0, 0)
	w.expect("select all after destroying the group", 0, func(int) bool { return true }, func(f otm.OneToManyTreeIterate) error { return w.t.QueryAction(groups[0], &query{}, f) })
	w.expect("select all of the other group", 1, func(int) bool { return true }, func(f otm.OneToManyTreeIterate) error { return w.t.QueryAction(groups[1], &query{}, f) })
	for i := 0; i < w.cells(); i++ {
		w.Do(i)
	}
}

// ---------------------------------------------------------------- concurrent use

type cw struct {
	h    *hx.H
	t    otm.BTreeOneToMany
	sets []kvs
	gen  int
	id0  map[int]string
	idOf map[int]string
	seen map[[2]any]bool
}

type res struct {
	err   string
	id    string
	made  int
	saw   []int
	cells []int
}

func (r res) String() string {
	s := ""
	if r.err != "" {
		s = "error " + r.err
	}
	if r.id != "" {
		s += " id"
	}
	if r.made > 0 {
		s += " created"
	}
	if len(r.saw) > 0 {
		s += fmt.Sprint(" saw ", r.saw)
	}
	if s == "" {
		s = "nothing"
	}
	return s
}

type call struct {
	c, gen int
	s      string
}

func (c call) String() string { return fmt.Sprintf("%s #%d", c.s, c.gen) }

type op struct {
	name string
	c    int
}

func (w *cw) g(c int) string    { return groups[c/len(w.sets)] }
func (w *cw) set(c int) kvs     { return w.sets[c%len(w.sets)] }
func (w *cw) grp(c int) int     { return c / len(w.sets) }
func (w *cw) show(c int) string { return w.g(c) + show(w.set(c)) }

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, otm.ErrorOneIDDestroying):
		return "group-destroying"
	case errors.Is(err, otm.ErrorManyIDDestroying), errors.Is(err, otm.ErrorManyKeyValuesDestroying):
		return "item-destroying"
	}
	return "?" + err.Error()
}

func (w *cw) do(o op) {
	w.h.Sync()
	w.gen++
	c := call{c: o.c, gen: w.gen, s: w.show(o.c)}
	v := &val{o.c, w.gen}
	w.h.Do(o.name, c, func() any {
		var r res
		note := func(a item) {
			vs.Point("callback")
			x := a.Value().(*val)
			r.saw = append(r.saw, x.gen)
			r.cells = append(r.cells, x.c)
			if !same(a.ManyKeyValues(), w.set(x.c)) || a.OneID() != w.g(x.c) {
				hx.Fail("an entry has the group or key-values of another", "%s: %s%s, created as %s", o.name, a.OneID(), show(a.ManyKeyValues()), w.show(x.c))
			}
			w.h.Saw(a.ManyID())
			w.seen[[2]any{x.gen, a.ManyID()}] = true
		}
		can := func(ok bool) otm.OneToManyTreeRemove { return func(a item) bool { note(a); return ok } }
		visit := func(a item) bool { note(a); return true }
		id := w.id0[o.c]
		if id == "" {
			id = unknown + fmt.Sprint(o.c)
		}
		G, set := w.g(o.c), copyOf(w.set(o.c))
		var err error
		switch o.name {
		case "find-or-create":
			r.id, err = w.t.CreateOrFind(G, set, func() any { vs.Point("callback"); r.made++; return v }, func(a item) { note(a) })
		case "find-or-create-declined":
			r.id, err = w.t.CreateOrFind(G, set, func() any { vs.Point("callback"); r.made++; return nil }, func(a item) { note(a) })
		case "delete":
			err = w.t.DeleteOneOfManyByKeyValues(G, set, can(true))
		case "delete-refused":
			err = w.t.DeleteOneOfManyByKeyValues(G, set, can(false))
		case "destroy-by-id":
			err = w.t.DestroyOneOfManyByID(G, id, can(true))
		case "destroy-by-id-refused":
			err = w.t.DestroyOneOfManyByID(G, id, can(false))
		case "destroy-group":
			err = w.t.DestroyOne(G, can(true))
		case "exact":
			err = w.t.QueryAction(G, queryassociatedaction.KeyValuesToExactAssociatedActionQuery(set), visit)
		case "query-all":
			err = w.t.QueryAction(G, &query{}, visit)
		case "query-has-a":
			err = w.t.QueryAction(G, has("a"), visit)
		case "match":
			err = w.t.MatchAction(G, matchOf(set), visit)
		default:
			panic(o.name)
		}
		r.err = errName(err)
		w.h.Sync()
		if r.made == 1 && r.err == "" && o.name == "find-or-create" {
			w.idOf[c.gen] = r.id
		}
		return r
	})
}

func selects(name string, want, have kvs) bool {
	switch name {
	case "exact":
		return same(want, have)
	case "query-all":
		return true
	case "query-has-a":
		_, ok := have["a"]
		return ok
	case "match":
		return contained(have, want)
	}
	return false
}

func isRead(n string) bool {
	return n == "exact" || n == "query-all" || n == "query-has-a" || n == "match"
}

func overlaps(a, b *hx.Op) bool { return a.Inv < b.Ret && b.Inv < a.Ret }

type cstate map[int]int

func (s cstate) key() string {
	var l []string
	for k, g := range s {
		l = append(l, fmt.Sprintf("%d:%d", k, g))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func with(s cstate, k, g int) cstate {
	n := cstate{}
	for a, b := range s {
		n[a] = b
	}
	if g == 0 {
		delete(n, k)
	} else {
		n[k] = g
	}
	return n
}

func (w *cw) step(s cstate, o *hx.Op) (any, bool) {
	c, r := o.Arg.(call), o.Res.(res)
	if r.err != "" {
		return s, true
	}
	old := s[c.c]
	switch o.Name {
	case "find-or-create", "find-or-create-declined":
		if old != 0 {
			return s, len(r.saw) == 1 && r.saw[0] == old && r.made == 0
		}
		if r.made != 1 || len(r.saw) != 0 {
			return nil, false
		}
		if o.Name == "find-or-create" {
			return with(s, c.c, c.gen), true
		}
		return s, true
	case "delete", "delete-refused", "destroy-by-id", "destroy-by-id-refused":
		if strings.HasPrefix(o.Name, "destroy") && (old == 0 || w.idOf[old] != w.id0[c.c]) {
			return s, len(r.saw) == 0
		}
		if old == 0 {
			return s, len(r.saw) == 0
		}
		if len(r.saw) != 1 || r.saw[0] != old {
			return nil, false
		}
		if strings.HasSuffix(o.Name, "refused") {
			return s, true
		}
		return with(s, c.c, 0), true
	case "destroy-group":
		n := s
		k := 0
		for x := range s {
			if w.grp(x) == w.grp(c.c) {
				k++
				n = with(n, x, 0)
			}
		}
		if k != len(r.cells) {
			return nil, false
		}
		dup := map[int]bool{}
		for i, x := range r.cells {
			if s[x] != r.saw[i] || dup[x] || w.grp(x) != w.grp(c.c) {
				return nil, false
			}
			dup[x] = true
		}
		return n, true
	}
	panic(o.Name)
}

func (w *cw) judge(init cstate) {
	h := w.h
	ids := map[string]bool{}
	for g, id := range w.idOf {
		if id == "" || ids[id] {
			hx.Fail("a created entry has no identifier of its own", "#%d\n%s", g, h.History())
		}
		ids[id] = true
	}
	for s := range w.seen {
		if id, ok := w.idOf[s[0].(int)]; ok && id != s[1].(string) {
			hx.Fail("an entry was seen with another identifier", "#%d with %q\n%s", s[0], s[1], h.History())
		}
	}
	var lin []*hx.Op
	for _, o := range h.Ops {
		if !isRead(o.Name) {
			lin = append(lin, o)
		}
		r, c := o.Res.(res), o.Arg.(call)
		switch r.err {
		case "":
		case "item-destroying", "group-destroying":
			ok := false
			for _, d := range h.Ops {
				if d != o && overlaps(o, d) && (d.Name == "destroy-group" && w.grp(d.Arg.(call).c) == w.grp(c.c) || strings.HasPrefix(d.Name, "destroy-by-id") && d.Arg.(call).c == c.c && r.err == "item-destroying") {
					ok = true
				}
			}
			if !ok {
				hx.Fail("refused as destroying without a reason", "%s\n%s", o.Name, h.History())
			}
		default:
			hx.Fail("unexpected error", "%s: %s\n%s", o.Name, r.err, h.History())
		}
		if r.err != "" && (r.made > 0 || len(r.saw) > 0 || r.id != "") {
			hx.Fail("a refused call had an effect", "%s\n%s", o.Name, h.History())
		}
	}
	for _, o := range h.Ops {
		if isRead(o.Name) && o.Res.(res).err == "" {
			w.judgeRead(init, o, lin)
		}
	}
	all := h.Ops
	h.Ops = lin
	ok := h.Linearizable(init, func(s any) string { return s.(cstate).key() }, func(s any, o *hx.Op) (any, bool) { return w.step(s.(cstate), o) })
	h.Ops = all
	if !ok {
		hx.Fail("not linearizable", "initial %v\n%s", init, h.History())
	}
}

func (w *cw) judgeRead(init cstate, t *hx.Op, lin []*hx.Op) {
	tc, r := t.Arg.(call), t.Res.(res)
	seen := map[int]bool{}
	for i, c := range r.cells {
		if seen[r.saw[i]] {
			hx.Fail("a query reported an entry twice", "%s\n%s", t.Name, w.h.History())
		}
		seen[r.saw[i]] = true
		if w.grp(c) != w.grp(tc.c) || !selects(t.Name, w.set(tc.c), w.set(c)) {
			hx.Fail("a query reported an entry that does not match", "%s %s\n%s", t.Name, w.show(c), w.h.History())
		}
	}
	for c := 0; c < len(groups)*len(w.sets); c++ {
		if w.grp(c) != w.grp(tc.c) || !selects(t.Name, w.set(tc.c), w.set(c)) {
			continue
		}
		cur := map[int]bool{init[c]: true}
		for pass := 0; pass < 2; pass++ {
			for _, o := range lin {
				oc, or := o.Arg.(call), o.Res.(res)
				if o.Inv > t.Ret || or.err != "" {
					continue
				}
				if pass == 0 {
					if o.Name == "find-or-create" && oc.c == c && or.made == 1 {
						cur[oc.gen] = true
						if o.Ret < t.Inv {
							delete(cur, 0)
						}
					}
					continue
				}
				gone := false
				switch o.Name {
				case "delete", "destroy-by-id":
					gone = oc.c == c && len(or.saw) > 0
				case "destroy-group":
					for _, x := range or.cells {
						gone = gone || x == c
					}
				case "destroy-by-id-refused":
					if oc.c == c && overlaps(o, t) {
						cur[0] = true
					}
				}
				if gone {
					cur[0] = true
					if o.Ret < t.Inv {
						for i, g := range or.saw {
							if or.cells[i] == c {
								delete(cur, g)
							}
						}
					}
				}
			}
		}
		for i, g := range r.saw {
			if r.cells[i] == c && !cur[g] {
				hx.Fail("a query reported a removed entry", "%s #%d\n%s", t.Name, g, w.h.History())
			}
		}
		if !cur[0] && len(cur) == 1 {
			for g := range cur {
				if !seen[g] {
					hx.Fail("a query missed an entry", "%s %s\n%s", t.Name, w.show(c), w.h.History())
				}
			}
		}
	}
}

func conc(sets []kvs, build []int, threads ...[]op) {
	w := &cw{h: hx.New(), t: otm.NewThreadSafe(), sets: sets, id0: map[int]string{}, idOf: map[int]string{}, seen: map[[2]any]bool{}}
	init := cstate{}
	for _, c := range build {
		w.gen++
		v := &val{c, w.gen}
		id, err := w.t.CreateOrFind(w.g(c), copyOf(w.set(c)), func() any { return v }, func(item) {})
		if err != nil {
			hx.Fail("setup failed", "%v", err)
		}
		init[c] = v.gen
		w.id0[c] = id
		w.idOf[v.gen] = id
	}
	for i, ops := range threads {
		ops := ops
		w.h.Go(fmt.Sprintf("t%d", i+1), func() {
			for _, o := range ops {
				w.do(o)
			}
		})
	}
	w.h.Wait()
	for g := range groups {
		w.do(op{"query-all", g * len(sets)})
		w.do(op{"match", g*len(sets) + len(sets) - 1})
	}
	touched := map[int]bool{}
	for _, c := range build {
		touched[c] = true
	}
	for _, ops := range threads {
		for _, o := range ops {
			touched[o.c] = true
		}
	}
	for c := 0; c < len(groups)*len(sets); c++ {
		if touched[c] {
			w.do(op{"find-or-create", c})
		}
	}
	w.do(op{"destroy-group", 0})
	w.do(op{"query-all", 0})
	w.do(op{"query-all", len(sets)})
	w.judge(init)
}

func cross(names []string, cs ...int) []op {
	var l []op
	for _, n := range names {
		for _, c := range cs {
			l = append(l, op{n, c})
		}
	}
	return l
}

func main() {
	I, S := datatypes.Int, datatypes.String
	hx.Explicit("P06", "om/nested", 5, 12, mk(kvs{"a": I(1)}, kvs{"a": I(1), "b": I(1)}))
	hx.Explicit("P06", "om/three-sets", 4, 7, mk(kvs{"a": I(1)}, kvs{"b": S("x")}, kvs{"a": I(1), "b": S("x")}))

	// cells: 0,1 in g0, 2,3 in g1
	cs := []kvs{{"a": I(1)}, {"a": I(1), "b": I(1)}}
	muts := []string{"find-or-create", "find-or-create-declined", "delete", "delete-refused", "destroy-by-id", "destroy-by-id-refused", "destroy-group"}
	builds := [][]int{{}, {1}, {0, 1}, {0, 1, 2}}
	hx.Sched("P06", "omc/same-cell", 2, 3, func() {
		b := builds[vs.Choose(3)]
		ops := append(cross(muts, 1), op{"exact", 1})
		i := vs.Choose(len(ops))
		j := i + vs.Choose(len(ops)-i)
		conc(cs, b, []op{ops[i]}, []op{ops[j]})
	})
	hx.Sched("P06", "omc/readers", 2, 3, func() {
		b := builds[vs.Choose(len(builds))]
		ops := cross([]string{"find-or-create", "delete", "destroy-by-id", "destroy-group"}, 0, 1)
		rs := cross([]string{"query-all", "query-has-a", "match", "exact"}, 1)
		conc(cs, b, []op{ops[vs.Choose(len(ops))]}, []op{rs[vs.Choose(len(rs))]})
	})
	hx.Sched("P06", "omc/groups", 2, 3, func() {
		b := builds[vs.Choose(len(builds))]
		a := cross([]string{"find-or-create", "delete", "destroy-by-id", "destroy-group"}, 1)
		c := cross([]string{"find-or-create", "delete", "destroy-by-id", "destroy-group", "query-all", "match"}, 2, 3)
		conc(cs, b, []op{a[vs.Choose(len(a))]}, []op{c[vs.Choose(len(c))]})
	})
	hx.Sched("P06", "omc/destroy-group", 2, 3, func() {
		b := builds[vs.Choose(3)]
		ops := append(cross([]string{"find-or-create", "find-or-create-declined", "delete", "destroy-by-id", "query-all", "match"}, 1), op{"find-or-create", 0}, op{"find-or-create", 3})
		conc(cs, b, []op{{"destroy-group", 0}}, []op{ops[vs.Choose(len(ops))], ops[vs.Choose(len(ops))]})
	})
	hx.Sched("P06", "omc/three", 1, 2, func() {
		b := builds[vs.Choose(2)]
		ops := cross([]string{"find-or-create", "delete", "destroy-by-id", "destroy-group", "query-all"}, 1)
		i := vs.Choose(len(ops))
		j := i + vs.Choose(len(ops)-i)
		k := j + vs.Choose(len(ops)-j)
		conc(cs, b, []op{ops[i]}, []op{ops[j]}, []op{ops[k]})
	})
	hx.Main()
}
