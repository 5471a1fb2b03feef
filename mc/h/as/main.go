// Associated key-value store: explicit-state exploration of operation histories (P03), all queries against all
// populations (P05) and concurrent scenarios (P04).
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
)

type (
	ev    = datatypes.EncapsulatedValue
	kvs   = datatypes.KeyValues
	query = queryassociatedaction.AssociatedActionQuery
	assoc = btreeassociated.AssociatedKeyValues
)

// val is a stored value: the set it was created for and by which creation.
type val struct{ k, gen int }

func (*val) Opaque() {}

type entry struct {
	v  *val
	id string
}

type world struct {
	sets   []kvs
	t      btreeassociated.BTreeAssociated
	m      map[int]*entry
	issued map[string]bool
	gen    int
	heavy  func(w *world)
}

func show(kv kvs) string {
	var l []string
	for _, k := range kv.SortedKeys() {
		v := kv[k]
		if v.Type == datatypes.T_any {
			l = append(l, k+":any")
		} else {
			l = append(l, fmt.Sprintf("%s:%s(%v)", k, v.Type.ToString(), v.Data))
		}
	}
	return "{" + strings.Join(l, " ") + "}"
}

func same(a, b kvs) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func mk(sets []kvs, heavy func(w *world)) func() hx.World {
	return func() hx.World {
		return &world{sets: sets, t: btreeassociated.NewThreadSafe(), m: map[int]*entry{}, issued: map[string]bool{}, heavy: heavy}
	}
}

func (w *world) has() []int {
	var l []int
	for k := range w.m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

func (w *world) Key() string {
	live := map[string]string{}
	for k, e := range w.m {
		live[e.id] = fmt.Sprint("id", k)
	}
	return hx.Dump(func(s string) string {
		if n, ok := live[s]; ok {
			return n
		}
		if w.issued[s] {
			return "dead"
		}
		return s
	}, w.t, w.has())
}

var kinds = []string{"create", "create-declined", "find-or-create", "find-or-create-declined", "delete", "delete-refused",
	"delete-by-id", "delete-by-id-refused", "destroy-by-id", "destroy-by-id-refused"}

func (w *world) Ops() []string {
	var l []string
	for _, n := range kinds {
		for _, s := range w.sets {
			l = append(l, n+" "+show(s))
		}
	}
	return append(l, "destroy-tree", "destroy-tree refused at 1", "destroy-tree refused at 2")
}

const unknown = "no-such-id"

func (w *world) entryOK(a assoc, k int, what string) {
	e := w.m[k]
	if e == nil {
		hx.FailH(what+" reported an entry that does not exist", "%s", show(a.KeyValues()))
	}
	if a.AssociatedID() != e.id || !same(a.KeyValues(), w.sets[k]) || a.Value() != any(e.v) {
		hx.FailH(what+" reported a wrong entry", "reported %s id %q value %v, stored %s id %q value %v", show(a.KeyValues()), a.AssociatedID(), a.Value(), show(w.sets[k]), e.id, e.v)
	}
}

func (w *world) newID(id string, k int, v *val) {
	if id == "" {
		hx.FailH("a created entry has no identifier", "")
	}
	if w.issued[id] {
		hx.FailH("an identifier was issued twice", "%q", id)
	}
	w.issued[id] = true
	w.m[k] = &entry{v, id}
}

func (w *world) Do(i int) {
	if i >= len(kinds)*len(w.sets) {
		w.destroyTree(i - len(kinds)*len(w.sets))
		return
	}
	op, k := kinds[i/len(w.sets)], i%len(w.sets)
	set := kvs{}
	for a, b := range w.sets[k] {
		set[a] = b
	}
	old := w.m[k]
	w.gen++
	v := &val{k, w.gen}
	made, found := 0, 0
	create := func() any { made++; return v }
	decline := func() any { made++; return nil }
	find := func(a assoc) { found++; w.entryOK(a, k, op) }
	can := func(ok bool) btreeassociated.BTreeAssociatedRemove {
		return func(a assoc) bool { found++; w.entryOK(a, k, op); return ok }
	}
	id := unknown
	if old != nil {
		id = old.id
	}
	var err error
	var got string
	gone := false
	switch op {
	case "create":
		got, err = w.t.Create(set, create)
	case "create-declined":
		got, err = w.t.Create(set, decline)
	case "find-or-create":
		got, err = w.t.CreateOrFind(set, create, find)
	case "find-or-create-declined":
		got, err = w.t.CreateOrFind(set, decline, find)
	case "delete":
		if old != nil && w.gen%2 == 0 {
			err, found = w.t.Delete(set, nil), 1
		} else {
			err = w.t.Delete(set, can(true))
		}
		gone = true
	case "delete-refused":
		err = w.t.Delete(set, can(false))
	case "delete-by-id":
		err, gone = w.t.DeleteByAssociatedID(id, can(true)), true
	case "delete-by-id-refused":
		err = w.t.DeleteByAssociatedID(id, can(false))
	case "destroy-by-id":
		err, gone = w.t.DestroyByAssociatedID(id, can(true)), true
	case "destroy-by-id-refused":
		err = w.t.DestroyByAssociatedID(id, can(false))
	}
	// the caller's map is the caller's
	for a := range set {
		set[a] = datatypes.String("changed by the caller")
	}
	want := func(e error, nm, nf int) {
		if !errors.Is(err, e) && !(e == nil && err == nil) {
			hx.FailH(op+" returned a wrong error", "%s: got %v, want %v", show(w.sets[k]), err, e)
		}
		if made != nm || found != nf {
			hx.FailH(op+" ran its callbacks wrongly", "%s: created %d (want %d) found %d (want %d)", show(w.sets[k]), made, nm, found, nf)
		}
	}
	switch {
	case strings.HasPrefix(op, "create"):
		if old != nil {
			want(btreeassociated.ErrorKeyValuesAlreadyExists, 0, 0)
		} else {
			want(nil, 1, 0)
		}
		if op == "create" && old == nil {
			w.newID(got, k, v)
		} else if got != "" {
			hx.FailH(op+" returned an identifier", "%q", got)
		}
	case strings.HasPrefix(op, "find-or-create"):
		if old != nil {
			want(nil, 0, 1)
			if got != old.id {
				hx.FailH("find-or-create returned another identifier", "%q, the entry has %q", got, old.id)
			}
		} else {
			want(nil, 1, 0)
			if op == "find-or-create" {
				w.newID(got, k, v)
			} else {
				// whatever is returned identifies nothing
				w.issued[got] = true
			}
		}
	default:
		n := 0
		if old != nil {
			n = 1
		}
		want(nil, 0, n)
		if gone {
			delete(w.m, k)
		}
	}
}

func (w *world) idx(kv kvs) int {
	for i, s := range w.sets {
		if same(s, kv) {
			return i
		}
	}
	return -1
}

func (w *world) destroyTree(refuse int) {
	n := 0
	seen := map[int]bool{}
	err := w.t.DestroyTree(func(a assoc) bool {
		n++
		k := w.idx(a.KeyValues())
		if k < 0 || seen[k] {
			hx.FailH("destroy-tree reported a wrong or repeated entry", "%s", show(a.KeyValues()))
		}
		w.entryOK(a, k, "destroy-tree")
		if refuse != 0 && n == refuse {
			return false
		}
		seen[k] = true
		return true
	})
	if err != nil {
		hx.FailH("destroy-tree failed", "%v", err)
	}
	if refuse == 0 && n != len(w.m) || refuse != 0 && n > refuse || refuse != 0 && n < refuse && n != len(w.m) {
		hx.FailH("destroy-tree visited a wrong number of entries", "%d visited, %d stored, refused at %d", n, len(w.m), refuse)
	}
	for k := range seen {
		delete(w.m, k)
	}
}

// entries runs a query and returns what it visited; stop > 0: stop after that many.
func (w *world) entries(what string, stop int, run func(btreeassociated.BTreeAssociatedIterate) error) map[int]bool {
	got := map[int]bool{}
	n := 0
	err := run(func(a assoc) bool {
		n++
		k := w.idx(a.KeyValues())
		if k < 0 || w.m[k] == nil {
			hx.FailH("a query or match reported an entry that does not exist", "%s: %s", what, show(a.KeyValues()))
		}
		w.entryOK(a, k, "a query or match")
		if got[k] {
			hx.FailH("a query or match reported an entry twice", "%s: %s", what, show(a.KeyValues()))
		}
		got[k] = true
		if stop > 0 && n > stop {
			hx.FailH("a query or match continued after it was stopped", "%s", what)
		}
		return stop == 0 || n < stop
	})
	if err != nil {
		hx.FailH("a query or match failed", "%s: %v", what, err)
	}
	return got
}

func (w *world) names(m map[int]bool) string {
	var l []string
	for k := range w.sets {
		if m[k] {
			l = append(l, show(w.sets[k]))
		}
	}
	return strings.Join(l, " ")
}

func (w *world) all() map[int]bool {
	m := map[int]bool{}
	for k := range w.m {
		m[k] = true
	}
	return m
}

func (w *world) expect(what string, want map[int]bool, run func(btreeassociated.BTreeAssociatedIterate) error) {
	got := w.entries(what, 0, run)
	for k := range w.sets {
		if want[k] && !got[k] {
			hx.FailH("a query or match missed an entry", "%s\nmissed %s\nstored: %s", what, show(w.sets[k]), w.names(w.all()))
		}
		if got[k] && !want[k] {
			hx.FailH("a query or match reported an entry that does not match", "%s\nreported %s\nstored: %s", what, show(w.sets[k]), w.names(w.all()))
		}
	}
}

func (w *world) Check() {
	before := w.Key()
	w.expect("select all", w.all(), func(f btreeassociated.BTreeAssociatedIterate) error { return w.t.QueryAction(&query{}, f) })
	for k, s := range w.sets {
		want := map[int]bool{}
		if w.m[k] != nil {
			want[k] = true
		}
		w.expect("exact "+show(s), want, func(f btreeassociated.BTreeAssociatedIterate) error {
			return w.t.QueryAction(queryassociatedaction.KeyValuesToExactAssociatedActionQuery(s), f)
		})
		if e := w.m[k]; e != nil {
			w.expect("by id of "+show(s), want, func(f btreeassociated.BTreeAssociatedIterate) error {
				return w.t.QueryAction(queryassociatedaction.StringToAssociatedActionQuery(e.id), f)
			})
		}
	}
	for id := range w.issued {
		live := false
		for _, e := range w.m {
			live = live || e.id == id
		}
		if !live {
			w.expect("by the id of a removed entry", nil, func(f btreeassociated.BTreeAssociatedIterate) error {
				return w.t.QueryAction(queryassociatedaction.StringToAssociatedActionQuery(id), f)
			})
		}
	}
	if w.heavy != nil {
		w.heavy(w)
	}
	if w.Key() != before {
		hx.FailH("a query or match changed the store", "%s", before)
	}
	w.destroyTree(0)
	w.expect("select all after destroy-tree", nil, func(f btreeassociated.BTreeAssociatedIterate) error { return w.t.QueryAction(&query{}, f) })
	// usable again
	for i := range w.sets {
		w.Do(i)
	}
}

func one(k string, v ev) kvs { return kvs{k: v} }

func rng(min, max datatypes.DataType) v1common.TypeRestrictions {
	return v1common.TypeRestrictions{MinDataType: min, MaxDataType: max}
}

func init() {
	I, I8, S, A := datatypes.Int, datatypes.Int8, datatypes.String, datatypes.Any
	hx.Explicit("P03", "as/nested", 7, 40, mk([]kvs{one("a", I(1)), one("b", I(1)), {"a": I(1), "b": I(1)}, {"a": I(1), "b": I(1), "c": I(1)}}, nil))
	hx.Explicit("P03", "as/typed", 7, 40, mk([]kvs{one("a", I(1)), one("a", I8(1)), one("a", S("1")), one("a", A())}, nil))
	hx.Explicit("P03", "as/overlap", 7, 40, mk([]kvs{{"a": I(1), "b": I(1)}, {"a": I(1), "b": I(2)}, {"a": I(2), "b": I(1)}, {"a": I(1), "c": I(1)}}, nil))
	hx.Explicit("P03", "as/any", 7, 40, mk([]kvs{{"a": A(), "b": I(1)}, {"a": I(1), "b": I(1)}, {"a": I(1), "b": A()}, one("a", A())}, nil))
	hx.Explicit("P03", "as/mixed", 4, 8, mk([]kvs{one("a", I(1)), one("a", I(2)), one("b", I(1)), {"a": I(1), "b": I(1)}, {"a": I(1), "b": I(2)}, {"a": A(), "b": I(1)}, {"a": I(1), "b": I(1), "c": S("x")}}, nil))
}

func main() { hx.Main() }
