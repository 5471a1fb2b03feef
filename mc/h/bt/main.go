// Ordered index: explicit-state exploration against a sorted map (P01) and concurrent scenarios (P02).
package main

import (
	"errors"
	"fmt"
	"sort"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
)

type ev = datatypes.EncapsulatedValue

// val is a stored value: which key it was created for and by which creation.
type val struct{ k, gen int }

func (*val) Opaque() {}

type config struct {
	node int
	keys []ev // in the order of the index
	rs   []v1common.TypeRestrictions
	load [][]int // the keys to begin with, in the order of their creation (negative: deleted again)
}

type world struct {
	c   *config
	t   btree.BTree
	m   map[int]*val
	gen int
	on  bool // loaded
}

func rng(min, max datatypes.DataType) v1common.TypeRestrictions {
	return v1common.TypeRestrictions{MinDataType: min, MaxDataType: max}
}

func less(a, b ev) bool {
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	switch x := a.Data.(type) {
	case int:
		return x < b.Data.(int)
	case int8:
		return x < b.Data.(int8)
	case uint8:
		return x < b.Data.(uint8)
	case float64:
		return x < b.Data.(float64)
	case string:
		return x < b.Data.(string)
	case nil:
		return false
	}
	panic("type")
}

func mk(c *config) func() hx.World {
	for i := 1; i < len(c.keys); i++ {
		if !less(c.keys[i-1], c.keys[i]) {
			panic("keys must be in order")
		}
	}
	return func() hx.World {
		t, err := btree.NewThreadSafe(c.node)
		if err != nil {
			hx.FailH("construction failed", "%v", err)
		}
		return &world{c: c, t: t, m: map[int]*val{}}
	}
}

func (w *world) has() []int {
	var l []int
	for k := range w.m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

func (w *world) Key() string {
	return hx.Dump(nil, w.t, w.has())
}

var kinds = []string{"create", "create-declined", "find-or-create", "find-or-create-declined", "delete", "delete-refused", "destroy", "destroy-refused"}

func (w *world) Ops() []string {
	var l []string
	if len(w.c.load) > 0 && !w.on {
		for _, ks := range w.c.load {
			l = append(l, fmt.Sprint("load ", ks))
		}
		return l
	}
	for _, n := range kinds {
		for k := range w.c.keys {
			l = append(l, fmt.Sprintf("%s %s", n, show(w.c.keys[k])))
		}
	}
	l = append(l, "destroy-all")
	for i := 1; i <= 3; i++ {
		l = append(l, fmt.Sprintf("destroy-all refused at %d", i))
	}
	return l
}

func show(k ev) string {
	if k.Type == datatypes.T_any {
		return "any"
	}
	return fmt.Sprintf("%s(%v)", k.Type.ToString(), k.Data)
}

func (w *world) Do(i int) {
	if len(w.c.load) > 0 && !w.on {
		w.on = true
		for _, k := range w.c.load[i] {
			if k < 0 {
				w.Do(4*len(w.c.keys) - k - 1)
			} else {
				w.Do(k)
			}
		}
		return
	}
	if i >= len(kinds)*len(w.c.keys) {
		w.destroyAll(i - len(kinds)*len(w.c.keys))
		return
	}
	op, k := i/len(w.c.keys), i%len(w.c.keys)
	key := w.c.keys[k]
	old := w.m[k]
	w.gen++
	nv := &val{k, w.gen}
	created, found, asked := 0, 0, 0
	var foundV, askedV any
	var askedK ev
	onCreate := func() any { created++; return nv }
	if op == 1 || op == 3 {
		onCreate = func() any { created++; return nil }
	}
	onFind := func(x any) { found++; foundV = x }
	can := func(kk ev, x any) bool { asked++; askedK, askedV = kk, x; return op == 4 || op == 6 }
	var err error
	switch op {
	case 0, 1:
		err = w.t.Create(key, onCreate)
		if old != nil {
			if err == nil || created != 0 {
				hx.FailH("create of an existing key", "err=%v, onCreate ran %d times", err, created)
			}
			if !errors.Is(err, btree.ErrorKeyAlreadyExists) {
				hx.FailH("create of an existing key: wrong error", "%v", err)
			}
			return
		}
		if err != nil || created != 1 {
			hx.FailH("create of a new key", "err=%v, onCreate ran %d times", err, created)
		}
		if op == 0 {
			w.m[k] = nv
		}
	case 2, 3:
		err = w.t.CreateOrFind(key, onCreate, onFind)
		if err != nil {
			hx.FailH("find-or-create failed", "%v", err)
		}
		if old != nil {
			if created != 0 || found != 1 || foundV != any(old) {
				hx.FailH("find-or-create of an existing key", "onCreate ran %d times, onFind %d times with %v, stored %v", created, found, foundV, old)
			}
			return
		}
		if created != 1 || found != 0 {
			hx.FailH("find-or-create of a new key", "onCreate ran %d times, onFind %d times", created, found)
		}
		if op == 2 {
			w.m[k] = nv
		}
	case 4, 5, 6, 7:
		if op < 6 {
			err = w.t.Delete(key, can)
		} else {
			err = w.t.Destroy(key, can)
		}
		if err != nil {
			hx.FailH("delete failed", "%v", err)
		}
		if old == nil {
			if asked != 0 {
				hx.FailH("delete of a missing key", "canDelete was asked about %v", askedK)
			}
			return
		}
		if asked != 1 || askedV != any(old) || askedK != key {
			hx.FailH("delete of a key", "canDelete ran %d times with %v %v, stored %v", asked, askedK, askedV, old)
		}
		if op == 4 || op == 6 {
			delete(w.m, k)
		}
	}
}

func (w *world) destroyAll(refuseAt int) {
	n := 0
	err := w.t.DestroyAll(func(kk ev, x any) bool {
		n++
		k := w.idx(kk)
		if k < 0 || any(w.m[k]) != x || w.m[k] == nil {
			hx.FailH("destroy-all asked about a wrong entry", "%v %v", kk, x)
		}
		if n == refuseAt {
			return false
		}
		if refuseAt != 0 && n > refuseAt {
			hx.FailH("destroy-all continued after a refusal", "call %d", n)
		}
		delete(w.m, k)
		return true
	})
	if err != nil {
		hx.FailH("destroy-all failed", "%v", err)
	}
	if refuseAt == 0 && len(w.m) != 0 {
		hx.FailH("destroy-all skipped entries", "%v", w.has())
	}
	if refuseAt != 0 && n < refuseAt && len(w.m) != 0 {
		hx.FailH("destroy-all skipped entries", "%v", w.has())
	}
}

func (w *world) idx(k ev) int {
	for i := range w.c.keys {
		if w.c.keys[i] == k {
			return i
		}
	}
	return -1
}

var queries = []string{"equal", "not-equal", "less", "less-or-equal", "greater", "greater-or-equal"}

func (w *world) call(q int, key ev, r v1common.TypeRestrictions, f btree.BTreeIterate) error {
	switch q {
	case 0:
		return w.t.Find(key, r, f)
	case 1:
		return w.t.FindNotEqual(key, r, f)
	case 2:
		return w.t.FindLessThan(key, r, f)
	case 3:
		return w.t.FindLessThanOrEqual(key, r, f)
	case 4:
		return w.t.FindGreaterThan(key, r, f)
	}
	return w.t.FindGreaterThanOrEqual(key, r, f)
}

// matches is the documented meaning of a query: entries within the type range compared strictly by type and value,
// and the wildcard entry whenever the range reaches it.
func matches(q int, key ev, r v1common.TypeRestrictions, e ev) bool {
	if e.Type < r.MinDataType || e.Type > r.MaxDataType {
		return false
	}
	if e.Type == datatypes.T_any {
		return true
	}
	if key.Type == datatypes.T_any {
		return q == 0
	}
	eq := !less(e, key) && !less(key, e)
	switch q {
	case 0:
		return eq
	case 1:
		return !eq
	case 2:
		return less(e, key)
	case 3:
		return less(e, key) || eq
	case 4:
		return less(key, e)
	}
	return less(key, e) || eq
}

func (w *world) Check() {
	if e := w.t.Empty(); e != (len(w.m) == 0) {
		hx.FailH("empty reported wrongly", "Empty()=%v, but %d keys are stored", e, len(w.m))
	}
	before := w.Key()
	for q := range queries {
		for _, key := range w.c.keys {
			for _, r := range w.c.rs {
				want := map[int]bool{}
				for k := range w.m {
					if matches(q, key, r, w.c.keys[k]) {
						want[k] = true
					}
				}
				if key.Type == datatypes.T_any && q != 0 {
					n := 0
					if err := w.call(q, key, r, func(ev, any) bool { n++; return true }); err == nil || n != 0 {
						hx.FailH("comparison with the wildcard was accepted", "%s %s", queries[q], show(key))
					}
					continue
				}
				stops := []int{0, 1, 2, len(want)}
				for si, s := range stops {
					if s > len(want) || si == 3 && s < 3 {
						continue
					}
					got := map[int]bool{}
					n := 0
					what := func() string {
						return fmt.Sprintf("%s %s types [%s..%s] stop after %d, stored %v", queries[q], show(key), r.MinDataType.ToString(), r.MaxDataType.ToString(), s, w.shows())
					}
					err := w.call(q, key, r, func(kk ev, x any) bool {
						n++
						k := w.idx(kk)
						if k < 0 || !want[k] {
							hx.FailH("query visited a key that does not match: "+queries[q], "%s: visited %s", what(), show(kk))
						}
						if x != any(w.m[k]) {
							hx.FailH("query visited a wrong value", "%s: %s has %v, stored %v", what(), show(kk), x, w.m[k])
						}
						if got[k] {
							hx.FailH("query visited a key twice: "+queries[q], "%s: visited %s", what(), show(kk))
						}
						got[k] = true
						if s != 0 && n > s {
							hx.FailH("query continued after it was stopped: "+queries[q], "%s", what())
						}
						return s == 0 || n < s
					})
					if err != nil {
						hx.FailH("query failed", "%s: %v", what(), err)
					}
					if s == 0 && len(got) != len(want) || s != 0 && len(got) != s {
						hx.FailH("query missed a key: "+queries[q], "%s: visited %d of %d", what(), len(got), len(want))
					}
				}
			}
		}
	}
	if w.Key() != before {
		hx.FailH("a query changed the index", "%s", before)
	}
	// nothing may be left locked: empty the index
	w.destroyAll(0)
	if !w.t.Empty() {
		hx.FailH("not empty after destroy-all", "Empty()=false")
	}
}

func (w *world) shows() []string {
	var l []string
	for _, k := range w.has() {
		l = append(l, show(w.c.keys[k]))
	}
	return l
}

func ints(n int) []ev {
	var l []ev
	for i := 0; i < n; i++ {
		l = append(l, datatypes.Int(i))
	}
	return l
}

func allRanges(ts ...datatypes.DataType) []v1common.TypeRestrictions {
	var l []v1common.TypeRestrictions
	for _, a := range ts {
		for _, b := range ts {
			if a <= b {
				l = append(l, rng(a, b))
			}
		}
	}
	return l
}

func init() {
	few := []v1common.TypeRestrictions{rng(datatypes.T_uint8, datatypes.T_any), rng(datatypes.T_int, datatypes.T_int), rng(datatypes.T_string, datatypes.T_any)}
	D := 40
	add := func(name string, node int, q, t int, keys []ev, rs []v1common.TypeRestrictions) *hx.Scen {
		c := &config{node: node, keys: keys, rs: rs}
		return hx.Explicit("P01", "bt/"+name, q, t, mk(c))
	}
	add("ints-node2", 2, D, D, ints(6), few)
	add("ints-node3", 3, D, D, ints(7), few)
	add("ints-node4", 4, D, D, ints(7), few)
	mixed := []ev{datatypes.Uint8(1), datatypes.Int8(1), datatypes.Int(1), datatypes.Int(2), datatypes.String("1"), datatypes.Any()}
	rs := allRanges(datatypes.T_uint8, datatypes.T_int8, datatypes.T_int, datatypes.T_float64, datatypes.T_string, datatypes.T_any)
	add("mixed-node2", 2, D, D, mixed, rs)
	add("mixed-node3", 3, D, D, mixed, rs)
	add("any-node2", 2, D, D, append(ints(5), datatypes.Any()), few)
	add("any-node3", 3, D, D, append(ints(6), datatypes.Any()), few)
	// deeper trees: from larger populations, in different orders of creation, every few operations
	for _, x := range []struct{ node, lo, hi int }{{2, 15, 19}, {3, 20, 24}, {4, 27, 29}, {5, 37, 38}} {
		for n := x.lo; n <= x.hi; n++ {
			c := &config{node: x.node, keys: ints(n), rs: few[:1], load: orders(n)}
			s := hx.Explicit("P01", fmt.Sprintf("bt/deep-node%d-%d", x.node, n), 3, 4, mk(c))
			if n > x.lo+1 || n > 37 {
				s.Only = "thorough"
			}
		}
	}
	add("ints-node2-big", 2, D, D, ints(9), few).Only = "thorough"
	add("ints-node4-big", 4, D, D, ints(10), few).Only = "thorough"
	add("any-node2-big", 2, D, D, append(ints(8), datatypes.Any()), few).Only = "thorough"
}

// orders are the orders of creation of n keys of which about an eighth is left out.
func orders(n int) [][]int {
	skip := func(k int) bool { return k%8 == 3 }
	var up, down, outer, inner, alt []int
	for k := 0; k < n; k++ {
		up = append(up, k)
		down = append(down, n-1-k)
		if k%2 == 0 {
			outer = append(outer, k/2)
		} else {
			outer = append(outer, n-1-k/2)
		}
	}
	for i := range outer {
		inner = append(inner, outer[n-1-i])
	}
	for st := 0; st < 4; st++ {
		for k := st; k < n; k += 4 {
			alt = append(alt, k)
		}
	}
	var all [][]int
	for _, o := range [][]int{up, down, outer, inner, alt} {
		var a, b []int
		for _, k := range o {
			if !skip(k) {
				a = append(a, k)
			}
			b = append(b, k)
		}
		// the same keys, once created as such and once left over by deletions
		for _, k := range o {
			if skip(k) {
				b = append(b, -1-k)
			}
		}
		all = append(all, a, b)
	}
	return all
}

func main() { hx.Main() }
