package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// cw is one concurrent run.
type cw struct {
	h   *hx.H
	t   btree.BTree
	gen int
	o   vs.Obj
}

// res is the outcome of one call.
type res struct {
	err  string
	made int   // creation callbacks run
	saw  []int // values seen by callbacks (generation), in order
	keys []int // keys seen by a traversal
}

func (r res) String() string {
	s := ""
	if r.err != "" {
		s = "error " + r.err
	}
	if r.made > 0 {
		s += " created"
	}
	if len(r.saw) > 0 {
		s += fmt.Sprint(" saw ", r.saw)
	}
	if len(r.keys) > 0 {
		s += fmt.Sprint(" keys ", r.keys)
	}
	if s == "" {
		s = "nothing"
	}
	return s
}

type call struct {
	op   string
	k    int
	gen  int
	stop bool // traversal stops after the first key
}

func (c call) String() string { return fmt.Sprintf("%d #%d", c.k, c.gen) }

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, btree.ErrorKeyAlreadyExists):
		return "exists"
	case errors.Is(err, btree.ErrorKeyDestroying):
		return "key-destroying"
	case errors.Is(err, btree.ErrorTreeDestroying):
		return "tree-destroying"
	}
	return "?" + err.Error()
}

type op struct {
	name string
	k    int
}

func (w *cw) do(o op) {
	w.h.Sync()
	w.gen++
	c := call{op: o.name, k: o.k, gen: w.gen}
	v := &val{o.k, w.gen}
	key := datatypes.Int(o.k)
	w.h.Do(o.name, c, func() any {
		var r res
		create := func() any { vs.Point("callback"); r.made++; return v }
		decline := func() any { vs.Point("callback"); r.made++; return nil }
		find := func(x any) { vs.Point("callback"); r.saw = append(r.saw, x.(*val).gen) }
		can := func(ok bool) btree.BTreeRemove {
			return func(kk datatypes.EncapsulatedValue, x any) bool {
				vs.Point("callback")
				r.saw = append(r.saw, x.(*val).gen)
				return ok
			}
		}
		visit := func(kk datatypes.EncapsulatedValue, x any) bool {
			vs.Point("callback")
			r.keys = append(r.keys, kk.Data.(int))
			r.saw = append(r.saw, x.(*val).gen)
			return true
		}
		all := rng(datatypes.MinDataType, datatypes.MaxDataType)
		var err error
		switch o.name {
		case "create":
			err = w.t.Create(key, create)
		case "create-declined":
			err = w.t.Create(key, decline)
		case "find-or-create":
			err = w.t.CreateOrFind(key, create, find)
		case "find-or-create-declined":
			err = w.t.CreateOrFind(key, decline, find)
		case "delete":
			err = w.t.Delete(key, can(true))
		case "delete-refused":
			err = w.t.Delete(key, can(false))
		case "destroy":
			err = w.t.Destroy(key, can(true))
		case "destroy-refused":
			err = w.t.Destroy(key, can(false))
		case "destroy-all":
			err = w.t.DestroyAll(visit)
		case "find":
			err = w.t.Find(key, all, func(kk datatypes.EncapsulatedValue, x any) bool { find(x); return true })
		case "all":
			err = w.t.Find(datatypes.Any(), all, visit)
		case "first":
			err = w.t.Find(datatypes.Any(), all, func(kk datatypes.EncapsulatedValue, x any) bool { visit(kk, x); return false })
		case "not-equal":
			err = w.t.FindNotEqual(key, all, visit)
		case "less":
			err = w.t.FindLessThan(key, all, visit)
		case "less-or-equal":
			err = w.t.FindLessThanOrEqual(key, all, visit)
		case "greater":
			err = w.t.FindGreaterThan(key, all, visit)
		case "greater-or-equal":
			err = w.t.FindGreaterThanOrEqual(key, all, visit)
		case "empty":
			if w.t.Empty() {
				r.made = 1
			}
		default:
			panic(o.name)
		}
		r.err = errName(err)
		return r
	})
}

func isTraversal(n string) bool {
	switch n {
	case "all", "first", "not-equal", "less", "less-or-equal", "greater", "greater-or-equal":
		return true
	}
	return false
}

func inQuery(n string, k, x int) bool {
	switch n {
	case "not-equal":
		return x != k
	case "less":
		return x < k
	case "less-or-equal":
		return x <= k
	case "greater":
		return x > k
	case "greater-or-equal":
		return x >= k
	}
	return true
}

type cstate map[int]int // key -> generation

func (s cstate) key() string {
	var l []string
	for k, g := range s {
		l = append(l, fmt.Sprintf("%d:%d", k, g))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func overlaps(a, b *hx.Op) bool { return a.Inv < b.Ret && b.Inv < a.Ret }

// judge checks the finished history against the sorted map.
func (w *cw) judge(init cstate) {
	hist := w.h
	// errors about destruction only next to the destruction they name
	for _, o := range hist.Ops {
		r := o.Res.(res)
		c := o.Arg.(call)
		switch r.err {
		case "", "exists":
		case "key-destroying":
			ok := false
			for _, d := range hist.Ops {
				if d != o && strings.HasPrefix(d.Name, "destroy") && d.Name != "destroy-all" && d.Arg.(call).k == c.k && overlaps(o, d) {
					ok = true
				}
			}
			if !ok {
				hx.Fail("refused as key-destroying without a reason", "%s\n%s", o.Name, hist.History())
			}
		case "tree-destroying":
			ok := false
			for _, d := range hist.Ops {
				if d != o && d.Name == "destroy-all" && overlaps(o, d) {
					ok = true
				}
			}
			if !ok {
				hx.Fail("refused as tree-destroying without a reason", "%s\n%s", o.Name, hist.History())
			}
		default:
			hx.Fail("unexpected error", "%s: %s\n%s", o.Name, r.err, hist.History())
		}
		if r.err != "" && (r.made > 0 || len(r.saw) > 0) {
			hx.Fail("a refused call ran its callbacks", "%s\n%s", o.Name, hist.History())
		}
	}
	// traversals: judged against what is present around them
	var lin []*hx.Op
	for _, o := range hist.Ops {
		if !isTraversal(o.Name) {
			lin = append(lin, o)
		}
	}
	for _, o := range hist.Ops {
		if isTraversal(o.Name) && o.Res.(res).err == "" {
			w.judgeTraversal(init, o, lin)
		}
	}
	all := hist.Ops
	hist.Ops = lin
	ok := hist.Linearizable(init, func(s any) string { return s.(cstate).key() }, func(s any, o *hx.Op) (any, bool) {
		return cstep(s.(cstate), o)
	})
	hist.Ops = all
	if !ok {
		hx.Fail("not linearizable", "initial %v\n%s", init, hist.History())
	}
}

func with(s cstate, k, g int) cstate {
	n := cstate{}
	for a, b := range s {
		n[a] = b
	}
	if g == 0 {
		delete(n, k)
	} else {
		n[k] = g
	}
	return n
}

func cstep(s cstate, o *hx.Op) (any, bool) {
	c, r := o.Arg.(call), o.Res.(res)
	if strings.HasSuffix(r.err, "destroying") {
		return s, true
	}
	old := s[c.k]
	saw := func(g int) bool { return len(r.saw) == 1 && r.saw[0] == g && r.made == 0 }
	none := len(r.saw) == 0
	switch o.Name {
	case "create", "create-declined":
		if old != 0 {
			return s, r.err == "exists" && none && r.made == 0
		}
		if r.err != "" || r.made != 1 || !none {
			return nil, false
		}
		if o.Name == "create" {
			return with(s, c.k, c.gen), true
		}
		return s, true
	case "find-or-create", "find-or-create-declined":
		if r.err != "" {
			return nil, false
		}
		if old != 0 {
			return s, saw(old)
		}
		if r.made != 1 || !none {
			return nil, false
		}
		if o.Name == "find-or-create" {
			return with(s, c.k, c.gen), true
		}
		return s, true
	case "delete", "destroy", "delete-refused", "destroy-refused":
		if r.err != "" {
			return nil, false
		}
		if old == 0 {
			return s, none
		}
		if !saw(old) {
			return nil, false
		}
		if strings.HasSuffix(o.Name, "refused") {
			return s, true
		}
		return with(s, c.k, 0), true
	case "find":
		if old == 0 {
			return s, none
		}
		return s, saw(old)
	case "empty":
		return s, (r.made == 1) == (len(s) == 0)
	case "destroy-all":
		if len(r.keys) != len(s) {
			return nil, false
		}
		seen := map[int]bool{}
		for i, k := range r.keys {
			if s[k] != r.saw[i] || seen[k] {
				return nil, false
			}
			seen[k] = true
		}
		return cstate{}, true
	}
	panic(o.Name)
}

// judgeTraversal: a key whose presence no overlapping call can have changed is visited exactly when it is present,
// with its value; no key is visited twice; other keys may or may not be visited.
func (w *cw) judgeTraversal(init cstate, t *hx.Op, lin []*hx.Op) {
	c, r := t.Arg.(call), t.Res.(res)
	seen := map[int]int{}
	for i, k := range r.keys {
		if seen[k] != 0 {
			hx.Fail("a traversal visited a key twice", "%d\n%s", k, w.h.History())
		}
		seen[k] = r.saw[i]
		if !inQuery(t.Name, c.k, k) {
			hx.Fail("a traversal visited a key that does not match", "%d\n%s", k, w.h.History())
		}
	}
	if t.Name == "first" {
		if len(r.keys) > 1 {
			hx.Fail("a stopped traversal continued", "%s", w.h.History())
		}
		// one visited at most; none only if the index may have been empty
	}
	keys := map[int]bool{}
	for k := range init {
		keys[k] = true
	}
	for _, o := range lin {
		keys[o.Arg.(call).k] = true
	}
	stable := 0
	for k := range keys {
		// possible values of k during the traversal
		poss := map[int]bool{}
		surelyIn, surelyOut := true, true
		// values: initial and every creation that began before the traversal ended
		cur := map[int]bool{init[k]: true}
		for _, o := range lin {
			if o.Inv > t.Ret {
				continue
			}
			oc, or := o.Arg.(call), o.Res.(res)
			if o.Name == "destroy-all" && or.err == "" || oc.k == k {
				switch o.Name {
				case "create", "find-or-create":
					if or.made == 1 && or.err == "" {
						cur[oc.gen] = true
					}
				case "delete", "destroy", "destroy-all":
					cur[0] = true
				}
			}
		}
		for g := range cur {
			if g == 0 {
				surelyIn = false
			} else {
				surelyOut = false
				poss[g] = true
			}
		}
		// a removal that ended before the traversal began leaves the key out, if nothing re-creates it later
		if g, ok := seen[k]; ok && (surelyOut || !poss[g]) {
			hx.Fail("a traversal visited a missing key", "%d\n%s", k, w.h.History())
		}
		if surelyIn && inQuery(t.Name, c.k, k) && len(cur) == 1 {
			stable++
			if t.Name != "first" {
				if _, ok := seen[k]; !ok {
					hx.Fail("a traversal missed a key", "%d\n%s", k, w.h.History())
				}
			}
		}
	}
	if t.Name == "first" && len(r.keys) == 0 && stable > 0 {
		hx.Fail("a traversal missed a key", "%s", w.h.History())
	}
}

// conc builds a tree, runs the given threads and judges.
func conc(node int, build []int, threads ...[]op) {
	t, err := btree.NewThreadSafe(node)
	if err != nil {
		hx.Fail("construction failed", "%v", err)
	}
	w := &cw{h: hx.New(), t: t}
	init := cstate{}
	for _, k := range build {
		w.gen++
		v := &val{abs(k), w.gen}
		if k < 0 { // removed again: gives the other shapes
			_ = t.Delete(datatypes.Int(-k), nil)
			delete(init, -k)
			continue
		}
		if err := t.Create(datatypes.Int(k), func() any { return v }); err != nil {
			hx.Fail("setup failed", "%v", err)
		}
		init[k] = v.gen
	}
	for i, ops := range threads {
		ops := ops
		w.h.Go(fmt.Sprintf("t%d", i+1), func() {
			for _, o := range ops {
				w.do(o)
			}
		})
	}
	w.h.Wait()
	// what is left at the end, observed by sequential calls that are part of the history
	w.do(op{"all", 0})
	keys := map[int]bool{}
	for k := range init {
		keys[k] = true
	}
	for _, ops := range threads {
		for _, o := range ops {
			keys[o.k] = true
		}
	}
	var l []int
	for k := range keys {
		l = append(l, k)
	}
	sort.Ints(l)
	for _, k := range l {
		w.do(op{"find", k})
		// nothing may be left marked or locked
		w.do(op{"find-or-create-declined", k})
		w.do(op{"destroy-refused", k})
	}
	w.do(op{"empty", 0})
	w.do(op{"destroy-all", 0})
	for _, k := range l {
		w.do(op{"create", k})
	}
	w.do(op{"empty", 0})
	w.judge(init)
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// shapes: initial trees by node size 2 (max 2 values per node, 3 children)
var shapes = [][]int{
	{},
	{10},
	{10, 20},
	{10, 20, 30},
	{10, 20, 30, 40},
	{10, 20, 30, 40, 50},
	{30, 20, 10, 25, 5},
	{10, 20, 30, 40, 50, 60, 70},
	{70, 60, 50, 40, 30, 20, 10, 65},
	{10, 20, 30, 40, 50, 60, 70, 80, -10, -80},
}

// writers are the mutating calls tried on a shape: keys below, between, above and each stored key
func writers(shape []int, more bool) []op {
	var l []op
	present := map[int]bool{}
	for _, k := range shape {
		if k > 0 {
			present[k] = true
		} else {
			delete(present, -k)
		}
	}
	var ks []int
	for k := range present {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	abs := []int{1}
	if len(ks) > 0 {
		abs = append(abs, ks[len(ks)/2]+1, ks[len(ks)-1]+1)
	}
	for _, k := range abs {
		l = append(l, op{"create", k})
	}
	l = append(l, op{"create-declined", abs[len(abs)/2]}, op{"find-or-create", abs[0]})
	del := ks
	if len(ks) > 4 {
		del = []int{ks[0], ks[1], ks[len(ks)/2], ks[len(ks)-1]}
	}
	for _, k := range del {
		l = append(l, op{"delete", k})
	}
	if len(ks) > 0 {
		l = append(l, op{"create", ks[len(ks)/2]}, op{"find-or-create", ks[0]}, op{"destroy", ks[len(ks)/2]}, op{"delete-refused", ks[0]})
	}
	if more {
		l = append(l, op{"destroy-all", 0})
	}
	return l
}

func readers(shape []int) []op {
	k := 1
	if len(shape) > 0 {
		k = abs(shape[len(shape)/2])
	}
	return []op{{"find", k}, {"all", 0}, {"first", 0}, {"not-equal", k}, {"less", k + 5}, {"less-or-equal", k}, {"greater", k}, {"greater-or-equal", k}, {"empty", 0}}
}

func init() {
	hx.Sched("P02", "btc/two-writers", 2, 3, func() {
		s := shapes[vs.Choose(len(shapes))]
		ws := writers(s, true)
		a := vs.Choose(len(ws))
		b := a + vs.Choose(len(ws)-a)
		conc(2, s, []op{ws[a]}, []op{ws[b]})
	})
	hx.Sched("P02", "btc/writer-reader", 2, 3, func() {
		s := shapes[vs.Choose(len(shapes))]
		ws := writers(s, true)
		rs := readers(s)
		conc(2, s, []op{ws[vs.Choose(len(ws))]}, []op{rs[vs.Choose(len(rs))]})
	})
	hx.Sched("P02", "btc/two-writers-reader", 1, 2, func() {
		s := shapes[vs.Choose(len(shapes))]
		ws := writers(s, false)
		rs := readers(s)[:3]
		a := vs.Choose(len(ws))
		b := a + vs.Choose(len(ws)-a)
		conc(2, s, []op{ws[a]}, []op{ws[b]}, []op{rs[vs.Choose(len(rs))]})
	})
	hx.Sched("P02", "btc/same-key", 2, 3, func() {
		s := [][]int{{}, {10}, {20}, {10, 20, 30}, {5, 20, 30}}[vs.Choose(5)]
		ops := []op{{"create", 10}, {"create-declined", 10}, {"find-or-create", 10}, {"delete", 10}, {"destroy", 10}, {"destroy-refused", 10}}
		a := vs.Choose(len(ops))
		b := a + vs.Choose(len(ops)-a)
		c := b + vs.Choose(len(ops)-b)
		conc(2, s, []op{ops[a]}, []op{ops[b]}, []op{ops[c]})
	})
	hx.Sched("P02", "btc/two-ops-each", 1, 2, func() {
		s := [][]int{{10}, {10, 20, 30}, {10, 20, 30, 40, 50}}[vs.Choose(3)]
		ops := []op{{"create", 15}, {"create", 35}, {"delete", 10}, {"delete", 20}, {"find-or-create", 25}, {"all", 0}}
		pick := func() []op { return []op{ops[vs.Choose(len(ops))], ops[vs.Choose(len(ops))]} }
		conc(2, s, pick(), pick())
	})
	hx.Sched("P02", "btc/destroy-all", 3, 4, func() {
		s := [][]int{{}, {10}, {10, 20, 30}, {10, 20, 30, 40, 50}}[vs.Choose(4)]
		ops := []op{{"create", 15}, {"create", 20}, {"delete", 10}, {"find-or-create", 25}, {"find-or-create", 10}, {"all", 0}, {"find", 10}, {"destroy", 10}, {"destroy-all", 0}, {"not-equal", 10}}
		a := vs.Choose(len(ops))
		b := a + vs.Choose(len(ops)-a)
		conc(2, s, []op{{"destroy-all", 0}}, []op{ops[a]}, []op{ops[b]})
	})
	hx.Sched("P02", "btc/destroys", 2, 3, func() {
		s := [][]int{{10, 20}, {10, 20, 30, 40}}[vs.Choose(2)]
		first := []op{{"destroy", 10}, {"destroy-refused", 10}}
		second := []op{{"destroy", 20}, {"destroy-refused", 20}}
		third := []op{{"create", 10}, {"create", 20}, {"find-or-create", 10}, {"destroy", 10}, {"delete", 10}, {"create", 15}}
		conc(2, s, []op{first[vs.Choose(2)]}, []op{second[vs.Choose(2)]}, []op{third[vs.Choose(len(third))]})
	})
	hx.Sched("P02", "btc/node3", 2, 3, func() {
		s := [][]int{{10, 20, 30}, {10, 20, 30, 40}, {10, 20, 30, 40, 50, 60, 70}}[vs.Choose(3)]
		ws := writers(s, false)
		ws = append(ws, readers(s)...)
		a := vs.Choose(len(ws))
		b := a + vs.Choose(len(ws)-a)
		conc(3, s, []op{ws[a]}, []op{ws[b]})
	})
	// trees of four and five levels: every pair of deletions, with creations and
	// readers, so that merges and rotations of inner nodes meet each other
	hx.Sched("P02", "btc/deep", 1, 2, func() {
		s := deep[vs.Choose(len(deep))]
		var ops []op
		for k := 10; k <= len(s)*10; k += 10 {
			ops = append(ops, op{"delete", k})
		}
		ops = append(ops, op{"create", 1}, op{"create", len(s)*5 + 1}, op{"create", len(s)*10 + 1}, op{"find", len(s) / 2 * 10}, op{"all", 0}, op{"greater", len(s) * 5})
		a := vs.Choose(len(ops))
		b := a + vs.Choose(len(ops)-a)
		conc(2, s, []op{ops[a]}, []op{ops[b]})
	})
	hx.Sched("P02", "btc/deep-two-each", 0, 1, func() {
		s := deep[vs.Choose(len(deep))]
		pick := func() []op {
			return []op{{"delete", 10 * (1 + vs.Choose(len(s)))}, {"delete", 10 * (1 + vs.Choose(len(s)))}}
		}
		conc(2, s, pick(), []op{{"delete", 10 * (1 + vs.Choose(len(s)))}})
	})
}

// deep: initial trees of node size 2 with four and more levels
var deep = [][]int{seqKeys(15, false), seqKeys(15, true), seqKeys(19, false)}

func seqKeys(n int, down bool) (l []int) {
	for i := 1; i <= n; i++ {
		k := i * 10
		if down {
			k = (n + 1 - i) * 10
		}
		l = append(l, k)
	}
	return l
}
