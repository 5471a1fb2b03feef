package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
)

// ------------------------------------------------------------------ a lock service with contention

// service grants each set of key-values to one client at a time, first come first served is not promised.
type service struct {
	toks map[string]chan struct{}
	held []*svcLock // granted, neither released nor lost
	lost bool       // some lock was lost
}

type svcLock struct {
	s        *service
	kv       string
	tok      chan struct{}
	done     chan struct{}
	released bool
	gone     bool
}

func (s *service) Healthy() error { return nil }

func (s *service) ObtainLock(ctx vctx.Context, r *v1locker.Lock, cb func(datatypes.KeyValues, error)) (lockerclient.Lock, error) {
	if err := r.ValidateSpecOnly(); err != nil {
		hx.Fail("an invalid lock was requested", "%v", err)
	}
	kv := show(kvs(r.Spec.DBDefinition.KeyValues))
	tok := s.toks[kv]
	if tok == nil {
		tok = vs.Make(make(chan struct{}, 1))
		s.toks[kv] = tok
	}
	// a canceled request may still win the lock
	switch vs.Select(false, vs.NewSendOf(tok).Val(struct{}{}), vs.NewRecv(ctx.Done())) {
	case 1:
		return nil, nil
	}
	l := &svcLock{s: s, kv: kv, tok: tok, done: vs.Make(make(chan struct{}))}
	s.held = append(s.held, l)
	return l, nil
}

func (l *svcLock) Done() <-chan struct{} { return l.done }

func (l *svcLock) Release(vctx.Context) error {
	if l.released {
		hx.Fail("a lock is released twice", "%s", l.kv)
	}
	l.released = true
	if l.gone {
		return fmt.Errorf("already released the lock")
	}
	l.drop()
	vs.Close(l.done)
	vs.Recv(l.tok)
	return nil
}

func (l *svcLock) drop() {
	l.gone = true
	for i, x := range l.s.held {
		if x == l {
			l.s.held = append(l.s.held[:i], l.s.held[i+1:]...)
			return
		}
	}
}

// lose takes a held lock away from its client.
func (s *service) lose(i int) {
	if i >= len(s.held) {
		return
	}
	l := s.held[i]
	s.lost = true
	l.drop()
	vs.Close(l.done)
	vs.Recv(l.tok)
}

// ------------------------------------------------------------------ histories of concurrent calls

type version struct {
	m  map[int]*mrule // rules in force
	op *hx.Op         // what ended it
}

type cworld struct {
	cf   *config
	h    *hx.H
	l    *limiter
	s    *service
	init *model
}

type creq struct {
	ci, n  int
	key    string
	cancel bool
}

func (r creq) String() string { return fmt.Sprintf("c%d %+d", r.ci, r.n) }

type cres struct {
	code int // 0 accepted
	val  int // read: -1 absent
	msg  string
}

func (r cres) String() string { return fmt.Sprint(r.code, r.val) }

func codeOf(e *errors.ServerError) cres {
	if e == nil {
		return cres{}
	}
	return cres{code: e.StatusCode, msg: e.Message}
}

// cmk builds the limiter with rules (index -> limit), overrides ({rule, override} -> limit), counters.
func cmk(cf *config, rl map[int]int64, ov map[[2]int]int64, ct map[int]int64) *cworld {
	w := &cworld{cf: cf, h: hx.New(), l: newLimiter(), s: &service{toks: map[string]chan struct{}{}}}
	w.init = &model{rules: map[int]*mrule{}, counters: map[int]int64{}}
	for ri := range cf.rules {
		if n, ok := rl[ri]; ok {
			id, err := w.l.createRule(cf.rules[ri], n)
			accepted(err, "create rule")
			w.init.rules[ri] = &mrule{limit: n, id: id, ovr: map[int]*movr{}}
			for oi := range cf.ovrs {
				if n, ok := ov[[2]int{ri, oi}]; ok {
					oid, err := w.l.createOverride(id, cf.ovrs[oi], n)
					accepted(err, "create override")
					w.init.rules[ri].ovr[oi] = &movr{limit: n, id: oid}
				}
			}
		}
	}
	for ci := range cf.ctrs {
		if n, ok := ct[ci]; ok {
			accepted(w.l.c.SetCounter(w.l.base, counter(cf.ctrs[ci], n)), "set")
			w.init.counters[ci] = n
		}
	}
	return w
}

func (w *cworld) count(ci, n int) { w.countCtx(ci, n, w.l.base, false) }

func (w *cworld) countCtx(ci, n int, ctx vctx.Context, canceled bool) {
	w.h.Do("count", creq{ci: ci, n: n, cancel: canceled}, func() any {
		// every request has its own lock client and context
		ctx, cancel := vctx.WithCancel(ctx)
		err := w.l.update(ctx, w.s, w.cf.ctrs[ci], int64(n))
		cancel()
		return codeOf(err)
	})
}

func (w *cworld) set(ci, n int) {
	w.h.Do("set", creq{ci: ci, n: n}, func() any {
		return codeOf(w.l.c.SetCounter(w.l.base, counter(w.cf.ctrs[ci], int64(n))))
	})
}

// query reads the counters; each one is judged as a read of its own with the interval of the call.
func (w *cworld) query() {
	var ops []*hx.Op
	for ci := range w.cf.ctrs {
		ops = append(ops, w.h.Begin("read", creq{ci: ci}))
	}
	cs, err := w.l.c.QueryCounters(w.l.base, everything())
	vals := map[int]int{}
	if err == nil {
		for _, c := range cs {
			for ci := range w.cf.ctrs {
				if same(kvs(c.Spec.DBDefinition.KeyValues), w.cf.ctrs[ci]) {
					if _, dup := vals[ci]; dup {
						hx.Fail("a counter was returned twice", "%s\n%s", show(w.cf.ctrs[ci]), w.h.History())
					}
					vals[ci] = int(*c.Spec.Properties.Counters)
				}
			}
		}
		if len(vals) != len(cs) {
			hx.Fail("an unknown counter was returned", "%d of %d\n%s", len(vals), len(cs), w.h.History())
		}
	}
	for ci, o := range ops {
		r := codeOf(err)
		r.val = -1
		if v, ok := vals[ci]; ok {
			r.val = v
		}
		w.h.End(o, r)
	}
}

func (w *cworld) rule(name string, ri, oi int, n int64) {
	w.h.Do(name, creq{ci: ri, n: int(n), key: fmt.Sprint(oi)}, func() any {
		cf := w.cf
		id := ""
		if r := w.init.rules[ri]; r != nil {
			id = r.id
		}
		switch name {
		case "create-rule":
			_, err := w.l.createRule(cf.rules[ri], n)
			return codeOf(err)
		case "update-rule":
			return codeOf(w.l.r.UpdateRule(w.l.base, id, &v1limiter.RuleProperties{Limit: limit(n)}))
		case "delete-rule":
			return codeOf(w.l.r.DeleteRule(w.l.base, id))
		case "create-override":
			_, err := w.l.createOverride(id, cf.ovrs[oi], n)
			return codeOf(err)
		case "update-override":
			return codeOf(w.l.r.UpdateOverride(w.l.base, id, w.init.rules[ri].ovr[oi].id, &v1limiter.OverrideProperties{Limit: limit(n)}))
		case "delete-override":
			return codeOf(w.l.r.DeleteOverride(w.l.base, id, w.init.rules[ri].ovr[oi].id))
		}
		panic(name)
	})
}

// cstate is one sequential state: the counters, and every set of rules that was in force so far.
type cstate struct {
	c    map[int]int64
	vers []version
}

func (s cstate) key() string {
	var l []string
	for ci, n := range s.c {
		l = append(l, fmt.Sprint(ci, "=", n))
	}
	sort.Strings(l)
	k := strings.Join(l, ",")
	for _, v := range s.vers {
		k += "|" + rulesKey(v.m)
	}
	return k
}

func rulesKey(m map[int]*mrule) string {
	var l []string
	for ri, r := range m {
		l = append(l, fmt.Sprint("r", ri, "=", r.limit))
		for oi, o := range r.ovr {
			l = append(l, fmt.Sprint("o", ri, ".", oi, "=", o.limit))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func copyRules(m map[int]*mrule) map[int]*mrule {
	n := map[int]*mrule{}
	for ri, r := range m {
		x := &mrule{limit: r.limit, id: r.id, ovr: map[int]*movr{}}
		for oi, o := range r.ovr {
			y := *o
			x.ovr[oi] = &y
		}
		n[ri] = x
	}
	return n
}

func (w *cworld) step(st cstate, o *hx.Op) (any, bool) {
	a := o.Arg.(creq)
	r := o.Res.(cres)
	put := func(n int64) cstate {
		c := map[int]int64{}
		for k, v := range st.c {
			c[k] = v
		}
		if n > 0 {
			c[a.ci] = n
		} else {
			delete(c, a.ci)
		}
		return cstate{c, st.vers}
	}
	switch o.Name {
	case "count":
		if a.n <= 0 {
			if r.code != 0 {
				return nil, false
			}
			if n, ok := st.c[a.ci]; ok {
				return put(n + int64(a.n)), true
			}
			return st, true
		}
		if r.code == http.StatusInternalServerError {
			// only without the locks
			return st, a.cancel || w.s.lost
		}
		if r.code != 0 && r.code != http.StatusConflict {
			return nil, false
		}
		next := st
		if r.code == 0 {
			next = put(st.c[a.ci] + int64(a.n))
		}
		if w.s.lost && r.code == 0 {
			return next, true
		}
		// judged by limits that were in force at some time of the call
		for i := len(st.vers) - 1; i >= 0; i-- {
			v := st.vers[i]
			if v.op != nil && v.op.Ret < o.Inv && v.op.Ret != 0 {
				break
			}
			m := &model{rules: v.m, counters: st.c}
			if m.admits(w.cf, a.ci, int64(a.n)) == (r.code == 0) {
				return next, true
			}
		}
		return nil, false
	case "set":
		if r.code != 0 {
			return nil, false
		}
		return put(int64(a.n)), true
	case "read":
		if r.code != 0 {
			return nil, false
		}
		n, ok := st.c[a.ci]
		return st, ok && int64(r.val) == n || !ok && r.val == -1
	}
	// changes of the rules
	cur := st.vers[len(st.vers)-1].m
	m := copyRules(cur)
	var oi int
	fmt.Sscan(a.key, &oi)
	rl := m[a.ci]
	want := 0
	destroying := false
	for _, d := range w.h.Ops {
		if d != o && d.Name == "delete-rule" && d.Arg.(creq).ci == a.ci && d.Inv < o.Ret && o.Inv < d.Ret {
			destroying = true
		}
	}
	if r.code == http.StatusConflict && destroying {
		// refused while the rule is being deleted
		return st, true
	}
	switch o.Name {
	case "create-rule":
		if rl != nil {
			want = http.StatusConflict
		} else {
			m[a.ci] = &mrule{limit: int64(a.n), ovr: map[int]*movr{}}
		}
	case "update-rule":
		if rl == nil {
			want = http.StatusNotFound
		} else {
			rl.limit = int64(a.n)
		}
	case "delete-rule":
		if rl == nil {
			want = http.StatusNotFound
		}
		delete(m, a.ci)
	case "create-override":
		if rl == nil {
			want = http.StatusNotFound
		} else if rl.ovr[oi] != nil {
			want = http.StatusConflict
		} else {
			rl.ovr[oi] = &movr{limit: int64(a.n)}
		}
	case "update-override":
		if rl == nil || rl.ovr[oi] == nil {
			want = http.StatusNotFound
		} else {
			rl.ovr[oi].limit = int64(a.n)
		}
	case "delete-override":
		if rl == nil {
			want = http.StatusNotFound
		} else {
			delete(rl.ovr, oi)
		}
	default:
		panic(o.Name)
	}
	if r.code != want {
		return nil, false
	}
	if want != 0 {
		return st, true
	}
	vers := append(append([]version(nil), st.vers[:len(st.vers)-1]...), version{cur, o}, version{m, nil})
	return cstate{st.c, vers}, true
}

func (w *cworld) finish() {
	w.h.Wait()
	h := w.h
	if len(w.s.held) != 0 {
		hx.Fail("a lock is still held after all increments", "%s\n%s", w.s.held[0].kv, h.History())
	}
	w.query()
	// rules at the end, by what every read path reports
	rop := h.Begin("rules", creq{})
	h.End(rop, cres{msg: w.stored()})
	ok := h.Linearizable(cstate{w.init.counters, []version{{w.init.rules, nil}}}, func(s any) string { return s.(cstate).key() }, func(s any, o *hx.Op) (any, bool) {
		st := s.(cstate)
		if o.Name == "rules" {
			return st, rulesKey(st.vers[len(st.vers)-1].m) == o.Res.(cres).msg
		}
		return w.step(st, o)
	})
	if !ok {
		var l []string
		for ri, r := range w.init.rules {
			l = append(l, fmt.Sprintf("r%d %s limit %d", ri, show(w.cf.rules[ri]), r.limit))
			for oi, o := range r.ovr {
				l = append(l, fmt.Sprintf("o%d %s limit %d", oi, show(w.cf.ovrs[oi]), o.limit))
			}
		}
		for ci, c := range w.cf.ctrs {
			l = append(l, fmt.Sprintf("c%d %s = %d", ci, show(c), w.init.counters[ci]))
		}
		hx.Fail("not linearizable", "%s\nat the end %s\n%s", strings.Join(l, "\n"), w.stored(), h.History())
	}
}

// stored renders the rules the limiter reports.
func (w *cworld) stored() string {
	m := map[int]*mrule{}
	rs, err := w.l.r.QueryRules(w.l.base, everything())
	if err != nil {
		hx.Fail("query of rules refused", "%v", err)
	}
	for _, r := range rs {
		for ri := range w.cf.rules {
			if same(kvs(r.Spec.DBDefinition.GroupByKeyValues), w.cf.rules[ri]) {
				x := &mrule{limit: *r.Spec.Properties.Limit, ovr: map[int]*movr{}}
				if m[ri] != nil {
					hx.Fail("a rule was returned twice", "%s", show(w.cf.rules[ri]))
				}
				m[ri] = x
				os, err := w.l.r.QueryOverrides(w.l.base, r.State.ID, everything())
				if err != nil {
					hx.Fail("query of overrides refused", "%v", err)
				}
				for _, o := range os {
					for oi := range w.cf.ovrs {
						if same(kvs(o.Spec.DBDefinition.GroupByKeyValues), w.cf.ovrs[oi]) {
							x.ovr[oi] = &movr{limit: *o.Spec.Properties.Limit}
						}
					}
				}
				if len(os) != len(x.ovr) {
					hx.Fail("an override was returned twice", "%s", show(w.cf.rules[ri]))
				}
			}
		}
	}
	if len(rs) != len(m) {
		hx.Fail("an unknown rule was returned", "%d", len(rs))
	}
	for ri, r := range w.init.rules {
		if m[ri] == nil && r.id != "" {
			os, err := w.l.o.QueryOverrides(w.l.base, r.id, everything())
			if err != nil || len(os) != 0 {
				hx.Fail("a deleted rule left overrides behind", "%d %v", len(os), err)
			}
		}
	}
	return rulesKey(m)
}

func lockOf(kv kvs) *v1locker.Lock {
	d := time.Second
	return &v1locker.Lock{Spec: &v1locker.LockSpec{
		DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.KeyValues(kv)},
		Properties:   &v1locker.LockProperties{Timeout: &d},
	}}
}

func csc(props, name string, q, t int, body func()) *hx.Scen {
	return hx.Sched(props, "lm/"+name, q, t, body)
}

func init() {
	oneRule := &config{rules: []kvs{a("a", "*")}, ctrs: []kvs{a("a", 1), a("a", 1, "b", 1), a("a", 1, "b", 2)}}
	// the last free place of a group
	csc("P11", "two-increments", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: 2}, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.count(2, 1) })
		w.finish()
	})
	csc("P11", "same-counter", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: 1}, nil, nil)
		w.h.Go("c1", func() { w.count(0, 1); w.count(0, -1) })
		w.h.Go("c2", func() { w.count(0, 1) })
		w.finish()
	})
	csc("P11", "three-increments", 2, 3, func() {
		w := cmk(oneRule, map[int]int64{0: 2}, nil, map[int]int64{})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.count(2, 1) })
		w.h.Go("c3", func() { w.count(0, 1) })
		w.finish()
	})
	// counters with several key-values lock them in the same order
	two := &config{rules: []kvs{a("a", "*"), a("b", "*")}, ctrs: []kvs{a("a", 1, "b", 1), a("b", 1, "c", 1), a("a", 1, "c", 1), a("a", 1, "b", 1, "c", 1)}}
	csc("P11", "two-limits", 3, 4, func() {
		w := cmk(two, map[int]int64{0: 2, 1: 2}, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.count(2, 1) })
		w.finish()
	})
	csc("P11", "ring", 2, 3, func() {
		w := cmk(two, map[int]int64{0: 2, 1: 2}, nil, nil)
		w.h.Go("c1", func() { w.count(0, 1) })
		w.h.Go("c2", func() { w.count(1, 1) })
		w.h.Go("c3", func() { w.count(2, 1) })
		w.finish()
	})
	// decrements and queries take no locks
	csc("P11", "decrement", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: 2}, nil, map[int]int64{0: 1, 1: 1})
		w.h.Go("c1", func() { w.count(2, 1) })
		w.h.Go("c2", func() { w.count(0, -1); w.count(0, 1) })
		w.finish()
	})
	csc("P11", "decrement-removes", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: 2}, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(0, 1) })
		w.h.Go("c2", func() { w.count(0, -1) })
		w.h.Go("c3", func() { w.query() })
		w.finish()
	})
	csc("P11", "decrements", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: 2}, nil, map[int]int64{0: 2})
		w.h.Go("c1", func() { w.count(0, -1) })
		w.h.Go("c2", func() { w.count(0, -1) })
		w.h.Go("c3", func() { w.count(0, 1) })
		w.finish()
	})
	// no limit applies: no locks at all
	csc("P11", "unlimited", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: -1}, nil, nil)
		w.h.Go("c1", func() { w.count(0, 1); w.count(0, 2) })
		w.h.Go("c2", func() { w.count(0, 1); w.count(0, -1) })
		w.finish()
	})
	csc("P11", "unlimited-create", 3, 4, func() {
		w := cmk(oneRule, nil, nil, nil)
		w.h.Go("c1", func() { w.count(0, 1) })
		w.h.Go("c2", func() { w.count(0, 1) })
		w.h.Go("c3", func() { w.set(0, 5) })
		w.finish()
	})
	// a request is canceled anywhere
	csc("P11", "cancel", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: 2}, nil, map[int]int64{0: 1})
		ctx, cancel := vctx.WithCancel(w.l.base)
		w.h.Go("c1", func() { w.countCtx(1, 1, ctx, true) })
		w.h.Go("c2", func() { w.count(2, 1) })
		w.h.Go("c3", cancel)
		w.finish()
	})
	// a lock is lost anywhere
	csc("P11", "lost-lock", 3, 4, func() {
		w := cmk(oneRule, map[int]int64{0: 2}, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.count(2, 1) })
		w.h.Go("c3", func() { w.s.lose(vs.Choose(2)) })
		w.finish()
	})
	// a lock is lost while the request still waits for the next one
	csc("P11", "lost-while-waiting", 3, 4, func() {
		w := cmk(two, map[int]int64{0: 1, 1: 1}, nil, nil)
		hold, _ := w.s.ObtainLock(w.l.base, lockOf(a("b", 1)), nil)
		w.h.Go("c1", func() { w.count(0, 1) })
		w.h.Go("c2", func() {
			vs.Sleep(5 * time.Second)
			for i, l := range w.s.held {
				if l.kv == show(a("a", 1)) {
					w.s.lose(i)
					break
				}
			}
			w.count(2, 1)
		})
		w.h.Go("c3", func() {
			vs.Sleep(10 * time.Second)
			_ = hold.Release(w.l.base)
		})
		w.h.Wait()
		for _, o := range w.h.Ops {
			if o.Arg.(creq).ci == 0 && o.Res.(cres).code == 0 {
				hx.Fail("accepted without its locks", "%s", w.h.History())
			}
		}
		w.finish()
	})
	// the limits change meanwhile
	over := &config{rules: []kvs{a("a", "*")}, ovrs: []kvs{a("a", 1), a("a", "*", "b", 1)}, ctrs: []kvs{a("a", 1), a("a", 1, "b", 1)}}
	csc("P11", "lowered-limit", 3, 4, func() {
		w := cmk(over, map[int]int64{0: 2}, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(0, 1) })
		w.h.Go("c2", func() { w.rule("update-rule", 0, 0, 1); w.count(1, 1) })
		w.finish()
	})
	csc("P11", "raised-limit", 3, 4, func() {
		w := cmk(over, map[int]int64{0: 1}, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(0, 1) })
		w.h.Go("c2", func() { w.rule("update-rule", 0, 0, -1); w.count(1, 1) })
		w.finish()
	})
	csc("P11 P12", "new-override", 3, 4, func() {
		w := cmk(over, map[int]int64{0: 1}, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.rule("create-override", 0, 0, 2); w.count(0, 1) })
		w.finish()
	})
	csc("P11 P12", "deleted-override", 3, 4, func() {
		w := cmk(over, map[int]int64{0: 1}, map[[2]int]int64{{0, 0}: 2}, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.rule("delete-override", 0, 0, 0); w.count(0, 1) })
		w.finish()
	})
	csc("P11 P12", "updated-override", 3, 4, func() {
		w := cmk(over, map[int]int64{0: 1}, map[[2]int]int64{{0, 0}: 2}, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.rule("update-override", 0, 0, 1); w.count(0, 1) })
		w.finish()
	})
	csc("P11 P12", "deleted-rule", 3, 4, func() {
		w := cmk(over, map[int]int64{0: 0}, map[[2]int]int64{{0, 0}: 2}, nil)
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.rule("delete-rule", 0, 0, 0); w.count(0, 1) })
		w.finish()
	})
	csc("P11 P12", "new-rule", 3, 4, func() {
		w := cmk(over, nil, nil, map[int]int64{0: 1})
		w.h.Go("c1", func() { w.count(1, 1) })
		w.h.Go("c2", func() { w.rule("create-rule", 0, 0, 1); w.count(0, 1) })
		w.finish()
	})
	// administration of one rule by several clients
	adm := func(name string, q, t int, rl map[int]int64, ov map[[2]int]int64, fs ...func(w *cworld)) {
		csc("P12", "admin-"+name, q, t, func() {
			w := cmk(over, rl, ov, nil)
			for i, f := range fs {
				w.h.Go(fmt.Sprint("c", i+1), func() { f(w) })
			}
			w.finish()
		})
	}
	r0 := map[int]int64{0: 1}
	o0 := map[[2]int]int64{{0, 0}: 2}
	adm("create-create", 3, 5, nil, nil,
		func(w *cworld) { w.rule("create-rule", 0, 0, 1) },
		func(w *cworld) { w.rule("create-rule", 0, 0, 2) })
	adm("delete-create", 3, 5, r0, o0,
		func(w *cworld) { w.rule("delete-rule", 0, 0, 0) },
		func(w *cworld) { w.rule("create-rule", 0, 0, 2) })
	adm("delete-delete", 3, 5, r0, o0,
		func(w *cworld) { w.rule("delete-rule", 0, 0, 0) },
		func(w *cworld) { w.rule("delete-rule", 0, 0, 0) })
	adm("delete-override", 3, 5, r0, nil,
		func(w *cworld) { w.rule("delete-rule", 0, 0, 0) },
		func(w *cworld) { w.rule("create-override", 0, 1, 2) })
	adm("delete-update", 3, 5, r0, o0,
		func(w *cworld) { w.rule("delete-rule", 0, 0, 0) },
		func(w *cworld) { w.rule("update-rule", 0, 0, 2) },
		func(w *cworld) { w.rule("update-override", 0, 0, 5) })
	adm("delete-delete-override", 3, 5, r0, o0,
		func(w *cworld) { w.rule("delete-rule", 0, 0, 0) },
		func(w *cworld) { w.rule("delete-override", 0, 0, 0) })
	adm("overrides", 3, 5, r0, nil,
		func(w *cworld) { w.rule("create-override", 0, 0, 1) },
		func(w *cworld) { w.rule("create-override", 0, 0, 2) })
	adm("override-again", 3, 5, r0, o0,
		func(w *cworld) { w.rule("delete-override", 0, 0, 0) },
		func(w *cworld) { w.rule("create-override", 0, 0, 2) })
	adm("override-deletes", 3, 5, r0, o0,
		func(w *cworld) { w.rule("delete-override", 0, 0, 0) },
		func(w *cworld) { w.rule("delete-override", 0, 0, 0) })
	adm("two-rules", 3, 5, nil, nil,
		func(w *cworld) { w.rule("create-rule", 0, 0, 1) },
		func(w *cworld) { w.stored() })
}
