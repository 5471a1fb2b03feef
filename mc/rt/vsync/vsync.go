// Package vsync stands in for sync under the controlled scheduler.
package vsync

import (
	"fmt"
	"reflect"
	"sort"
	"sync"

	"github.com/DanLavine/willow/verifmc/vs"
)

type Locker = sync.Locker

// ---------------------------------------------------------------- Mutex

type Mutex struct {
	o      vs.Obj
	locked bool
}

func (m *Mutex) Ready(*vs.Thread) bool { return !m.locked }

func (m *Mutex) Lock() {
	if vs.Dead() {
		vs.Point("")
		return
	}
	vs.Block(m, vs.Label("mutex lock"))
	m.locked = true
	m.o.Write(1)
}

func (m *Mutex) TryLock() bool {
	if vs.Dead() {
		vs.Point("")
		return true
	}
	vs.Point(vs.Label("mutex trylock"))
	if m.locked {
		m.o.Read(2)
		return false
	}
	m.locked = true
	m.o.Write(1)
	return true
}

func (m *Mutex) Unlock() {
	if vs.Dead() {
		return
	}
	vs.UnlockPoint("mutex unlock")
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.o.Write(3)
}

// ---------------------------------------------------------------- RWMutex

type RWMutex struct {
	o       vs.Obj
	wHeld   bool // a writer holds or waits for the lock
	wActive bool
	readers int
	writer  *vs.Thread   // waiting for readers to leave
	rwait   []*vs.Thread // readers waiting for the writer
}

func (m *RWMutex) Ready(*vs.Thread) bool { return !m.wHeld }

func (m *RWMutex) Lock() {
	if vs.Dead() {
		vs.Point("")
		return
	}
	vs.Block(m, vs.Label("rwmutex lock"))
	m.wHeld = true
	m.o.Write(1)
	if m.readers > 0 {
		t := vs.Cur()
		m.writer = t
		t.ClearGrant()
		vs.Block(vs.GrantWait, vs.Label("rwmutex lock (waiting for readers)"))
		t.ClearGrant()
		m.o.Write(1)
	}
	m.wActive = true
}

func (m *RWMutex) TryLock() bool {
	if vs.Dead() {
		vs.Point("")
		return true
	}
	vs.Point(vs.Label("rwmutex trylock"))
	if m.wHeld || m.readers > 0 {
		m.o.Read(2)
		return false
	}
	m.wHeld, m.wActive = true, true
	m.o.Write(1)
	return true
}

func (m *RWMutex) Unlock() {
	if vs.Dead() {
		return
	}
	vs.UnlockPoint("rwmutex unlock")
	if !m.wActive {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.wActive, m.wHeld = false, false
	m.o.Write(3)
	for _, r := range m.rwait {
		m.readers++
		r.Grant()
	}
	m.rwait = nil
}

func (m *RWMutex) RLock() {
	if vs.Dead() {
		vs.Point("")
		return
	}
	vs.Point(vs.Label("rwmutex rlock"))
	if m.wHeld {
		t := vs.Cur()
		t.ClearGrant()
		m.rwait = append(m.rwait, t)
		m.o.Acquire(4)
		vs.Block(vs.GrantWait, vs.Label("rwmutex rlock (waiting for writer)"))
		t.ClearGrant()
		m.o.Acquire(5)
		return
	}
	m.readers++
	m.o.Acquire(5)
}

func (m *RWMutex) TryRLock() bool {
	if vs.Dead() {
		vs.Point("")
		return true
	}
	vs.Point(vs.Label("rwmutex tryrlock"))
	if m.wHeld {
		m.o.Read(6)
		return false
	}
	m.readers++
	m.o.Acquire(5)
	return true
}

func (m *RWMutex) RUnlock() {
	if vs.Dead() {
		return
	}
	vs.UnlockPoint("rwmutex runlock")
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.writer != nil {
		m.o.Write(7)
		if m.readers == 0 {
			w := m.writer
			m.writer = nil
			w.Grant()
		}
		return
	}
	m.o.Acquire(7)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---------------------------------------------------------------- WaitGroup

type WaitGroup struct {
	o       vs.Obj
	n       int
	waiters []*vs.Thread
}

func (w *WaitGroup) Add(delta int) {
	if vs.Dead() {
		return
	}
	if delta > 0 {
		vs.Point(vs.Label("waitgroup add"))
	} else {
		vs.UnlockPoint("waitgroup done")
	}
	w.o.Write(uint64(delta) + 0x100)
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if len(w.waiters) != 0 && delta > 0 && w.n == delta {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if w.n == 0 {
		for _, t := range w.waiters {
			t.Grant()
		}
		w.waiters = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if vs.Dead() {
		vs.Point("")
		return
	}
	vs.Point(vs.Label("waitgroup wait"))
	if w.n == 0 {
		w.o.Read(8)
		return
	}
	t := vs.Cur()
	t.ClearGrant()
	w.waiters = append(w.waiters, t)
	w.o.Write(9)
	vs.Block(vs.GrantWait, vs.Label("waitgroup wait"))
	t.ClearGrant()
	w.o.Read(10)
	if w.n != 0 || len(w.waiters) != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// ---------------------------------------------------------------- Once

type Once struct {
	o    vs.Obj
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if vs.Dead() {
		vs.Point("")
		return
	}
	vs.Point(vs.Label("once"))
	o.o.Read(11)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if !vs.Dead() {
				o.o.Write(12)
				o.done = true
			}
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// ---------------------------------------------------------------- Cond

type Cond struct {
	L  Locker
	o  vs.Obj
	ws []*vs.Thread
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if vs.Dead() {
		vs.Point("")
		return
	}
	t := vs.Cur()
	t.ClearGrant()
	c.ws = append(c.ws, t)
	c.o.Write(13)
	c.L.Unlock()
	vs.Block(vs.GrantWait, vs.Label("cond wait"))
	t.ClearGrant()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if vs.Dead() {
		return
	}
	vs.Point(vs.Label("cond signal"))
	c.o.Write(14)
	if len(c.ws) > 0 {
		t := c.ws[0]
		c.ws = c.ws[1:]
		t.Grant()
	}
}

func (c *Cond) Broadcast() {
	if vs.Dead() {
		return
	}
	vs.Point(vs.Label("cond broadcast"))
	c.o.Write(15)
	for _, t := range c.ws {
		t.Grant()
	}
	c.ws = nil
}

// ---------------------------------------------------------------- Map, Pool

type Map struct {
	o vs.Obj
	m map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	vs.Point(vs.Label("map load"))
	if !vs.Dead() {
		m.o.Read(16)
	}
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) wr(l string) {
	vs.Point(vs.Label(l))
	if !vs.Dead() {
		m.o.Write(17)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Store(k, v any) { m.wr("map store"); m.m[k] = v }
func (m *Map) Delete(k any)   { m.wr("map delete"); delete(m.m, k) }
func (m *Map) Clear()         { m.wr("map clear"); m.m = nil }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.wr("map loadorstore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.wr("map loadanddelete")
	x, ok := m.m[k]
	delete(m.m, k)
	return x, ok
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.wr("map swap")
	x, ok := m.m[k]
	m.m[k] = v
	return x, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.wr("map cas")
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.wr("map cad")
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	vs.Point(vs.Label("map range"))
	if !vs.Dead() {
		m.o.Read(18)
	}
	var keys []any
	for k := range m.m {
		keys = append(keys, k)
	}
	sort.SliceStable(keys, func(i, j int) bool { return key(keys[i]) < key(keys[j]) })
	for _, k := range keys {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

func key(k any) string {
	if reflect.ValueOf(k).Kind() == reflect.Pointer {
		return ""
	}
	return fmt.Sprintf("%T%v", k, k)
}

type Pool struct {
	New func() any
}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(any) {}
