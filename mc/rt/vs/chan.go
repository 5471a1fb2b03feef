package vs

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

type chanState struct {
	o      Obj
	cap    int
	buf    []any
	closed bool
	// threads pending with a receive / send on this channel (arrived and blocked)
	rq, sq []*waitRec
	ext    reflect.Value // foreign channel: polled
	isExt  bool
	id     uint64
}

type waitRec struct {
	clk uint64
	t   *Thread
	idx int // case index
	s   *selState
}

// selState is a blocked channel operation (plain operations are one-case selects).
type selState struct {
	cases []*scase
	done  bool
	idx   int
}

type scase struct {
	ch   *chanState // nil: nil channel
	send bool
	val  any // value to send / received
	ok   bool
}

func ptrOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func stateOf(p unsafe.Pointer, mk func() reflect.Value) *chanState {
	if p == nil {
		return nil
	}
	cs := E.chans[p]
	if cs == nil {
		if g := globalChans[p]; g != nil {
			// a channel made outside of any execution: fresh state per execution
			cs = &chanState{cap: g.cap}
			E.chans[p] = cs
			return cs
		}
		cs = &chanState{isExt: true, ext: mk()}
		E.chans[p] = cs
	}
	return cs
}

type globalChan struct{ cap int }

var globalChans = map[unsafe.Pointer]*globalChan{}

// Make registers a channel made by the instrumented code.
func Make[C any](ch C) C {
	p := ptrOf(ch)
	c := reflect.ValueOf(ch).Cap()
	if E == nil {
		globalChans[p] = &globalChan{cap: c}
		return ch
	}
	if E.over {
		return ch
	}
	E.chans[p] = &chanState{cap: c}
	return ch
}

func (c *chanState) recvReady(self *selState) bool {
	if c == nil {
		return false
	}
	if c.isExt {
		return c.pollExt()
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	return c.firstLive(c.sq, self) != nil
}

func (c *chanState) sendReady(self *selState) bool {
	if c == nil {
		return false
	}
	if c.isExt {
		fatal("send on a channel the engine does not own")
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	return c.firstLive(c.rq, self) != nil
}

func (c *chanState) firstLive(q []*waitRec, self *selState) *waitRec {
	for _, w := range q {
		if !w.s.done && w.s != self {
			return w
		}
	}
	return nil
}

func (c *chanState) pollExt() bool {
	if c.closed || len(c.buf) > 0 {
		return true
	}
	v, ok := c.ext.TryRecv()
	if ok {
		c.buf = append(c.buf, v.Interface())
		return true
	}
	if v.IsValid() {
		c.closed = true
		return true
	}
	return false
}

func (s *scase) ready(self *selState) bool {
	if s.ch == nil {
		return false
	}
	if s.send {
		return s.ch.sendReady(self)
	}
	return s.ch.recvReady(self)
}

func removeWait(q []*waitRec, s *selState) []*waitRec {
	out := q[:0]
	for _, w := range q {
		if w.s != s {
			out = append(out, w)
		}
	}
	for i := len(out); i < len(q); i++ {
		q[i] = nil
	}
	return out
}

func (s *selState) dequeue() {
	for _, c := range s.cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			c.ch.sq = removeWait(c.ch.sq, s)
		} else {
			c.ch.rq = removeWait(c.ch.rq, s)
		}
	}
}

// complete finishes the blocked operation w of another thread.
func (w *waitRec) complete() {
	w.s.done = true
	w.s.idx = w.idx
	w.s.dequeue()
	w.t.h = mix(w.t.h, mix(E.cur.h, uint64(w.idx)+0x99))
	racq(&w.clk)
	rrel(&w.t.clk)
}

func (s *selState) Ready(t *Thread) bool {
	if s.done {
		return true
	}
	for _, c := range s.cases {
		if c.ready(s) {
			return true
		}
	}
	return false
}

// exec performs a ready case by the current thread.
func (s *scase) exec() {
	c := s.ch
	c.o.Write(0xc0)
	if s.send {
		if c.closed {
			panic(sendClosed{})
		}
		if w := c.firstLive(c.rq, nil); w != nil && len(c.buf) == 0 {
			rc := w.s.cases[w.idx]
			rc.val, rc.ok = s.val, true
			w.complete()
			return
		}
		c.buf = append(c.buf, s.val)
		return
	}
	if len(c.buf) > 0 {
		s.val, s.ok = c.buf[0], true
		c.buf[0] = nil
		c.buf = c.buf[1:]
		// a blocked sender moves its value into the buffer
		if w := c.firstLive(c.sq, nil); w != nil {
			c.buf = append(c.buf, w.s.cases[w.idx].val)
			w.complete()
		}
		return
	}
	if w := c.firstLive(c.sq, nil); w != nil && !c.closed {
		s.val, s.ok = w.s.cases[w.idx].val, true
		w.complete()
		return
	}
	if c.closed {
		s.val, s.ok = nil, false
		return
	}
	fatal("exec of a channel operation that is not ready")
}

type sendClosed struct{}

func (sendClosed) Error() string  { return "send on closed channel" }
func (sendClosed) RuntimeError()  {}
func (sendClosed) String() string { return "send on closed channel" }

// run performs a (multi-case) channel operation.
func runSelect(cases []*scase, hasDefault bool, label string) int {
	e := E
	if e == nil {
		fatal("channel operation outside of an execution")
	}
	if e.over {
		deadPoint()
	}
	s := &selState{cases: cases}
	if hasDefault {
		Point(label)
		return s.pick(true)
	}
	// arrive: blocked threads are visible to their counterparts
	if e.freeze == 0 {
		Point(label)
	}
	ready := false
	for _, c := range cases {
		if c.ready(s) {
			ready = true
			break
		}
	}
	if ready {
		return s.pick(false)
	}
	if e.freeze > 0 {
		fatal("blocking channel operation inside an atomic section: %s", label)
	}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waitRec{t: e.cur, idx: i, s: s}
		if c.send {
			c.ch.sq = append(c.ch.sq, w)
		} else {
			c.ch.rq = append(c.ch.rq, w)
		}
		c.ch.o.Mark(0xc1)
		rrel(&w.clk)
	}
	t := e.cur
	t.w = s
	t.label = label
	e.schedule()
	t.w = nil
	racq(&t.clk)
	if s.done {
		return s.idx
	}
	s.dequeue()
	return s.pick(false)
}

func (s *selState) pick(hasDefault bool) int {
	e := E
	var rd []int
	var buf [8]int
	rd = buf[:0]
	for i, c := range s.cases {
		if c.ready(s) {
			rd = append(rd, i)
		} else if c.ch != nil {
			c.ch.o.Peek(0xc2)
		}
	}
	if len(rd) == 0 {
		if hasDefault {
			return -1
		}
		fatal("select with no ready case")
	}
	k := 0
	if len(rd) > 1 {
		k = e.decide(len(rd), 1, kSelect)
		if k < 0 {
			Stop()
		}
		e.cur.h = mix(e.cur.h, uint64(k)+0x5e1)
	}
	i := rd[k]
	s.cases[i].exec()
	return i
}

// ---------------------------------------------------------------- API used by the rewritten code

type Sender[T any] struct{ ch chan<- T }

func SendTo[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

func (s Sender[T]) Do(v T) {
	if Dead() {
		deadPoint()
		return
	}
	cs := stateOf(ptrOf(s.ch), func() reflect.Value { return reflect.ValueOf(s.ch) })
	runSelect([]*scase{{ch: cs, send: true, val: v}}, false, lbl("chan send"))
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if Dead() {
		deadPoint()
		var z T
		return z, false
	}
	cs := stateOf(ptrOf(ch), func() reflect.Value { return reflect.ValueOf(ch) })
	c := &scase{ch: cs}
	runSelect([]*scase{c}, false, lbl("chan recv"))
	v, _ := c.val.(T)
	return v, c.ok
}

// Dead reports that the execution is over: nothing has any effect any more.
func Dead() bool { return E == nil || E.over }

func Close[T any](ch chan<- T) {
	if Dead() {
		return
	}
	closePtr(ptrOf(ch), "close of nil channel")
}

func closePtr(p unsafe.Pointer, nilmsg string) {
	if p == nil {
		panic(nilmsg)
	}
	Point(lbl("chan close"))
	cs := E.chans[p]
	if cs == nil {
		cs = stateOf(p, func() reflect.Value { fatal("close of a channel the engine does not own"); return reflect.Value{} })
	}
	cs.doClose()
}

func (cs *chanState) doClose() {
	cs.o.Write(0xc3)
	if cs.closed {
		panic("close of closed channel")
	}
	cs.closed = true
}

// CloseNow closes a channel without a scheduling point (used by contexts and timers).
func CloseNow[T any](ch chan T) {
	if Dead() {
		return
	}
	cs := E.chans[ptrOf(ch)]
	cs.o.Write(0xc3)
	cs.closed = true
}

func Len[C any](ch C) int {
	if Dead() {
		return 0
	}
	Point(lbl("chan len"))
	cs := stateOf(ptrOf(ch), func() reflect.Value { return reflect.ValueOf(ch) })
	if cs == nil {
		return 0
	}
	cs.o.Peek(0xc4)
	return len(cs.buf)
}

func BlockForever() {
	if Dead() {
		deadPoint()
		return
	}
	runSelect(nil, false, lbl("select{}"))
}

type selCase interface{ sc() *scase }

type RecvCase[T any] struct {
	c  scase
	V  T
	OK bool
}

func (r *RecvCase[T]) sc() *scase { return &r.c }
func (r *RecvCase[T]) fin() {
	r.V, _ = r.c.val.(T)
	r.OK = r.c.ok
}

type SendCase struct{ c scase }

func (s *SendCase) sc() *scase { return &s.c }
func (s *SendCase) fin()       {}

func NewRecv[T any](ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{}
	if Dead() {
		return r
	}
	r.c.ch = stateOf(ptrOf(ch), func() reflect.Value { return reflect.ValueOf(ch) })
	return r
}

type SendOf[T any] struct{ ch chan<- T }

func NewSendOf[T any](ch chan<- T) SendOf[T] { return SendOf[T]{ch} }

func (s SendOf[T]) Val(v T) *SendCase {
	r := &SendCase{}
	if Dead() {
		return r
	}
	ch := s.ch
	r.c.ch = stateOf(ptrOf(ch), func() reflect.Value { return reflect.ValueOf(ch) })
	r.c.send = true
	r.c.val = v
	return r
}

func Select(hasDefault bool, cases ...selCase) int {
	if Dead() {
		deadPoint()
		return -1
	}
	cs := make([]*scase, len(cases))
	for i, c := range cases {
		cs[i] = c.sc()
	}
	l := "select"
	if hasDefault {
		l = "select/default"
	}
	k := runSelect(cs, hasDefault, lbl(l))
	if k >= 0 {
		cases[k].(interface{ fin() }).fin()
	}
	return k
}

// ReflectSelect stands in for reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	if Dead() {
		deadPoint()
		return 0, reflect.Value{}, false
	}
	var cs []*scase
	var idx []int
	def := -1
	for i, c := range cases {
		switch c.Dir {
		case reflect.SelectDefault:
			def = i
			continue
		}
		var st *chanState
		if c.Chan.IsValid() {
			ch := c.Chan
			st = stateOf(ch.UnsafePointer(), func() reflect.Value { return ch })
		}
		x := &scase{ch: st}
		if c.Dir == reflect.SelectSend {
			x.send = true
			x.val = c.Send.Interface()
		}
		cs = append(cs, x)
		idx = append(idx, i)
	}
	k := runSelect(cs, def >= 0, lbl("reflect.Select"))
	if k < 0 {
		return def, reflect.Value{}, false
	}
	i := idx[k]
	if cs[k].send {
		return i, reflect.Value{}, false
	}
	rv := reflect.New(cases[i].Chan.Type().Elem()).Elem()
	if cs[k].val != nil {
		rv.Set(reflect.ValueOf(cs[k].val))
	}
	return i, rv, cs[k].ok
}

type ChanIter[T any] struct {
	ch <-chan T
	V  T
}

func RangeOf[T any](ch <-chan T) *ChanIter[T] { return &ChanIter[T]{ch: ch} }

func (c *ChanIter[T]) Next() bool {
	v, ok := Recv2(c.ch)
	c.V = v
	return ok
}

// ---------------------------------------------------------------- maps

type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

// MapRange iterates in a fixed order (the language leaves it open).
func MapRange[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if len(it.keys) > 1 && E != nil && !E.over && E.descending() {
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

// descending: the order of a map range is unspecified. Every thread walks its maps either in ascending or, at the cost of
// one deviation, in descending order.
func (e *Exec) descending() bool {
	t := e.cur
	if t == nil {
		return false
	}
	if t.mapDir == 0 {
		if e.calm {
			return false
		}
		t.mapDir = 1
		if e.decide(2, 1, kChoose) == 1 {
			t.mapDir = 2
			t.h = mix(t.h, 0xde5c)
		}
	}
	return t.mapDir == 2
}

func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		if len(keys) < 2 {
			return
		}
		v := reflect.ValueOf(keys)
		sort.SliceStable(keys, func(i, j int) bool { return cmpValue(v.Index(i), v.Index(j)) < 0 })
	}
}

func cmpValue(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case reflect.Bool:
		x, y := 0, 0
		if a.Bool() {
			x = 1
		}
		if b.Bool() {
			y = 1
		}
		return x - y
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpValue(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpValue(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			x, y := 0, 0
			if !a.IsNil() {
				x = 1
			}
			if !b.IsNil() {
				y = 1
			}
			return x - y
		}
		a, b = a.Elem(), b.Elem()
		if a.Type() != b.Type() {
			return cmp.Compare(a.Type().String(), b.Type().String())
		}
		return cmpValue(a, b)
	}
	// pointers etc.: no stable order available
	return cmp.Compare(fmt.Sprint(a.Kind()), fmt.Sprint(b.Kind()))
}
