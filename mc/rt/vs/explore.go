package vs

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

// Scenario is one bounded program whose executions are enumerated.
type Scenario struct {
	Name     string
	Bound    int           // deviation bound
	Thorough int           // deviation bound of the thorough tier
	Horizon  time.Duration // virtual time after which an unfinished call is a hang
	MaxSteps int64
	Unlocks  bool // scheduling points in front of release operations too
	Early    bool // timers may fire while threads are runnable (one deviation)
	Body     func()
}

// Stats of one exploration.
type Stats struct {
	Execs     int64            `json:"execs"`
	Pruned    int64            `json:"pruned"`
	Steps     int64            `json:"steps"`
	Nodes     int64            `json:"nodes"`
	States    int64            `json:"states"`
	MaxDepth  int              `json:"max_depth"`
	BoundDone int              `json:"bound_done"` // highest bound completed, -1 none
	Complete  bool             `json:"complete"`   // no deviation was left unexplored: the bound was not a restriction
	Outcomes  map[string]int64 `json:"outcomes"`
}

// Violation found.
type Violation struct {
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Key      string   `json:"key"`
	Detail   string   `json:"detail"`
	Choices  []int32  `json:"choices"`
	Hist     []int    `json:"hist"`
	Bound    int      `json:"bound"`
	Count    int64    `json:"count"`
	Trace    []string `json:"trace,omitempty"`
}

func startExec(sc *Scenario, prefix []choice, replay int, bound int, tracing bool, visit func(uint64, int32) bool) *Exec {
	epochCtr++
	e := &Exec{
		epoch: epochCtr, doneCh: make(chan struct{}, 1),
		choices: prefix, replay: replay, budget: int32(bound), maxB: int32(bound),
		maxSteps: sc.MaxSteps, horizon: sc.Horizon, unlocks: sc.Unlocks, earlyTm: sc.Early,
		chans: map[unsafe.Pointer]*chanState{}, addrs: map[unsafe.Pointer]*Obj{}, locals: map[string]any{},
		visit: visit, tracing: tracing,
	}
	if e.maxSteps == 0 {
		e.maxSteps = 20000
	}
	if e.horizon == 0 {
		e.horizon = time.Hour
	}
	ticks = 0
	if RunHook != nil {
		RunHook()
	}
	if RaceMode {
		raceInit()
		e.race0 = raceErrors()
		E = nil
		rrel(&execClk)
	}
	E = e
	root := e.spawn("main", sc.Body)
	root.harness = true
	e.cur = root
	hide()
	root.wake <- struct{}{}
	<-e.doneCh
	show()
	// unwind every remaining thread
	e.aborted = true
	all := append([]*Thread(nil), e.threads...)
	for _, t := range all {
		hide()
		select {
		case <-t.exited:
			show()
			continue
		default:
		}
		select {
		case t.wake <- struct{}{}:
		default:
		}
		select {
		case <-t.exited:
		case <-time.After(20 * time.Second):
			fmt.Fprintf(os.Stderr, "ENGINE ERROR: thread %s does not unwind (%s)\n", t.Name, t.label)
			buf := make([]byte, 1<<16)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
		show()
	}
	if RaceMode {
		e.raceVerdict()
	}
	if e.pos < replay {
		fatal("divergence: execution ended after %d of %d recorded choices", e.pos, replay)
	}
	return e
}

// RunHook runs before every execution (to reset package level state).
var RunHook func()

// StopExplore, when set, is polled to end an exploration early.
var StopExplore func() bool

// Explore enumerates the executions of sc within the bound belonging to this shard.
func Explore(sc *Scenario, bound, shard, nshards int, deadline time.Time, onViol func(*Exec)) (Stats, bool) {
	st := Stats{BoundDone: -1, Outcomes: map[string]int64{}}
	debug.SetGCPercent(400)
	for b := 0; b <= bound; b++ {
		full, complete := exploreBound(sc, b, shard, nshards, deadline, &st, onViol)
		if !full {
			return st, false
		}
		st.BoundDone = b
		if complete {
			st.Complete = true
			break
		}
	}
	return st, true
}

// deviations that decide which worker explores an execution (with the memory accesses checked, the bound is lower)
var shardDevs = int32(2)

func init() {
	if RaceMode {
		shardDevs = 1
	}
}

func exploreBound(sc *Scenario, bound, shard, nshards int, deadline time.Time, st *Stats, onViol func(*Exec)) (full, complete bool) {
	type mark struct{ remain, exec int32 }
	visited := map[uint64]mark{}
	n := 0
	var cur *Exec
	complete = true
	visit := func(key uint64, remain int32) bool {
		if nshards > 1 && int32(E.devs) < shardDevs {
			return false
		}
		if r, ok := visited[key]; ok && r.remain >= remain {
			if r.exec == int32(n) && !E.merging {
				fatal("a step left the state key unchanged")
			}
			return true
		}
		visited[key] = mark{remain, int32(n)}
		return false
	}
	var prefix []choice
	replay := 0
	for {
		e := startExec(sc, prefix, replay, bound, false, visit)
		cur = e
		// ownership: executions with fewer deviations than the sharding depth are run by all, counted by one
		own := nshards <= 1 || shardOf(e.choices[:e.pos], nshards) == shard
		if own {
			st.Steps += e.steps + e.xsteps
			if e.histories > 0 {
				st.Execs += e.histories - 1
				st.Outcomes["ok"] += e.histories - 1
				if e.depth > st.MaxDepth {
					st.MaxDepth = e.depth
				}
			}
			if e.open {
				complete = false
			}
			st.Nodes += e.nodes
			if e.pruned {
				st.Pruned++
			} else {
				st.Execs++
				k := "ok"
				if e.fail != nil {
					k = e.fail.Kind
				}
				st.Outcomes[k]++
			}
			if e.pos > st.MaxDepth {
				st.MaxDepth = e.pos
			}
			if e.fail != nil && onViol != nil {
				onViol(e)
			}
		}
		n++
		if n&31 == 0 && (!deadline.IsZero() && time.Now().After(deadline) || StopExplore != nil && StopExplore()) {
			st.States += int64(len(visited))
			return false, false
		}
		// backtrack
		cs := cur.choices[:cur.pos]
		i := len(cs) - 1
		found := false
		for ; i >= 0; i-- {
			c := &cs[i]
			if c.cut {
				continue
			}
			if c.pick+1 >= c.n {
				continue
			}
			if c.cost > c.remain {
				complete = false
				continue
			}
			c.pick++
			// ownership of the subtree
			if nshards > 1 {
				d := int32(0)
				for j := 0; j <= i; j++ {
					if cs[j].dev() {
						d++
					}
				}
				if d == shardDevs && shardOf(cs[:i+1], nshards) != shard {
					i++ // try the next alternative of the same node
					continue
				}
			}
			found = true
			break
		}
		if !found {
			st.States += int64(len(visited))
			return true, complete
		}
		prefix = cs[: i+1 : i+1]
		replay = i + 1
	}
}

// dev tells whether the choice is a deviation that sharding counts.
func (c *choice) dev() bool { return c.pick != 0 && (!RaceMode || c.cost > 0) }

// shardOf maps the first deviations of a choice sequence to a shard.
func shardOf(cs []choice, n int) int {
	h := uint64(7)
	d := int32(0)
	for i := range cs {
		if cs[i].pick != 0 {
			h = mix(h, uint64(i)<<16|uint64(cs[i].pick))
			if cs[i].dev() {
				d++
			}
			if d == shardDevs {
				break
			}
		}
	}
	return int(h % uint64(n))
}

// Picks returns the choice sequence of an execution.
func (e *Exec) Picks() []int32 {
	p := make([]int32, e.pos)
	for i := range p {
		p[i] = e.choices[i].pick
	}
	for len(p) > 0 && p[len(p)-1] == 0 {
		p = p[:len(p)-1]
	}
	return p
}

func (e *Exec) Fail() *Failure { return e.fail }

func (e *Exec) Trace() []string { return e.trace }

// Replay runs one recorded choice sequence.
func Replay(sc *Scenario, picks []int32, tracing bool) *Exec {
	freePicks = picks
	defer func() { freePicks = nil }()
	return startExec(sc, nil, 0, 1<<20, tracing, nil)
}

var freePicks []int32

// MarshalTrace is a helper for replay files.
func MarshalTrace(v *Violation) []byte {
	b, _ := json.MarshalIndent(v, "", " ")
	return b
}

// raceVerdict turns unordered accesses of the code under test into a failure of the execution.
func (e *Exec) raceVerdict() {
	all := raceErrors() - e.race0
	if all == 0 {
		return
	}
	for i, r := range raceReports(all) {
		if os.Getenv("VS_RACES") != "" {
			fmt.Fprintf(os.Stderr, "[%v in time=%v] %s\n%s\n", r.Repo, i < e.races, r.Key, r.Text)
		}
		if i < e.races && r.Repo && (e.fail == nil || e.fail.Kind != "race") {
			e.fail = &Failure{Kind: "race", Key: r.Key, Detail: "two accesses to the same memory are not ordered by any synchronisation\n" + r.Text}
		}
	}
}
