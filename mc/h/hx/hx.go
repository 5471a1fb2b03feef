// Package hx is the harness side library: scenario registry, worker main, oracles.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	gpath "path"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/verifmc/vs"
)

// Scen is a registered scenario.
type Scen struct {
	vs.Scenario
	Props []string // properties whose check runs it
	Only  string   // "" both tiers, "thorough" only there
	Whole bool     // not sharded: one worker explores all of it
}

var all []*Scen

func Register(s *Scen) { all = append(all, s) }

// Sched registers a concurrent scenario: quick and thorough deviation bounds.
func Sched(props, name string, quick, thorough int, body func()) *Scen {
	s := &Scen{Props: strings.Fields(props)}
	s.Name, s.Bound, s.Thorough, s.Body = name, quick, thorough, body
	Register(s)
	return s
}

// Seq registers a sequential (history enumeration) scenario: every decision is a free choice.
func Seq(props, name string, body func()) *Scen {
	return Sched(props, name, 0, 0, body)
}

// tier of this run, for bodies whose depth depends on it
var Thorough bool

// Pick returns q in the quick tier, t in the thorough tier.
func Pick(q, t int) int {
	if Thorough {
		return t
	}
	return q
}

type result struct {
	Scenario string   `json:"scenario"`
	Stats    vs.Stats `json:"stats"`
	Full     bool     `json:"full"`
	Bound    int      `json:"bound"`
	Wall     float64  `json:"wall"`
}

type output struct {
	Results    []result        `json:"results"`
	Violations []*vs.Violation `json:"violations"`
}

func Main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	nshards := flag.Int("nshards", 1, "")
	budget := flag.Float64("budget", 120, "seconds")
	only := flag.String("scenario", "", "")
	bound := flag.Int("bound", -1, "")
	replay := flag.String("replay", "", "violation file to replay")
	trace := flag.Bool("trace", true, "")
	list := flag.Bool("list", false, "")
	outF := flag.String("out", "", "")
	stopF := flag.String("stopfile", "", "stop when this file exists, create it on a violation that is not listed in -known")
	knownF := flag.String("known", "", "known findings: {scenario: [keys]}")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	vs.DetailHook = Hist
	Thorough = *tier == "thorough"

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v vs.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if strings.HasSuffix(v.Scenario, "@thorough") {
			Thorough = true
		}
		for _, s := range all {
			if s.Name == strings.TrimSuffix(v.Scenario, "@thorough") {
				onlyHist = v.Hist
				e := vs.Replay(&s.Scenario, v.Choices, *trace)
				f := e.Fail()
				if f == nil {
					fmt.Println("REPLAY: no violation")
					os.Exit(0)
				}
				if *trace {
					for _, l := range f.Trace {
						fmt.Println(l)
					}
				}
				fmt.Printf("REPLAY: %s\n%s\n", f.Key, f.Detail)
				os.Exit(1)
			}
		}
		fmt.Fprintln(os.Stderr, "unknown scenario", v.Scenario)
		os.Exit(2)
	}

	var run []*Scen
	for _, s := range all {
		if ok, _ := gpath.Match(*only, s.Name); *only != "" && s.Name != *only && !ok {
			continue
		}
		if *prop != "" {
			ok := false
			for _, p := range s.Props {
				ok = ok || p == *prop
			}
			if !ok {
				continue
			}
		}
		if s.Only == "thorough" && !Thorough {
			continue
		}
		if *only == "" && s.Only == "manual" {
			continue
		}
		if vs.RaceMode {
			// accesses are checked in the schedules with few deviations, of the concurrent scenarios
			if s.Bound == 0 && s.Thorough == 0 {
				continue
			}
		}
		run = append(run, s)
	}
	if *list {
		for _, s := range run {
			fmt.Println(s.Name, s.Props, s.Bound, s.Thorough)
		}
		return
	}
	known := map[string][]string{}
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err == nil {
			err = json.Unmarshal(b, &known)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	stopped := false
	if *stopF != "" {
		last := time.Now()
		vs.StopExplore = func() bool {
			if !stopped && time.Since(last) > 200*time.Millisecond {
				last = time.Now()
				_, err := os.Stat(*stopF)
				stopped = err == nil
			}
			return stopped
		}
	}
	if *nshards > 1 {
		var mine []*Scen
		n := 0
		for _, s := range run {
			if s.Whole {
				n++
				if (n-1)%*nshards != *shard {
					continue
				}
			}
			mine = append(mine, s)
		}
		run = mine
	}
	start := time.Now()
	end := start.Add(time.Duration(*budget * float64(time.Second)))
	var out output
	for i, s := range run {
		b := s.Bound
		if Thorough {
			b = s.Thorough
		}
		if vs.RaceMode {
			b = min(b, Pick(1, 2))
		}
		if *bound >= 0 {
			b = *bound
		}
		left := time.Until(end)
		share := left / time.Duration(len(run)-i)
		// an early scenario may use up to three shares
		if len(run)-i > 1 {
			share *= 3
			if share > left*3/4 {
				share = left * 3 / 4
			}
		}
		vio := map[string]*vs.Violation{}
		suffix := ""
		if Thorough {
			suffix = "@thorough"
		}
		t0 := time.Now()
		sh, nsh := *shard, *nshards
		if s.Whole {
			sh, nsh = 0, 1
		}
		Deadline = time.Now().Add(share)
		TimedOut = false
		names = nil
		st, full := vs.Explore(&s.Scenario, b, sh, nsh, time.Now().Add(share), func(e *vs.Exec) {
			f := e.Fail()
			if vs.RaceMode && f.Kind != "race" {
				return // the plain build reports it
			}
			v := vio[f.Key]
			if v == nil {
				v = &vs.Violation{Scenario: s.Name + suffix, Kind: f.Kind, Key: f.Key, Detail: f.Detail, Choices: e.Picks()}
				if s.Whole {
					v.Hist = append([]int{}, path...)
				}
				vio[f.Key] = v
				listed := false
				for _, k := range known[s.Name] {
					listed = listed || k == f.Key
				}
				if !listed && *stopF != "" {
					stopped = true
					_ = os.WriteFile(*stopF, nil, 0o644)
				}
			}
			v.Count++
		})
		full = full && !TimedOut
		Deadline = time.Time{}
		out.Results = append(out.Results, result{Scenario: s.Name, Stats: st, Full: full, Bound: b, Wall: time.Since(t0).Seconds()})
		var ks []string
		for k := range vio {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := vio[k]
			onlyHist = v.Hist
			// deterministic: five identical re-executions, the last one traced
			for j := 0; j < 5; j++ {
				if v.Kind == "race" {
					// the detector reports a pair of accesses once per process
					if e := vs.Replay(&s.Scenario, v.Choices, true); e != nil {
						v.Trace = e.Trace()
					}
					break
				}
				e := vs.Replay(&s.Scenario, v.Choices, j == 4)
				f := e.Fail()
				if f == nil {
					fmt.Fprintf(os.Stderr, "ENGINE ERROR: scenario %s: violation %q does not replay\n", s.Name, v.Key)
					os.Exit(3)
				}
				// a text that differs (an address in the message of a panic) is the same failure
				if j == 4 {
					v.Trace = f.Trace
					v.Detail = f.Detail
				}
			}
			out.Violations = append(out.Violations, v)
		}
		onlyHist = nil
	}
	b, _ := json.Marshal(out)
	if *outF != "" {
		if err := os.WriteFile(*outF, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return
	}
	for _, r := range out.Results {
		fmt.Printf("%-40s bound=%d done=%d full=%v complete=%v execs=%d pruned=%d nodes=%d states=%d steps=%d depth=%d %v %.1fs\n", r.Scenario, r.Bound, r.Stats.BoundDone, r.Full, r.Stats.Complete, r.Stats.Execs, r.Stats.Pruned, r.Stats.Nodes, r.Stats.States, r.Stats.Steps, r.Stats.MaxDepth, r.Stats.Outcomes, r.Wall)
	}
	for _, v := range out.Violations {
		fmt.Printf("VIOL %s [%s] %s x%d\n   %s\n   choices %v\n", v.Scenario, v.Kind, v.Key, v.Count, strings.ReplaceAll(clip(v.Detail, 3000), "\n", "\n   "), v.Choices)
		if os.Getenv("TRACE") != "" {
			for _, l := range v.Trace {
				fmt.Println("      ", l)
			}
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------------------------------------------------------------- per execution helpers

// H collects the threads and the history of one execution.
type H struct {
	ts  []*vs.Thread
	o   vs.Obj
	Ops []*Op
	clk int
}

func New() *H { return &H{} }

// Go starts a harness thread.
func (h *H) Go(name string, f func()) *vs.Thread {
	t := vs.Spawn(name, f)
	h.ts = append(h.ts, t)
	return t
}

// Daemon starts a background thread that need not finish.
func (h *H) Daemon(name string, f func()) *vs.Thread {
	t := vs.Spawn(name, f)
	vs.Daemon(t)
	return t
}

// Wait joins every harness thread started so far.
func (h *H) Wait() {
	for _, t := range h.ts {
		vs.Join(t)
	}
	h.ts = nil
}

// Fail reports a violated oracle.
func Fail(key, format string, a ...any) {
	vs.Fail("oracle", key, fmt.Sprintf(format, a...))
}

// Op is one recorded call.
type Op struct {
	Name     string
	Arg      any
	Res      any
	Inv, Ret int // logical times; Ret == 0: pending
}

// Do records a call in the history (its real-time position matters for the oracle).
func (h *H) Do(name string, arg any, f func() any) any {
	op := h.Begin(name, arg)
	r := f()
	h.End(op, r)
	return r
}

func (h *H) Begin(name string, arg any) *Op {
	h.o.Write(0x201)
	h.clk++
	op := &Op{Name: name, Arg: arg, Inv: h.clk}
	h.Ops = append(h.Ops, op)
	if vs.Tracing() {
		vs.Note("CALL %s(%v)", name, arg)
	}
	return op
}

func (h *H) End(op *Op, res any) {
	if vs.Dead() {
		return
	}
	h.o.Write(0x202 ^ fold(res))
	h.clk++
	op.Res, op.Ret = res, h.clk
	if vs.Tracing() {
		vs.Note("RET  %s(%v) = %v", op.Name, op.Arg, res)
	}
}

// fold makes what a caller observed part of the explored state (a plain memory race may change it without any
// difference in the order of the synchronisation operations).
func fold(v any) uint64 {
	var s string
	switch x := v.(type) {
	case fmt.Stringer:
		s = x.String()
	case error:
		s = "error " + x.Error()
	case string, bool, int, []int, []string:
		s = fmt.Sprint(x)
	default:
		return 0
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h << 12
}

// Saw is Sync for something the calling thread observed.
func (h *H) Saw(v any) { h.o.Write(0x203 ^ fold(v)) }

// Sync makes the calling thread depend on everything recorded so far (for reading shared harness data).
func (h *H) Sync() { h.o.Write(0x203) }

func (h *H) History() string {
	var b strings.Builder
	for _, o := range h.Ops {
		ret := fmt.Sprint(o.Ret)
		if o.Ret == 0 {
			ret = "-"
		}
		fmt.Fprintf(&b, "[%d,%s] %s(%v) = %v\n", o.Inv, ret, o.Name, o.Arg, o.Res)
	}
	return b.String()
}

// opset is a set of positions in a history.
type opset [4]uint64

func (s opset) has(i int) bool { return s[i>>6]&(1<<(i&63)) != 0 }

func (s opset) with(i int) opset { s[i>>6] |= 1 << (i & 63); return s }

// Linearizable searches for a sequential order of the recorded calls accepted by the model.
// step returns the set of possible successor states for which the recorded result is allowed;
// states must be comparable through key.
func (h *H) Linearizable(init any, key func(any) string, step func(state any, op *Op) (any, bool)) bool {
	n := len(h.Ops)
	if n > 4*64 {
		panic("history too long")
	}
	seen := map[string]bool{}
	var rec func(done opset, st any) bool
	rec = func(done opset, st any) bool {
		all := true
		minRet := 1 << 30
		for i, o := range h.Ops {
			if done.has(i) {
				continue
			}
			if o.Ret != 0 {
				all = false
				if o.Ret < minRet {
					minRet = o.Ret
				}
			}
		}
		if all {
			return true
		}
		k := fmt.Sprintf("%x|%s", done, key(st))
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range h.Ops {
			if done.has(i) || o.Inv > minRet {
				continue
			}
			if ns, ok := step(st, o); ok {
				if rec(done.with(i), ns) {
					return true
				}
			}
		}
		return false
	}
	return rec(opset{}, init)
}
