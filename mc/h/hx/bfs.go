package hx

import (
	"fmt"
	"strings"
	"time"

	"github.com/DanLavine/willow/verifmc/vs"
)

// World is one live instance of the object under test together with its reference model.
type World interface {
	// Ops lists the operations enabled now (a function of the state, in a fixed order).
	Ops() []string
	// Do runs the i-th enabled operation and judges its result.
	Do(i int)
	// Key is a canonical rendering of the whole state (object and model).
	Key() string
	// Check judges the state itself; the world is discarded afterwards.
	Check()
}

// BFS explores every state reachable within depth operations; every state is rebuilt by its shortest history on a
// fresh instance of the real object.
func BFS(mk func() World, depth int) {
	type node struct {
		hist  []int
		names []string
	}
	names = nil
	run := func(h []int) World {
		names = names[:0]
		path = append(path[:0], h...)
		w := mk()
		for _, i := range h {
			names = append(names, w.Ops()[i])
			w.Do(i)
		}
		return w
	}
	if onlyHist != nil {
		// replay of one history
		w := run(onlyHist[:max(0, len(onlyHist)-1)])
		if len(onlyHist) > 0 {
			i := onlyHist[len(onlyHist)-1]
			names = append(names, w.Ops()[i])
			w.Do(i)
		}
		w.Key()
		w.Check()
		return
	}
	seen := map[string]bool{}
	w := run(nil)
	seen[w.Key()] = true
	w.Check()
	level := []node{{}}
	states, trans := int64(1), int64(0)
	cut := false
	d := 0
	for ; d < depth && len(level) > 0 && !cut; d++ {
		var next []node
		for _, n := range level {
			if stop() {
				cut = true
				break
			}
			ops := run(n.hist).Ops()
			for i := range ops {
				h := append(append([]int(nil), n.hist...), i)
				w := run(n.hist)
				names = append(names, ops[i])
				path = append(path, i)
				w.Do(i)
				trans++
				k := w.Key()
				if seen[k] {
					continue
				}
				seen[k] = true
				states++
				w.Check()
				next = append(next, node{hist: h})
			}
		}
		level = next
	}
	if cut {
		TimedOut = true
	}
	vs.Account(states, trans, len(level) == 0 && !cut, d)
}

var names []string

// path is the history of the world being judged, only the one history to run in a replay.
var path, onlyHist []int

// Reset starts the history of an execution of a Seq scenario, Step names its next operation.
func Reset()           { names = nil }
func Step(name string) { names = append(names, name); vs.Note("STEP %s", name) }

// TimedOut is set when a BFS had to stop before its bound.
var TimedOut bool

// Deadline of the running scenario.
var Deadline time.Time

func stop() bool {
	return !Deadline.IsZero() && time.Now().After(Deadline) || vs.StopExplore != nil && vs.StopExplore()
}

// Hist renders the operations of the current world.
func Hist() string { return strings.Join(names, "; ") }

// FailH reports a violated oracle with the history that led there.
func FailH(key, format string, a ...any) {
	Fail(key, "%s\nhistory: %s", fmt.Sprintf(format, a...), Hist())
}

// Explicit registers an explicit-state scenario: the state space of mk() up to a depth per tier.
func Explicit(props, name string, quick, thorough int, mk func() World) *Scen {
	s := Seq(props, name, func() { BFS(mk, Pick(quick, thorough)) })
	s.Whole = true
	s.MaxSteps = 1 << 50
	s.Horizon = 1 << 60
	return s
}
