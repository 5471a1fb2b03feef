//go:build race

package vs

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

// Under -race the engine tells Go's race detector the happens-before edges of the modelled operations, and hides its
// own hand-overs from it. A report then means that two accesses of an explored
// execution are not ordered by the synchronisation of the code under test.

// RaceMode tells whether the accesses to memory are checked.
const RaceMode = true

var execClk uint64 // orders the executions

func racq(p *uint64) {
	if E != nil && E.inEnv {
		return
	}
	runtime.RaceAcquire(unsafe.Pointer(p))
}

func rrel(p *uint64) {
	if E != nil && E.inEnv {
		return
	}
	runtime.RaceReleaseMerge(unsafe.Pointer(p))
}

// hide and show bracket the engine's own hand-overs, which are not synchronisation of the code under test.
func hide() { runtime.RaceDisable() }
func show() { runtime.RaceEnable() }

func rrelExec() {
	runtime.RaceReleaseMerge(unsafe.Pointer(&execClk))
}

func raceErrors() int { return runtime.RaceErrors() }

// a goroutine without edges to any execution starts the threads of timers
var spawner chan func()

func raceSpawn(f func()) {
	if E != nil && E.inEnv {
		hide()
		spawner <- f
		show()
		return
	}
	f()
}

func raceInit() {
	if spawner == nil {
		spawner = make(chan func())
		go func() {
			for {
				hide()
				f := <-spawner
				show()
				f()
			}
		}()
	}
}

var raceOff int64

// RaceReport is one pair of unordered accesses.
type RaceReport struct {
	Key, Text string
	Repo      bool // both accesses are made by the code under test
}

// raceReports reads the first n new reports of the detector.
func raceReports(n int) (out []RaceReport) {
	name := ""
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(o, "log_path=") {
			name = o[len("log_path="):] + "." + strconv.Itoa(os.Getpid())
		}
	}
	f, err := os.Open(name)
	if err != nil {
		fatal("the race detector reports something, but %v", err)
	}
	defer f.Close()
	f.Seek(raceOff, 0)
	var b []byte
	buf := make([]byte, 1<<16)
	for {
		k, err := f.Read(buf)
		b = append(b, buf[:k]...)
		if err != nil {
			break
		}
	}
	raceOff += int64(len(b))
	for _, part := range strings.Split(string(b), "WARNING: DATA RACE\n")[1:] {
		if len(out) == n {
			break
		}
		if i := strings.Index(part, "=================="); i >= 0 {
			part = part[:i]
		}
		r := RaceReport{Text: part, Repo: true}
		var fns []string
		for _, sec := range strings.Split(part, "\n\n") {
			l := strings.Split(sec, "\n")
			h := l[0]
			if !strings.Contains(h, " at 0x") || !(strings.Contains(h, "ead") || strings.Contains(h, "rite")) {
				continue
			}
			fn := ""
			for i := 1; i < len(l); i += 2 {
				fn = strings.TrimSpace(l[i])
				if !transparent(fn) {
					break
				}
				fn = ""
			}
			if !strings.HasPrefix(fn, "github.com/DanLavine/willow/") || strings.HasPrefix(fn, "github.com/DanLavine/willow/verifmc/") {
				r.Repo = false
			}
			fn = strings.TrimPrefix(fn, "github.com/DanLavine/willow/")
			if i := strings.LastIndex(fn, "("); i > 0 && strings.HasSuffix(fn, "()") {
				fn = fn[:i]
			}
			fns = append(fns, fn)
		}
		if len(fns) != 2 {
			r.Repo = false
		} else {
			if fns[1] < fns[0] {
				fns[0], fns[1] = fns[1], fns[0]
			}
			r.Key = "data race: " + fns[0] + " / " + fns[1]
		}
		out = append(out, r)
	}
	return out
}

func transparent(fn string) bool {
	if strings.HasPrefix(fn, "github.com/DanLavine/willow/verifmc/vs.(*MapIter") || strings.HasPrefix(fn, "github.com/DanLavine/willow/verifmc/vs.MapRange") {
		return true
	}
	for _, p := range []string{"runtime.", "internal/runtime/", "slices.", "maps.", "sort.", "cmp."} {
		if strings.HasPrefix(fn, p) {
			return true
		}
	}
	return false
}
