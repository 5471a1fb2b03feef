// Package vproc runs the main of a service as a process of its own: with its arguments and environment, signals, an
// exit code, and threads that stop for good when it ends.
package vproc

import (
	"fmt"
	"os"

	"github.com/DanLavine/willow/verifmc/vs"
)

type P struct {
	vs.Proc
	Name   string
	Code   int
	Reason string
	OnExit []func()
	// Notify are the registered receivers of signals
	Notify []*Receiver
	o      vs.Obj
	done   chan struct{}
}

type Receiver struct {
	Sigs    []os.Signal
	Deliver func(os.Signal)
	Stopped bool
}

func (p *P) Opaque() {}

// Start runs main in a new process.
func Start(name string, args []string, main func()) *P {
	p := &P{Name: name, done: vs.Make(make(chan struct{}))}
	p.Data = p
	t := vs.Spawn(name, func() {
		vs.In(&p.Proc)
		os.Args = append([]string{name}, args...)
		main()
		p.end(0, "main returned")
	})
	vs.Daemon(t)
	return p
}

// Cur is the process of the running thread.
func Cur() *P {
	if p := vs.CurProc(); p != nil {
		return p.Data.(*P)
	}
	return nil
}

// end ends the process; when called by one of its own threads it does not return.
func (p *P) end(code int, why string) {
	if !vs.Active() {
		return
	}
	own := Cur() == p
	vs.Point("exit of " + p.Name)
	p.o.Write(vs.HashString("exit"))
	if !p.Dead {
		p.Dead, p.Code, p.Reason = true, code, why
		if vs.Tracing() {
			vs.Note("EXIT %s: %d (%s)", p.Name, code, why)
		}
		for _, f := range p.OnExit {
			f()
		}
		vs.CloseNow(p.done)
	}
	if own {
		vs.BlockForever()
	}
}

// Exited reports whether the process has ended.
func (p *P) Exited() bool {
	p.o.Read(vs.HashString("exited"))
	return p.Dead
}

// Wait waits for the end of the process and returns its exit code.
func (p *P) Wait() int {
	vs.Recv(p.done)
	return p.Code
}

// Kill ends the process at once.
func (p *P) Kill() { p.end(137, "killed") }

// Signal delivers a signal.
func (p *P) Signal(s os.Signal) {
	vs.Point("signal to " + p.Name)
	p.o.Write(vs.HashString("signal"))
	if p.Dead {
		return
	}
	if vs.Tracing() {
		vs.Note("SIGNAL %s to %s", s, p.Name)
	}
	got := false
	for _, r := range p.Notify {
		for _, x := range r.Sigs {
			if x == s && !r.Stopped {
				got = true
				r.Deliver(s)
			}
		}
	}
	if !got {
		p.end(130, "signal")
	}
}

// Register adds a receiver of signals to the current process.
func Register(r *Receiver) {
	if p := Cur(); p != nil {
		p.o.Write(vs.HashString("notify"))
		p.Notify = append(p.Notify, r)
	}
}

// Exit is os.Exit.
func Exit(code int) { Die(code, "os.Exit") }

// Die ends the current process.
func Die(code int, why string) {
	if !vs.Active() {
		return
	}
	p := Cur()
	if p == nil {
		vs.Fail("exit", "the process exits", fmt.Sprintf("%d: %s", code, why))
		return
	}
	p.end(code, why)
}
