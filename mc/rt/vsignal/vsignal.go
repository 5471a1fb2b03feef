// Package vsignal stands for os/signal.
package vsignal

import (
	"os"

	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vproc"
	"github.com/DanLavine/willow/verifmc/vs"
)

func NotifyContext(parent vctx.Context, sigs ...os.Signal) (vctx.Context, vctx.CancelFunc) {
	ctx, cancel := vctx.WithCancel(parent)
	r := &vproc.Receiver{Sigs: sigs, Deliver: func(os.Signal) { cancel() }}
	vproc.Register(r)
	return ctx, func() {
		r.Stopped = true
		cancel()
	}
}

type entry struct {
	c chan<- os.Signal
	r *vproc.Receiver
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	r := &vproc.Receiver{Sigs: sigs, Deliver: func(s os.Signal) { vs.Select(true, vs.NewSendOf(c).Val(s)) }}
	l := vs.Local("vsignal", func() any { return &[]*entry{} }).(*[]*entry)
	*l = append(*l, &entry{c, r})
	vproc.Register(r)
}

func Stop(c chan<- os.Signal) {
	l := vs.Local("vsignal", func() any { return &[]*entry{} }).(*[]*entry)
	for _, e := range *l {
		if e.c == c {
			e.r.Stopped = true
		}
	}
}

func Ignore(sigs ...os.Signal) {
	vproc.Register(&vproc.Receiver{Sigs: sigs, Deliver: func(os.Signal) {}})
}

func Reset(sigs ...os.Signal) {
	if p := vproc.Cur(); p != nil {
		p.Notify = nil
	}
}
