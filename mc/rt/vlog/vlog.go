// Package vlog stands for log, and builds the loggers of the services: nothing is printed, a fatal line ends the
// process.
package vlog

import (
	"fmt"
	"io"
	"log"

	"github.com/DanLavine/willow/verifmc/vproc"
	"github.com/DanLavine/willow/verifmc/vs"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

func note(s string) {
	if vs.Tracing() {
		vs.Note("LOG %s", s)
	}
}

func Print(v ...any)            { note(fmt.Sprint(v...)) }
func Printf(f string, v ...any) { note(fmt.Sprintf(f, v...)) }
func Println(v ...any)          { note(fmt.Sprintln(v...)) }
func Fatal(v ...any)            { vproc.Die(1, fmt.Sprint(v...)) }
func Fatalf(f string, v ...any) { vproc.Die(1, fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)          { vproc.Die(1, fmt.Sprintln(v...)) }
func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)          { panic(fmt.Sprintln(v...)) }

func New(w io.Writer, prefix string, flag int) *Logger { return log.New(w, prefix, flag) }
func Default() *Logger                                 { return log.Default() }
func SetFlags(int)                                     {}
func SetPrefix(string)                                 {}
func SetOutput(io.Writer)                              {}
func Flags() int                                       { return log.LstdFlags }
func Prefix() string                                   { return "" }
func Writer() io.Writer                                { return io.Discard }
func Output(int, string) error                         { return nil }

// Record makes the loggers keep the entries.
var Record bool

// Entry is a line that a logger would write.
type Entry struct {
	By     *vs.Thread
	Line   string
	Fields map[string]any
}

type kept struct{ entries []Entry }

func (*kept) Opaque() {}

// Entries returns the entries of this execution.
func Entries() []Entry { return keep().entries }

func keep() *kept { return vs.Local("vlog", func() any { return &kept{} }).(*kept) }

type core struct {
	zapcore.LevelEnabler
	fields []zapcore.Field
}

func (c core) With(f []zapcore.Field) zapcore.Core {
	if !vs.Tracing() && !Record {
		return c
	}
	return core{c.LevelEnabler, append(append([]zapcore.Field{}, c.fields...), f...)}
}

func (c core) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if e.Level >= zapcore.DPanicLevel || (vs.Tracing() || Record) && c.Enabled(e.Level) {
		return ce.AddCore(e, c)
	}
	return ce
}

func (c core) Write(e zapcore.Entry, fs []zapcore.Field) error {
	enc := zapcore.NewMapObjectEncoder()
	for _, f := range append(append([]zapcore.Field{}, c.fields...), fs...) {
		f.AddTo(enc)
	}
	s := fmt.Sprint(e.Level, " ", e.LoggerName, " ", e.Message, " ", enc.Fields)
	if e.Level == zapcore.FatalLevel {
		vproc.Die(1, s)
	}
	note(s)
	if Record {
		k := keep()
		k.entries = append(k.entries, Entry{vs.Cur(), e.Message, enc.Fields})
	}
	return nil
}

func (core) Sync() error { return nil }

// hook is not reached: the write of a fatal entry does not return.
type hook struct{}

func (hook) OnWrite(*zapcore.CheckedEntry, []zapcore.Field) { vproc.Die(1, "fatal") }

// Build is (zap.Config).Build.
func Build(c zap.Config) func(...zap.Option) (*zap.Logger, error) {
	return func(opts ...zap.Option) (*zap.Logger, error) {
		var lvl zapcore.LevelEnabler = zapcore.InfoLevel
		if c.Level != (zap.AtomicLevel{}) {
			lvl = c.Level
		}
		return zap.New(core{LevelEnabler: lvl}, zap.WithFatalHook(hook{})), nil
	}
}
