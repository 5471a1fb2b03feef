// Queue scenarios: the real queues, queue channels, items and heartbeaters over a stand-in limiter service.
package main

import (
	"fmt"
	"net/http"
	"time"

	"github.com/DanLavine/willow/internal/middleware"
	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/constructor"
	"github.com/DanLavine/willow/internal/willow/brokers/queues"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vs"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

func main() { hx.Main() }

type query = queryassociatedaction.AssociatedActionQuery

// fatal turns a fatal log line into a violation.
type fatal struct{}

func (fatal) Enabled(l zapcore.Level) bool        { return l >= zapcore.DPanicLevel }
func (f fatal) With([]zapcore.Field) zapcore.Core { return f }
func (f fatal) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if f.Enabled(e.Level) {
		return ce.AddCore(e, f)
	}
	return ce
}
func (fatal) Write(e zapcore.Entry, fs []zapcore.Field) error {
	d := e.Message
	for _, f := range fs {
		if err, ok := f.Interface.(error); ok {
			d += ": " + err.Error()
		}
	}
	hx.Fail("the service exits: "+e.Message, "%s", d)
	return nil
}
func (fatal) Sync() error { return nil }

const ruleID = "willow"

// sys is one running service.
type sys struct {
	h     *hx.H
	o     vs.Obj
	lim   *limiter
	q     queues.QueuesClient
	stop  func()
	down  bool
	exec  *vs.Thread
	base  vctx.Context
	chans []kvs
}

func newSys() *sys {
	s := &sys{h: hx.New(), lim: &limiter{fail: map[string]int{}, refused: map[string]bool{}}}
	s.lim.rule(ruleID, kvs{"_willow_queue_name": datatypes.Any(), "_willow_enqueued": datatypes.Any()}, 0)
	s.base = vctx.WithValue(vctx.Background(), middleware.LoggerCtxKey, zap.New(fatal{}))
	cc, _ := constructor.NewQueueChannelConstructor("memory", s.lim)
	qcc := queuechannels.NewLocalQueueChannelsClient(cc)
	qc, _ := queues.NewQueueConstructor("memory", s.lim)
	s.q = queues.NewLocalQueueClient(qc, qcc, ruleID)
	ctx, stop := vctx.WithCancel(vctx.Background())
	s.stop = func() {
		s.o.Write(9)
		s.down = true
		stop()
	}
	s.exec = vs.Spawn("service", func() { _ = qcc.Execute(ctx) })
	return s
}

// kind of an item
type kind struct {
	upd  bool
	att  uint64
	pos  string
	time time.Duration
}

func (k kind) String() string {
	u := ""
	if k.upd {
		u = "U"
	}
	return fmt.Sprintf("%s%d%s", u, k.att, k.pos[:1])
}

func (k kind) timeout() time.Duration {
	if k.time == 0 {
		return timeout
	}
	return k.time
}

const timeout = 1000 * time.Second

func ptr[T any](v T) *T { return &v }

func (s *sys) create(name string, limit int64) *errors.ServerError {
	return s.q.CreateQueue(s.base, &v1willow.Queue{Spec: &v1willow.QueueSpec{
		DBDefinition: &v1willow.QueueDBDefinition{Name: ptr(name)},
		Properties:   &v1willow.QueueProperties{MaxItems: ptr(limit)},
	}})
}

func (s *sys) enqueue(queue string, kv kvs, k kind, data string) *errors.ServerError {
	to := k.timeout()
	return s.q.Enqueue(s.base, queue, &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues(copyKV(kv))},
		Properties: &v1willow.ItemProperties{
			Data: []byte(data), Updateable: ptr(k.upd), RetryAttempts: ptr(k.att), RetryPosition: ptr(k.pos), TimeoutDuration: ptr(to),
		},
	}})
}

func (s *sys) ack(queue string, kv kvs, id string, passed bool) *errors.ServerError {
	return s.q.Ack(s.base, queue, &v1willow.ACK{ItemID: id, KeyValues: datatypes.TypedKeyValues(copyKV(kv)), Passed: passed})
}

func (s *sys) heartbeat(queue string, kv kvs, id string) *errors.ServerError {
	return s.q.Heartbeat(s.base, queue, &v1willow.Heartbeat{ItemID: id, KeyValues: datatypes.TypedKeyValues(copyKV(kv))})
}

func enqKV(queue string, kv kvs) kvs {
	n := kvs{"_willow_queue_name": datatypes.String(queue), "_willow_enqueued": datatypes.String("true")}
	for k, v := range kv {
		n["_willow_"+k] = v
	}
	return n
}

func runKV(queue string, kv kvs) kvs {
	n := copyKV(kv)
	n["_willow_queue_name"] = datatypes.String(queue)
	n["_willow_running"] = datatypes.String("true")
	return n
}

// exact selects the channel with exactly kv.
func exact(kv kvs) *query { return queryassociatedaction.KeyValuesToExactAssociatedActionQuery(kv) }

// having selects the channels where key has any value.
func having(key string) *query {
	return &query{Selection: &queryassociatedaction.Selection{KeyValues: queryassociatedaction.SelectionKeyValues{
		key: {Value: datatypes.Any(), Comparison: v1common.Equals, TypeRestrictions: v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}},
	}}}
}

func status(e *errors.ServerError) int {
	if e == nil {
		return 0
	}
	return e.StatusCode
}

func refusedWith(e *errors.ServerError, code int, what string) {
	if e == nil {
		hx.FailH("accepted: "+what, "%s was accepted", what)
	} else if e.StatusCode != code {
		hx.FailH("refused with another status: "+what, "%s: status %d, want %d (%v)", what, e.StatusCode, code, e)
	}
}

func accepted(e *errors.ServerError, what string) {
	if e != nil {
		hx.FailH("refused: "+what, "%s: %v (status %d)", what, e, e.StatusCode)
	}
}

var _ = http.StatusOK

func anyValue() datatypes.EncapsulatedValue { return datatypes.Any() }
