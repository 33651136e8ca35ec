package harness

import (
	"context"
	"fmt"
	"io"
	"log"
	"time"

	"github.com/jimsnab/go-lane"
)

// tlane is a lane without locks, logging or random identifiers, so that the
// only synchronisation in an execution is that of the code under test.
type tlane struct {
	context.Context
}

var nullLog = log.New(io.Discard, "", 0)

func newLane() *tlane { return &tlane{context.Background()} }

func (l *tlane) LaneId() string                                     { return "verif" }
func (l *tlane) SetJourneyId(id string)                             {}
func (l *tlane) SetLogLevel(n lane.LaneLogLevel) lane.LaneLogLevel  { return n }
func (l *tlane) Trace(args ...any)                                  { sink(args...) }
func (l *tlane) Tracef(format string, args ...any)                  { sink(args...) }
func (l *tlane) Debug(args ...any)                                  { sink(args...) }
func (l *tlane) Debugf(format string, args ...any)                  { sink(args...) }
func (l *tlane) Info(args ...any)                                   { sink(args...) }
func (l *tlane) Infof(format string, args ...any)                   { sink(args...) }
func (l *tlane) Warn(args ...any)                                   { sink(args...) }
func (l *tlane) Warnf(format string, args ...any)                   { sink(args...) }
func (l *tlane) Error(args ...any)                                  { sink(args...) }
func (l *tlane) Errorf(format string, args ...any)                  { sink(args...) }
func (l *tlane) PreFatal(args ...any)                               {}
func (l *tlane) PreFatalf(format string, args ...any)               {}
func (l *tlane) Fatal(args ...any)                                  { panic(fmt.Sprint(args...)) }
func (l *tlane) Fatalf(format string, args ...any)                  { panic(fmt.Sprintf(format, args...)) }
func (l *tlane) Logger() *log.Logger                                { return nullLog }
func (l *tlane) Close()                                             {}
func (l *tlane) Derive() lane.Lane                                  { return &tlane{l.Context} }
func (l *tlane) DeriveReplaceContext(ctx context.Context) lane.Lane { return &tlane{ctx} }
func (l *tlane) EnableStackTrace(lane.LaneLogLevel, bool) bool      { return false }
func (l *tlane) AddTee(lane.Lane)                                   {}
func (l *tlane) RemoveTee(lane.Lane)                                {}

func (l *tlane) DeriveWithCancel() (lane.Lane, context.CancelFunc) {
	ctx, c := context.WithCancel(l.Context)
	return &tlane{ctx}, c
}

func (l *tlane) DeriveWithCancelCause() (lane.Lane, context.CancelCauseFunc) {
	ctx, c := context.WithCancelCause(l.Context)
	return &tlane{ctx}, c
}

func (l *tlane) DeriveWithoutCancel() lane.Lane {
	return &tlane{context.WithoutCancel(l.Context)}
}

func (l *tlane) DeriveWithDeadline(d time.Time) (lane.Lane, context.CancelFunc) {
	ctx, c := context.WithDeadline(l.Context, d)
	return &tlane{ctx}, c
}

func (l *tlane) DeriveWithTimeout(d time.Duration) (lane.Lane, context.CancelFunc) {
	ctx, c := context.WithTimeout(l.Context, d)
	return &tlane{ctx}, c
}

// sink reads log arguments the way a real lane would (a race on a logged
// value is a race), without formatting cost.
func sink(args ...any) {}
