// Package vtime replaces time in instrumented code: the same types, a virtual clock.
package vtime

import (
	"time"
	"unsafe"

	"verifmc/rt"
)

func Now() time.Time                         { return rt.Now() }
func Since(t time.Time) time.Duration        { return rt.Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(rt.Now()) }
func Sleep(d time.Duration)                  { rt.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C <-chan time.Time
	t *rt.VTimer
}

func ptr(ch chan time.Time) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	return &Timer{C: ch, t: rt.NewVTimer(int64(d), 0, ptr(ch), ch, 1, nil)}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{t: rt.NewVTimer(int64(d), 0, nil, nil, 0, f)}
}

func (t *Timer) Stop() bool                 { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool { return t.t.Reset(int64(d), 0) }

type Ticker struct {
	C <-chan time.Time
	t *rt.VTimer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	return &Ticker{C: ch, t: rt.NewVTimer(int64(d), int64(d), ptr(ch), ch, 1, nil)}
}

func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Reset(int64(d), int64(d)) }
