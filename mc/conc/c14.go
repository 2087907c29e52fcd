package main

import (
	"fmt"
	"math"

	"gitee.com/coco/go808"
	"verifmc/rt"
)

const half = int64(5e8)

type evTime struct {
	ID uint64
	At int64
}

// keepServer runs a server that records when sessions close.
func keepServer(k int64, merge bool) *env {
	return start(go808.Options{Keepalive: k, AutoMergePacket: merge, CloseHandler: func(s *go808.Session) {
		rt.Log(evClose{Sess: s, ID: s.ID(), Step: rt.Step()})
		rt.Log(evTime{s.ID(), rt.ElapsedNs()})
	}})
}

// closeTime is when the session closed (-1: it did not).
func closeTime(s *go808.Session) int64 {
	at := int64(-1)
	for _, e := range rt.Events() {
		if t, ok := e.(evTime); ok && t.ID == s.ID() {
			if at >= 0 {
				rt.Fail("a session closed twice")
			}
			at = t.At
		}
	}
	return at
}

var activities = []string{"handled", "unhandled", "unknown", "undecodable", "part", "answer", "panic"}

// activity lets a message arrive.
func activity(kind string, e *env, p *peer, n int) {
	switch kind {
	case "handled":
		p.msg(idHeartbeat, nil)
	case "unhandled":
		p.msg(idLogout, nil)
	case "unknown":
		p.msg(idUnknown, []byte{1})
	case "undecodable":
		p.msg(idLocation, []byte{1})
	case "part":
		p.pkt(idMedia, 100, uint16(n+1), media(7, "x"))
	case "answer":
		p.msg(0x0001, append(u16(200), 0, 0, 0))
	case "panic":
		p.msg(idAuth, []byte("key"))
	}
}

// inactivity only looks like activity.
func inactivity(kind string, e *env, p *peer, s *go808.Session) {
	switch kind {
	case "send":
		s.Send(text("x"))
	case "request":
		s.Request(reqEntity(0), nil)
	case "broadcast":
		e.srv.Broadcast(text("x"))
	case "lookup":
		e.srv.GetSession(s.ID())
	case "other":
	}
}

func keepPrepare(e *env) {
	rt.Quiet(true)
	e.handleFn(idAuth, nil)
	e.srv.AddHandler(idAuth, panicHandler)
	rt.Quiet(false)
}

// judge checks a close time against the activity times (ns since start, ascending).
func judge(k int64, acts []int64, closed, now int64) {
	end := acts[len(acts)-1]
	for i := 1; i < len(acts); i++ {
		gap := acts[i] - acts[i-1]
		if closed >= 0 && closed <= acts[i] {
			end = acts[i-1]
			break
		}
		if gap > (k+2)*1e9 && (closed < 0 || closed > acts[i-1]+(k+2)*1e9) {
			rt.Fail("keepalive %d s: a session idle from %.2f s to %.2f s was not closed in time", k, sec(acts[i-1]), sec(acts[i]))
		}
	}
	if closed >= 0 {
		if closed < end+(k-1)*1e9 {
			rt.Fail("keepalive %d s: a session was closed at %.2f s although a message had arrived at %.2f s", k, sec(closed), sec(end))
		}
		if closed > end+(k+2)*1e9 {
			rt.Fail("keepalive %d s: a session whose last message had arrived at %.2f s was closed only at %.2f s", k, sec(end), sec(closed))
		}
	} else if now > end+(k+2)*1e9 {
		rt.Fail("keepalive %d s: a session whose last message arrived at %.2f s is still open at %.2f s", k, sec(end), sec(now))
	}
}

func sec(ns int64) float64 { return float64(ns) / 1e9 }

// gapWords lists all sequences of n gaps (in half seconds).
func gapWords(gaps []int64, n int) [][]int64 {
	out := [][]int64{{}}
	for i := 0; i < n; i++ {
		var next [][]int64
		for _, w := range out {
			for _, g := range gaps {
				next = append(next, append(append([]int64{}, w...), g))
			}
		}
		out = next
	}
	return out
}

func init() {
	props["C14"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run, Horizon: 200000})
		}
		one := func(opt, k int64, phase int64, gaps []int64, kind func(i int) string) func() {
			return func() {
				files()
				e := keepServer(opt, true)
				keepPrepare(e)
				rt.Quiet(true)
				rt.Advance(phase)
				p, s := e.session(13800138000)
				acts := []int64{rt.ElapsedNs()}
				for i, g := range gaps {
					rt.Advance(g)
					if p.ServerClosed() {
						break
					}
					activity(kind(i), e, p, i)
					acts = append(acts, rt.ElapsedNs())
					rt.Idle()
				}
				judge(k, acts, closeTime(s), rt.ElapsedNs())
				rt.Advance((k + 3) * 1e9)
				judge(k, acts, closeTime(s), rt.ElapsedNs())
				if closeTime(s) < 0 {
					rt.Fail("an idle session was never closed")
				}
				gone(e, p, s)
				rt.Quiet(false)
			}
		}
		for _, k := range []int64{1, 2, 3, 5} {
			var gaps []int64
			for g := int64(1); g <= 2*k+5; g++ {
				gaps = append(gaps, g*half)
			}
			for n := 0; n <= pick(tier, 2, 3); n++ {
				for wi, w := range gapWords(gaps, n) {
					for _, phase := range []int64{0, 25e7, 5e8, 75e7} {
						for ki := range activities {
							if n == 0 && ki > 0 {
								break
							}
							if n == 3 && (phase == 0 || phase == 5e8 || ki > 4) {
								continue
							}
							ki, w := ki, w
							add("patterns", fmt.Sprintf("pat-%d-%d-%d-%d-%d", k, n, wi, phase/1e6, ki), 0,
								one(k, k, phase, w, func(i int) string { return activities[(ki+i)%len(activities)] }))
						}
					}
				}
			}
			// many messages in the longest intervals that must keep a session open, all kinds
			if k > 1 {
				for ki := range activities {
					var w []int64
					for i := 0; i < 12; i++ {
						w = append(w, (k-1)*1e9)
					}
					ki := ki
					for _, phase := range []int64{0, 1e8, 4e8, 6e8, 9e8, 999e6} {
						add("kept-open", fmt.Sprintf("kept-%d-%d-%d", k, phase/1e6, ki), 0,
							one(k, k, phase, w, func(i int) string { return activities[ki] }))
					}
				}
			}
		}
		// the default
		for _, opt := range []int64{0, -1, -5, math.MinInt64, 60} {
			for wi, w := range [][]int64{{}, {59e9}, {1e9, 30e9, 59e9}, {59e9, 59e9, 59e9, 59e9}, {63e9}} {
				add("default", fmt.Sprintf("default-%d-%d", opt, wi), 0, one(opt, 60, 0, w, func(int) string { return "handled" }))
			}
		}
		for _, k := range []int64{120, 600} {
			for wi, w := range [][]int64{{}, {(k - 1) * 1e9}, {(k - 1) * 1e9, (k - 1) * 1e9}} {
				add("long", fmt.Sprintf("long-%d-%d", k, wi), 0, one(k, k, 0, w, func(int) string { return "handled" }))
			}
		}
		// keepalive periods that stand for never
		for ki, k := range []int64{1<<31 - 1, 1 << 31, 1 << 32, 1 << 33, math.MaxInt64 - 1, math.MaxInt64} {
			k := k
			add("long", fmt.Sprintf("never-%d", ki), 0, func() {
				e := keepServer(k, false)
				rt.Quiet(true)
				p, s := e.session(13800138000)
				rt.Advance(30e9)
				p.msg(idHeartbeat, nil)
				rt.Advance(100e9)
				if closeTime(s) >= 0 {
					rt.Fail("keepalive %d s: a session was closed after %.2f s", k, sec(closeTime(s)))
				}
				bystander(e, p, s)
				rt.Quiet(false)
			})
		}
		// traffic to the terminal, lookups and other sessions do not keep a session open
		for _, kind := range []string{"send", "request", "broadcast", "lookup", "other", "half-frame"} {
			for _, phase := range []int64{0, 25e7, 75e7} {
				kind, phase := kind, phase
				add("not-activity", fmt.Sprintf("idle-%s-%d", kind, phase/1e6), 0, func() {
					k := int64(3)
					e := keepServer(k, false)
					rt.Quiet(true)
					rt.Advance(phase)
					p, s := e.session(13800138000)
					q, qs := e.session(13900139000)
					at := rt.ElapsedNs()
					f := frame(hdr{ID: idLocation, Icc: p.icc, Serial: 3}, loc())
					for i := 0; i < 12; i++ {
						rt.Advance(half)
						if kind == "half-frame" {
							p.PeerSend(f[i : i+1]) // the frame never completes
						} else {
							inactivity(kind, e, p, s)
						}
						q.msg(idHeartbeat, nil)
						rt.Idle()
					}
					judge(k, []int64{at}, closeTime(s), rt.ElapsedNs())
					if closeTime(qs) >= 0 {
						rt.Fail("an active session was closed")
					}
					gone(e, p, s)
					bystander(e, q, qs)
					rt.Quiet(false)
				})
			}
		}
		// several sessions, each by itself: all combinations of two rhythms
		rhythms := gapWords([]int64{half, 2 * half, 3 * half, 5 * half, 9 * half}, 2)
		for i, a := range rhythms {
			for j, b := range rhythms {
				a, b := a, b
				if tier == "quick" && (i+j)%2 == 1 {
					continue
				}
				add("two-sessions", fmt.Sprintf("sessions-%d-%d", i, j), 0, func() {
					k := int64(2)
					e := keepServer(k, false)
					rt.Quiet(true)
					p, s := e.session(13800138000)
					q, qs := e.session(13900139000)
					t0 := rt.ElapsedNs()
					sum := func(w []int64) (out []int64) {
						t := t0
						out = append(out, t)
						for _, g := range w {
							t += g
							out = append(out, t)
						}
						return
					}
					pa, qa := sum(a), sum(b)
					var pd, qd []int64
					for step := 0; step < 36; step++ {
						now := rt.ElapsedNs()
						for _, t := range pa {
							if t == now {
								pd = append(pd, now)
								if now > t0 && !p.ServerClosed() {
									p.msg(idHeartbeat, nil)
								}
							}
						}
						for _, t := range qa {
							if t == now {
								qd = append(qd, now)
								if now > t0 && !q.ServerClosed() {
									q.msg(idHeartbeat, nil)
								}
							}
						}
						rt.Idle()
						judge(k, pd, closeTime(s), now)
						judge(k, qd, closeTime(qs), now)
						rt.Advance(half)
					}
					gone(e, p, s)
					gone(e, q, qs)
					rt.Quiet(false)
				})
			}
		}
		// the timer's tick against messages, closes and new sessions
		for _, what := range []string{"message", "close", "fin", "connect", "send", "two"} {
			for _, early := range []int64{0, 1, 2} {
				what, early := what, early
				add("tick-races", fmt.Sprintf("tick-%s-%d", what, early), pick(tier, 3, 4), func() {
					k := int64(3)
					e := keepServer(k, false)
					p, s := e.session(13800138000)
					t0 := rt.ElapsedNs()
					var q *peer
					var qs *go808.Session
					rt.Quiet(true)
					if what == "two" {
						q, qs = e.session(13900139000)
					}
					rt.Advance((k-early)*1e9 + 1e8) // the next tick may be the one that closes
					rt.Quiet(false)
					if p.ServerClosed() {
						return
					}
					rt.Jump(1e9)
					now := rt.ElapsedNs()
					acts := []int64{t0}
					switch what {
					case "message":
						p.msg(idHeartbeat, nil)
						acts = append(acts, now)
					case "close":
						t := rt.Go("close", func() { s.Close() })
						joinAll(t)
					case "fin":
						p.PeerClose()
					case "send":
						t := rt.Go("send", func() { s.Send(text("x")) })
						joinAll(t)
					case "connect":
						q = dial(13900139000)
						q.msg(idHeartbeat, nil)
					case "two":
						q.msg(idHeartbeat, nil)
						p.msg(idHeartbeat, nil)
						acts = append(acts, now)
					}
					rt.Idle()
					rt.Quiet(true)
					if what == "close" || what == "fin" {
						gone(e, p, s)
					} else if early > 0 || len(acts) > 1 {
						if c := closeTime(s); c >= 0 && c < t0+(k-1)*1e9 {
							rt.Fail("a session was closed %.2f s after its last message", sec(c-t0))
						}
						if c := closeTime(s); c >= 0 && early == 2 {
							rt.Fail("a session was closed %.2f s after its last message", sec(c-t0))
						}
					}
					if q != nil && q.ServerClosed() && (early == 2 || what == "connect") {
						rt.Fail("another session was closed")
					}
					open := closeTime(s) < 0
					rt.Advance((k + 3) * 1e9)
					if open {
						c := closeTime(s)
						last := acts[len(acts)-1]
						if c < 0 || c > last+(k+2)*1e9 || c < last+(k-1)*1e9 {
							rt.Fail("the last message had arrived at %.2f s; the session was closed at %.2f s", sec(last), sec(c))
						}
					}
					gone(e, p, s)
					if qs != nil {
						gone(e, q, qs)
					}
					if n := e.srv.Broadcast(text("x")); n != 0 {
						rt.Fail("%d sessions survive the keepalive period without a message", n)
					}
					rt.Quiet(false)
				})
			}
		}
		return out
	}
}
