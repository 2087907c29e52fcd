package main

import (
	"fmt"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

type evStop struct {
	Before, After bool // the port was open when stopping began and when it returned
}

func stops() []evStop {
	var out []evStop
	for _, e := range rt.Events() {
		if s, ok := e.(evStop); ok {
			out = append(out, s)
		}
	}
	return out
}

func (e *env) stop() {
	b := rt.Listening(port)
	e.srv.Stop()
	rt.Log(evStop{b, rt.Listening(port)})
}

func (e *env) runTag(tag string) *rt.Thread {
	return rt.Go(tag, func() {
		err := e.srv.Run("tcp", port)
		rt.Log(evRet{Tag: tag, Err: err})
	})
}

// stopped checks that nothing is left of a stopped server.
func stopped(e *env, ps ...*peer) {
	if rt.Listening(port) {
		rt.Fail("the listener is still open after stopping")
	}
	for _, p := range ps {
		if p != nil && p.Accepted && !p.ServerClosed() {
			rt.Fail("a connection is still open after stopping")
		}
	}
	n := map[*go808.Session]int{}
	for _, c := range closed() {
		n[c.Sess]++
		if n[c.Sess] > 1 {
			rt.Fail("the close handler ran twice for a session")
		}
	}
	for _, h := range handled(0) {
		if n[h.Sess] != 1 {
			rt.Fail("the close handler ran %d times for a session of a stopped server", n[h.Sess])
		}
		if _, ok := e.srv.GetSession(h.ID); ok {
			rt.Fail("a session can be looked up after stopping")
		}
	}
	if k := e.srv.Broadcast(text("x")); k != 0 {
		rt.Fail("a stopped server broadcasts to %d sessions", k)
	}
}

// cycle runs, uses and stops the server once more, under the default schedule.
func cycle(e *env) {
	rt.Quiet(true)
	if rt.Dial(port) != nil {
		rt.Fail("the port is open although the server is stopped")
	}
	t := e.runTag("cycle")
	rt.Idle()
	if t.Done() {
		rt.Fail("a stopped server cannot be started again: %v", rets("cycle")[len(rets("cycle"))-1].Err)
	}
	p, s := e.session(13600136000)
	alive(p, s)
	e.srv.Stop()
	rt.Idle()
	if !t.Done() {
		rt.Fail("running does not end when the server is stopped")
	}
	gone(e, p, s)
	if rt.Listening(port) {
		rt.Fail("the listener is still open after stopping")
	}
	rt.Quiet(false)
}

func init() {
	props["C20"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		create := func() *env {
			return newServer(go808.Options{CloseHandler: func(s *go808.Session) {
				rt.Log(evClose{Sess: s, ID: s.ID(), Step: rt.Step()})
			}})
		}
		// starting and stopping at the same time: r runs, s stops, d connects
		for _, w := range []string{"r", "s", "rs", "rss", "rr", "rrs", "rd", "rsd", "rssd", "rrsd", "rsdd", "rrss"} {
			w := w
			b := pick(tier, 4, 6)
			if len(w) == 3 {
				b = pick(tier, 3, 4)
			} else if len(w) > 3 {
				b = pick(tier, 2, 3)
			}
			add("start-stop", "start-"+w, b, func() {
				e := create()
				e.handle(idLocation)
				var ts, runs []*rt.Thread
				var ps []*peer
				for i, c := range w {
					switch c {
					case 'r':
						runs = append(runs, e.runTag(fmt.Sprint("run", len(runs))))
					case 's':
						ts = append(ts, rt.Go("stop", e.stop))
					case 'd':
						i := i
						ts = append(ts, rt.Go("dial", func() {
							rt.Point("dial", nil)
							rt.Point("dial", nil)
							if p := dial(13800138000 + uint64(i)); p != nil {
								p.msg(idLocation, loc())
								ps = append(ps, p)
							}
						}))
					}
				}
				joinAll(ts...)
				rt.Quiet(true)
				over := 0 // runs that ended
				for i, t := range runs {
					if t.Done() {
						over++
						if rets(fmt.Sprint("run", i))[0].Err == nil {
							rt.Fail("running ended without an error")
						}
					}
				}
				open := rt.Listening(port)
				for _, s := range stops() {
					if s.Before && len(runs) == 1 && open {
						rt.Fail("the server is still running after it was stopped")
					}
				}
				if open && over != len(runs)-1 || !open && over != len(runs) {
					rt.Fail("%d of %d runs ended, listener open: %v", over, len(runs), open)
				}
				if len(stops()) == 0 && len(runs) > 0 && !open {
					rt.Fail("nobody stopped the server, but it does not run")
				}
				if open {
					// it works
					p, s := e.session(13700137000)
					alive(p, s)
					for _, p := range ps {
						if p.Accepted && len(stops()) == 0 && p.ServerClosed() {
							rt.Fail("a connection was closed")
						}
					}
					e.stop()
					rt.Idle()
					ps = append(ps, p)
				}
				for _, t := range runs {
					if !t.Done() {
						rt.Fail("running does not end when the server is stopped")
					}
				}
				stopped(e, ps...)
				rt.Quiet(false)
				cycle(e)
			})
		}
		// stopping against everything else; n sessions exist before
		for _, n := range []int{0, 1, 2} {
			for _, other := range []string{"none", "stop", "dial", "dial-msg", "dial-fin", "message", "unknown", "send", "broadcast", "request", "close", "fin", "junk", "run", "lookup", "add", "timeout", "stalled", "answer"} {
				n, other := n, other
				if n == 0 && (other != "none" && other != "stop" && other != "dial" && other != "dial-msg" && other != "dial-fin" && other != "broadcast" && other != "run") {
					continue
				}
				if n == 2 && tier == "quick" && (other == "add" || other == "lookup" || other == "run") {
					continue
				}
				b := pick(tier, 2, 3)
				if n == 0 && (other == "none" || other == "stop" || other == "dial" || other == "run") {
					b = pick(tier, 3, 4)
				}
				add("stop-vs", fmt.Sprintf("stop-%d-%s", n, other), b, func() {
					o := go808.Options{CloseHandler: func(s *go808.Session) {
						rt.Log(evClose{Sess: s, ID: s.ID(), Step: rt.Step()})
					}}
					if other == "timeout" {
						o.Keepalive = keep
					}
					e := start(o)
					rt.Quiet(true)
					e.handle(idLocation, 0x0104)
					var ps []*peer
					var ss []*go808.Session
					for i := 0; i < n; i++ {
						p, s := e.session(13800138000 + uint64(i))
						ps, ss = append(ps, p), append(ss, s)
					}
					var no uint16
					if other == "answer" {
						no, _ = ss[0].Request(reqEntity(0), record("q"))
						rt.Idle()
					}
					if other == "stalled" {
						ps[0].PeerStall(true)
						for i := 0; i < 5; i++ {
							ss[0].Send(text("x"))
						}
						rt.Idle()
					}
					rt.Quiet(false)
					t1 := rt.Go("stop", e.stop)
					var r *peer
					restarted := false
					t2 := rt.Go(other, func() {
						switch other {
						case "stop":
							e.stop()
						case "dial", "dial-msg", "dial-fin":
							if r = dial(13900139000); r != nil {
								if other == "dial-msg" {
									r.msg(idLocation, loc())
								}
								if other == "dial-fin" {
									r.PeerClose()
								}
							}
						case "message":
							ps[0].msg(idLocation, loc())
							ps[0].msg(idLocation, loc())
						case "unknown":
							ps[0].msg(idUnknown, nil)
						case "answer":
							ps[0].msg(0x0104, append(u16(no), 0))
						case "send":
							ss[0].Send(text("a"))
							ss[0].Send(text("b"))
						case "broadcast":
							e.srv.Broadcast(text("a"))
						case "request":
							ss[0].Request(reqEntity(0), record("q"))
						case "close":
							ss[0].Close()
						case "fin":
							ps[0].PeerClose()
						case "junk":
							ps[0].PeerSend([]byte{1, 2})
						case "run":
							err := e.srv.Run("tcp", port)
							rt.Log(evRet{Tag: "again", Err: err})
						case "lookup":
							e.srv.GetSession(ss[0].ID())
						case "add":
							e.srv.AddHandler(idAuth, panicHandler)
						case "timeout":
							rt.Jump((keep + 3) * 1e9)
						}
					})
					rt.Idle()
					if !t1.Done() {
						rt.Fail("deadlock: stopping never returns; %s", rt.Blocked())
					}
					if !t2.Done() {
						if other != "run" {
							rt.Fail("deadlock: %s never returns while the server stops; %s", other, rt.Blocked())
						}
						restarted = true
					}
					rt.Quiet(true)
					if !e.runT.Done() {
						rt.Fail("running does not end when the server is stopped")
					}
					if restarted {
						if !rt.Listening(port) {
							rt.Fail("the server was started again but nobody listens")
						}
						p, s := e.session(13900139000)
						alive(p, s)
						e.stop()
						rt.Idle()
						if !t2.Done() {
							rt.Fail("running does not end when the server is stopped")
						}
						gone(e, p, s)
					}
					for _, s := range stops() {
						if s.After && other != "run" && other != "stop" {
							rt.Fail("stopping returned while the listener was still open")
						}
					}
					stopped(e, append(ps, r)...)
					for i := range ps {
						gone(e, ps[i], ss[i])
					}
					rt.Quiet(false)
					cycle(e)
				})
			}
		}
		// stopping from where the library calls the application
		for _, where := range []string{"handler", "callback", "handler-twice"} {
			for n := 1; n <= 2; n++ {
				where, n := where, n
				add("stop-inside", fmt.Sprintf("inside-%s-%d", where, n), pick(tier, 2, 3), func() {
					e := create()
					rt.Quiet(true)
					e.run()
					rt.Idle()
					var ps []*peer
					var ss []*go808.Session
					for i := 0; i < n; i++ {
						p, s := e.session(13800138000 + uint64(i))
						ps, ss = append(ps, p), append(ss, s)
					}
					e.handleFn(idAuth, func(s *go808.Session, m *protocol.Message) {
						e.stop()
						if where == "handler-twice" {
							e.stop()
						}
					})
					e.srv.AddHandler(0x0104, func(*go808.Session, *protocol.Message) {})
					var no uint16
					if where == "callback" {
						no, _ = ss[0].Request(reqEntity(0), func(*protocol.Message) { e.stop() })
						rt.Idle()
					}
					rt.Quiet(false)
					for _, p := range ps {
						if where == "callback" {
							p.msg(0x0104, append(u16(no), 0))
						} else {
							p.msg(idAuth, []byte("key"))
						}
					}
					rt.Idle()
					rt.Quiet(true)
					if len(stops()) == 0 {
						rt.Fail("deadlock: stopping in a %s never returns; %s", where, rt.Blocked())
					}
					if !e.runT.Done() {
						rt.Fail("running does not end when the server is stopped")
					}
					stopped(e, ps...)
					for i := range ps {
						gone(e, ps[i], ss[i])
					}
					rt.Quiet(false)
					cycle(e)
				})
			}
		}
		// a handler that is busy does not keep the server from stopping
		add("stop-busy", "stop-busy-handler", pick(tier, 2, 3), func() {
			e := create()
			rt.Quiet(true)
			e.run()
			rt.Idle()
			p, s := e.session(13800138000)
			done := false
			e.handleFn(idAuth, func(s *go808.Session, m *protocol.Message) {
				rt.Point("busy", func() bool { return done })
			})
			rt.Quiet(false)
			p.msg(idAuth, []byte("key"))
			t := rt.Go("stop", e.stop)
			rt.Idle()
			if !t.Done() {
				rt.Fail("a busy handler keeps the server from stopping")
			}
			done = true
			rt.Idle()
			rt.Quiet(true)
			stopped(e, p)
			gone(e, p, s)
			rt.Quiet(false)
			cycle(e)
		})
		// sequential histories: r run, s stop, d connect, m message, f connection ends, R second run
		for _, w := range words("rsdmf", pick(tier, 6, 7)) {
			w := w
			add("histories", "history-"+w, 0, func() {
				e := create()
				e.handle(idLocation)
				var t *rt.Thread
				var p *peer
				running := false
				k := 0
				for _, c := range w {
					switch c {
					case 'r':
						k++
						tag := fmt.Sprint("r", k)
						x := e.runTag(tag)
						rt.Idle()
						if running {
							if !x.Done() || rets(tag)[0].Err == nil {
								rt.Fail("a second start while running is not refused")
							}
							if t.Done() || !rt.Listening(port) {
								rt.Fail("a second start disturbs the running server")
							}
						} else {
							if x.Done() {
								rt.Fail("starting fails: %v", rets(tag)[0].Err)
							}
							t, running = x, true
						}
					case 's':
						n := len(closed())
						e.srv.Stop()
						rt.Idle()
						if running && (!t.Done() || rt.Listening(port)) {
							rt.Fail("the server still runs after it was stopped")
						}
						want := 0
						if p != nil {
							want = 1
							if !p.ServerClosed() {
								rt.Fail("a connection is still open after stopping")
							}
							p = nil
						}
						if len(closed())-n != want {
							rt.Fail("stopping ran the close handler %d times for %d sessions", len(closed())-n, want)
						}
						running = false
					case 'd':
						if p != nil {
							continue
						}
						p = dial(13800138000)
						rt.Idle()
						if (p != nil) != running {
							rt.Fail("running: %v, but a connection is accepted: %v", running, p != nil)
						}
					case 'm':
						if p == nil {
							continue
						}
						n := len(handled(0))
						p.msg(idLocation, loc())
						rt.Idle()
						if len(handled(0)) != n+1 {
							rt.Fail("a message of a connection is not handled")
						}
					case 'f':
						if p == nil {
							continue
						}
						p.PeerClose()
						rt.Idle()
						if !p.ServerClosed() {
							rt.Fail("a dead connection is kept open")
						}
						p = nil
					}
				}
				want := 0
				if p != nil {
					want = 1
				}
				if n := e.srv.Broadcast(text("x")); n != want {
					rt.Fail("a broadcast counts %d sessions where %d are open", n, want)
				}
			})
		}
		// starts that fail leave the server usable
		for _, how := range []string{"busy-port", "bad-network", "bad-port"} {
			how := how
			add("failed-start", "failed-"+how, 2, func() {
				e := create()
				rt.Quiet(true)
				var other *env
				if how == "busy-port" {
					other = create()
					other.run()
					rt.Idle()
				}
				rt.Quiet(false)
				t := rt.Go("run", func() {
					var err error
					switch how {
					case "busy-port":
						err = e.srv.Run("tcp", port)
					case "bad-network":
						err = e.srv.Run("nonsense", port)
					case "bad-port":
						err = e.srv.Run("tcp", 70000)
					}
					rt.Log(evRet{Tag: "r", Err: err})
				})
				joinAll(t)
				if rets("r")[0].Err == nil {
					rt.Fail("a start that cannot listen reports no error")
				}
				t = rt.Go("stop", func() { e.srv.Stop() })
				joinAll(t)
				if other != nil {
					if !rt.Listening(port) || other.runT.Done() {
						rt.Fail("stopping a server that does not run stops another")
					}
					other.srv.Stop()
					rt.Idle()
				}
				cycle(e)
			})
		}
		return out
	}
}
