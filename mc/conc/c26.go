package main

// C26: what has ended leaves nothing behind. The same thing is done twice, first under the
// default schedule and then under every schedule; the second time must not leave more
// goroutines, timers or open files than the first.

import (
	"fmt"
	"os"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

type left struct{ threads, timers, files int }

func measure() left {
	rt.Idle()
	rt.Advance((keep + 4) * 1e9)
	rt.Idle()
	var l left
	l.threads, l.timers = rt.Live()
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		rt.Fail("%v", err)
	}
	l.files = len(es)
	return l
}

func (a left) grown(b left) {
	if b.threads > a.threads {
		rt.Fail("%d goroutines where %d were left the first time:\n%s", b.threads, a.threads, rt.Blocked())
	}
	if b.timers > a.timers {
		rt.Fail("%d timers where %d were left the first time", b.timers, a.timers)
	}
	if b.files > a.files {
		rt.Fail("%d open files where %d were left the first time", b.files, a.files)
	}
}

func init() {
	props["C26"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		serve := func(o go808.Options) *env {
			o.Keepalive = keep
			e := start(o)
			e.handleFn(idAuth, func(s *go808.Session, m *protocol.Message) { s.Close() })
			e.handle(idLocation)
			e.srv.AddHandler(0x0104, func(*go808.Session, *protocol.Message) {})
			e.handleUploads()
			return e
		}
		// open connects a terminal and brings its session into a state
		open := func(e *env, icc uint64, state, cause string) (*peer, *go808.Session) {
			rt.Quiet(true)
			p, s := e.session(icc)
			switch state {
			case "traffic":
				p.msg(idLocation, loc())
				p.msg(idUnknown, nil)
				s.Send(text("hello"))
				rt.Idle()
			case "request":
				for i := 0; i < 3; i++ {
					s.Request(reqEntity(i), func(*protocol.Message) {})
				}
				rt.Idle()
			case "upload":
				p.pkt(idMedia, 3, 1, media(9, "a"))
				p.pkt(idMedia, 3, 3, media(9, "c"))
				rt.Idle()
			case "queued":
				p.PeerStall(true)
				for i := 0; i < 3; i++ {
					s.Send(text("queued"))
				}
				rt.Idle()
			case "half":
				p.PeerSend([]byte{0x7e, 0, 2})
				rt.Idle()
			}
			if cause == "callback" {
				for {
					no, err := s.Request(reqEntity(0), func(*protocol.Message) { s.Close() })
					if err != nil {
						rt.Fail("request: %v", err)
					}
					if no == 1 {
						break
					}
					rt.Idle()
				}
				rt.Idle()
			}
			rt.Quiet(false)
			return p, s
		}
		states := []string{"plain", "traffic", "request", "upload", "queued", "half"}
		for _, st := range states {
			for _, c := range closers {
				st, c := st, c
				if st == "queued" && c == "callback" || st == "half" && (c == "handler" || c == "callback") {
					continue // the answer would not get there
				}
				b := pick(tier, 1, 2)
				if st == "plain" {
					b = pick(tier, 2, 3)
				}
				add("closed/"+st, "closed-"+st+"-"+c, b, func() {
					if st == "upload" {
						files()
					}
					e := serve(go808.Options{AutoMergePacket: st == "upload"})
					var was left
					for i := 0; i < 2; i++ {
						if i == 0 {
							rt.Quiet(true)
						}
						p, s := open(e, 13800138000, st, c)
						t := rt.Go(c, func() { act(c, e, p, s) })
						joinAll(t)
						rt.Idle()
						if st == "queued" || c == "full" {
							p.PeerReset()
							rt.Idle()
						}
						if i == 0 {
							rt.Quiet(false)
						}
						rt.Quiet(true)
						l := measure()
						if n := e.srv.Broadcast(text("x")); n != 0 {
							rt.Fail("%d sessions are left", n)
						}
						if !p.ServerClosed() {
							rt.Fail("the connection is left open")
						}
						if c == "stop" {
							e.run()
							rt.Idle()
						}
						rt.Quiet(false)
						if i == 1 {
							was.grown(l)
						}
						was = l
					}
				})
			}
		}
		// several connections that end together
		for _, c := range closers {
			for _, d := range closers {
				c, d := c, d
				if c == "callback" || d == "callback" {
					continue
				}
				add("two", "two-"+c+"-"+d, pick(tier, 0, 1), func() {
					e := serve(go808.Options{})
					var was left
					for i := 0; i < 3; i++ {
						rt.Quiet(true)
						p, s := open(e, 13800138000, "traffic", c)
						q, z := open(e, 13900139000, "request", d)
						rt.Quiet(false)
						t1 := rt.Go(c, func() { act(c, e, p, s) })
						t2 := rt.Go(d, func() { act(d, e, q, z) })
						joinAll(t1, t2)
						rt.Idle()
						rt.Quiet(true)
						p.PeerReset()
						q.PeerReset()
						l := measure()
						if c == "stop" || d == "stop" {
							e.run()
							rt.Idle()
						}
						rt.Quiet(false)
						if i > 0 {
							was.grown(l)
						}
						was = l
					}
				})
			}
		}
		// connections that end while they are being set up, and start/stop cycles
		for _, k := range []string{"fin", "reset", "junk", "msg-fin", "half-fin", "stop", "stop-connect"} {
			k := k
			add("early", "early-"+k, pick(tier, 2, 3), func() {
				e := serve(go808.Options{})
				var was left
				for i := 0; i < 2; i++ {
					if i == 0 {
						rt.Quiet(true)
					}
					p := dial(13800138000)
					switch k {
					case "fin":
						p.PeerClose()
					case "reset":
						p.PeerReset()
					case "junk":
						p.PeerSend([]byte{9})
					case "msg-fin":
						p.msg(idLocation, loc())
						p.PeerClose()
					case "half-fin":
						p.PeerSend([]byte{0x7e, 1})
						p.PeerClose()
					case "stop":
						joinAll(rt.Go("stop", e.srv.Stop))
					case "stop-connect":
						t := rt.Go("stop", e.srv.Stop)
						dial(13900139000)
						joinAll(t)
					}
					rt.Idle()
					if i == 0 {
						rt.Quiet(false)
					}
					rt.Quiet(true)
					l := measure()
					if k == "stop" || k == "stop-connect" {
						e.run()
						rt.Idle()
					}
					rt.Quiet(false)
					if i == 1 {
						was.grown(l)
					}
					was = l
				}
			})
		}
		// uploads: the files read for a merge are closed again, whatever the handler does
		for _, k := range []string{"read", "ignore", "panic", "close", "part", "none", "again", "fail"} {
			for _, n := range []uint16{1, 2, 5} {
				k, n := k, n
				add("uploads", fmt.Sprintf("upload-%s-%d", k, n), pick(tier, 1, 2), func() {
					files()
					e := serve(go808.Options{AutoMergePacket: true})
					if k != "none" {
						e.srv.AddHandler(idMedia, func(s *go808.Session, m *protocol.Message) {
							r := m.Body.(protocol.EntityPacket).GetReader()
							switch k {
							case "read", "again":
								var b [512]byte
								for {
									if _, err := r.Read(b[:]); err != nil {
										break
									}
								}
							case "part":
								var b [1]byte
								r.Read(b[:])
							case "panic":
								panic("upload handler")
							case "close":
								s.Close()
							}
						})
					}
					var was left
					for i := 0; i < 3; i++ {
						if i < 2 {
							rt.Quiet(true)
						}
						if k == "fail" { // the merged file cannot be created
							os.MkdirAll(fmt.Sprintf("%s/go808/13800138000/%d-%d.full/x", tmpRoot, idMedia, 9), 0755)
						}
						p, _ := e.session(13800138000)
						for j := n; j > 0; j-- {
							p.pkt(idMedia, n, j, media(9, "data"))
							if k == "again" {
								p.pkt(idMedia, n, j, media(9, "data"))
							}
						}
						rt.Idle()
						p.PeerClose()
						rt.Idle()
						if i < 2 {
							rt.Quiet(false)
						}
						rt.Quiet(true)
						l := measure()
						rt.Quiet(false)
						if i > 0 {
							was.grown(l)
						}
						was = l
					}
				})
			}
		}
		// what one session does over and over does not pile up either
		for _, k := range []string{"message", "unknown", "request", "send", "broadcast", "upload", "answer", "key"} {
			k := k
			add("repeated", "repeated-"+k, 0, func() {
				files()
				e := serve(go808.Options{AutoMergePacket: true})
				rt.Quiet(true)
				p, s := e.session(13800138000)
				var was left
				for i := 0; i < 4; i++ {
					for j := 0; j < 6; j++ {
						switch k {
						case "message":
							p.msg(idLocation, loc())
						case "unknown":
							p.msg(idUnknown, nil)
						case "request":
							s.Request(reqEntity(j), func(*protocol.Message) {})
						case "send":
							s.Send(text("x"))
						case "broadcast":
							e.srv.Broadcast(text("x"))
						case "upload":
							p.pkt(idMedia, 2, uint16(1+j%2), media(7, "x"))
						case "answer":
							no, _ := s.Request(reqEntity(0), func(*protocol.Message) {})
							rt.Idle()
							p.msg(0x0104, append(u16(no), 0))
						case "key":
							s.SetPublicKey(nil)
						}
						rt.Idle()
						rt.Advance(1e9)
						p.msg(idHeartbeat, nil)
						rt.Idle()
					}
					var l left
					l.threads, l.timers = rt.Live()
					es, _ := os.ReadDir("/proc/self/fd")
					l.files = len(es)
					if i > 1 {
						was.grown(l)
					}
					was = l
				}
				rt.Quiet(false)
			})
		}
		return out
	}
}
