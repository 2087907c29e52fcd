package main

import (
	"fmt"
	"strings"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// texts are message contents that stress framing: escapes, borders, long bodies.
var texts = []string{"plain", "~", "}", "~}~}", "}\x01", "}\x02", "", strings.Repeat("~", 400), strings.Repeat("x", 900), strings.Repeat("}~", 200)}

// texted lists the text messages on the wire.
func texted(p *peer) []string {
	var out []string
	for _, m := range p.wire() {
		if m.H.ID == idText {
			if len(m.Body) < 1 {
				rt.Fail("empty text message on the wire")
			}
			out = append(out, string(m.Body[1:]))
		}
	}
	return out
}

// sendTexts sends messages tag:0:..., tag:1:... and records the outcomes.
func sendTexts(s *go808.Session, tag string, n int) {
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("%s:%d:%s", tag, i, texts[(i+len(tag))%len(texts)])
		_, err := s.Send(text(t))
		rt.Log(evRet{Tag: tag, N: i, Err: err})
	}
}

// checkTexts: of each sender, the messages on the wire are the accepted ones, in order,
// each once and with its content; with all they are complete, otherwise a prefix.
func checkTexts(p *peer, all bool, tags ...string) {
	next := map[string]int{}
	for _, t := range texted(p) {
		f := strings.SplitN(t, ":", 3)
		if len(f) != 3 {
			rt.Fail("unexpected message %q on the wire", t)
		}
		known := false
		for _, tag := range tags {
			known = known || tag == f[0]
		}
		if !known {
			rt.Fail("message %q reached the wrong terminal", t)
		}
		i := next[f[0]]
		if f[1] != fmt.Sprint(i) {
			rt.Fail("message %s of sender %s is on the wire where message %d should be", f[1], f[0], i)
		}
		if f[2] != texts[(i+len(f[0]))%len(texts)] {
			rt.Fail("message %d of sender %s was changed: %q", i, f[0], f[2])
		}
		next[f[0]]++
	}
	for _, tag := range tags {
		acc := 0
		failed := false
		for _, r := range rets(tag) {
			if r.Err == nil {
				acc++
				if failed {
					rt.Fail("a send succeeded after an earlier one failed on the same session")
				}
			} else {
				failed = true
			}
		}
		if next[tag] > acc {
			rt.Fail("%d messages of sender %s are on the wire, %d were accepted", next[tag], tag, acc)
		}
		if all && (next[tag] != acc || failed) {
			rt.Fail("sender %s: %d messages accepted (failure: %v), %d on the wire", tag, acc, failed, next[tag])
		}
	}
}

func init() {
	props["C15"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		// one sender
		for n := 1; n <= 20; n++ {
			n := n
			b := 1
			if n <= 3 {
				b = pick(tier, 3, 5)
			}
			add("one-sender", fmt.Sprintf("one-%d", n), b, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				q, _ := e.session(13900139000)
				t := rt.Go("sender", func() { sendTexts(s, "a", n) })
				joinAll(t)
				checkTexts(p, true, "a")
				if len(q.Writes) != 0 {
					rt.Fail("something reached another terminal")
				}
			})
		}
		// every content by itself and after every other
		add("contents", "contents", 0, func() {
			e := start(go808.Options{})
			p, s := e.session(13800138000)
			rt.Quiet(true)
			for _, a := range texts {
				for _, b := range texts {
					k := len(texted(p))
					s.Send(text(a))
					s.Send(text(b))
					rt.Idle()
					w := texted(p)[k:]
					if len(w) != 2 || w[0] != a || w[1] != b {
						rt.Fail("messages %q and %q arrive as %q", a, b, w)
					}
				}
			}
			rt.Quiet(false)
		})
		// concurrent senders, on one and on two sessions
		for _, c := range []struct {
			n, k, b int
		}{{2, 1, pick(tier, 4, 6)}, {2, 2, pick(tier, 3, 4)}, {3, 2, pick(tier, 2, 3)}, {2, 4, pick(tier, 2, 3)}, {4, 1, pick(tier, 2, 3)}} {
			c := c
			add("concurrent", fmt.Sprintf("senders-%d-%d", c.n, c.k), c.b, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				var ts []*rt.Thread
				var tags []string
				for i := 0; i < c.n; i++ {
					tag := strings.Repeat("s", i+1)
					tags = append(tags, tag)
					ts = append(ts, rt.Go(tag, func() { sendTexts(s, tag, c.k) }))
				}
				joinAll(ts...)
				checkTexts(p, true, tags...)
			})
			add("two-sessions", fmt.Sprintf("sessions-%d-%d", c.n, c.k), c.b, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				q, qs := e.session(13900139000)
				var ts []*rt.Thread
				for i := 0; i < c.n; i++ {
					x, tag := s, "to-p"
					if i%2 == 1 {
						x, tag = qs, "for-q"
					}
					if i > 1 {
						tag += fmt.Sprint(i)
					}
					ts = append(ts, rt.Go(tag, func() { sendTexts(x, tag, c.k) }))
				}
				joinAll(ts...)
				var pt, qt []string
				for i := 0; i < c.n; i++ {
					tag := []string{"to-p", "for-q"}[i%2]
					if i > 1 {
						tag += fmt.Sprint(i)
					}
					if i%2 == 0 {
						pt = append(pt, tag)
					} else {
						qt = append(qt, tag)
					}
				}
				checkTexts(p, true, pt...)
				checkTexts(q, true, qt...)
				for _, m := range p.wire() {
					if m.H.Icc != p.icc {
						rt.Fail("a message to terminal %d carries the number %d", p.icc, m.H.Icc)
					}
				}
				for _, m := range q.wire() {
					if m.H.Icc != q.icc {
						rt.Fail("a message to terminal %d carries the number %d", q.icc, m.H.Icc)
					}
				}
			})
		}
		// sending while the session ends
		for _, k := range []string{"fin", "reset", "app", "junk", "stop", "handler"} {
			for n := 1; n <= 2; n++ {
				k, n := k, n
				add("while-closing", fmt.Sprintf("closing-%s-%d", k, n), pick(tier, 2, 3), func() {
					e := start(go808.Options{})
					p, s := e.session(13800138000)
					e.handleFn(idAuth, func(s *go808.Session, m *protocol.Message) { s.Close() })
					var ts []*rt.Thread
					var tags []string
					ts = append(ts, rt.Go("closer", func() { act(k, e, p, s) }))
					for i := 0; i < n; i++ {
						tag := strings.Repeat("s", i+1)
						tags = append(tags, tag)
						ts = append(ts, rt.Go(tag, func() { sendTexts(s, tag, 3) }))
					}
					joinAll(ts...)
					checkTexts(p, false, tags...)
				})
			}
		}
		// write errors: nothing follows a broken frame
		for _, short := range []int{0, 1, 7, 20} {
			short := short
			add("write-error", fmt.Sprintf("write-error-%d", short), pick(tier, 2, 3), func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				p.PeerFailWrite(1, short)
				t1 := rt.Go("s", func() { sendTexts(s, "s", 3) })
				t2 := rt.Go("ss", func() { sendTexts(s, "ss", 2) })
				joinAll(t1, t2)
				if len(p.Writes) > 2 {
					rt.Fail("%d writes although the second one failed", len(p.Writes))
				}
				checkTexts(p, false, "s", "ss")
				gone(e, p, s)
			})
		}
		// the terminal number: histories of messages with different numbers
		type step struct {
			icc  uint64
			kind string
		}
		var steps []step
		for _, icc := range []uint64{13800138000, 13900139000, 999999999999, 1, 0} {
			for _, k := range []string{"handled", "unhandled", "unknown", "undecodable", "answer", "part"} {
				steps = append(steps, step{icc, k})
			}
		}
		for _, merge := range []bool{false, true} {
			for i, a := range steps {
				for j, b := range steps {
					merge, a, b := merge, a, b
					if tier == "quick" && merge != ((i+j)%2 == 0) {
						continue
					}
					add("terminal-number", fmt.Sprintf("number-%v-%d-%d", merge, i, j), 0, func() {
						files()
						e := start(go808.Options{AutoMergePacket: merge})
						c12handlersReply(e)
						p := e.connect(0)
						var allowed []uint64
						allowed = []uint64{0}
						for n, st := range []step{a, b} {
							p.icc = st.icc
							k := len(p.wire())
							activity(st.kind, e, p, n)
							rt.Idle()
							// messages that are answered by the server itself need not count as processed
							soft := st.kind == "unknown" || st.kind == "undecodable" || st.kind == "part" && merge
							during := []uint64{st.icc}
							if st.icc == 0 { // no terminal number: the one known before stays
								during = allowed
							} else if soft {
								during = append(during, allowed...)
								allowed = during
							} else {
								allowed = during
							}
							for _, m := range p.wire()[k:] {
								if !hasIcc(during, m.H.Icc) {
									rt.Fail("after messages with terminal numbers %d, %d the %s message is answered with number %d", a.icc, b.icc, st.kind, m.H.Icc)
								}
							}
						}
						k := len(p.wire())
						e.srv.Broadcast(text("x"))
						rt.Idle()
						w := p.wire()[k:]
						if len(w) != 1 || !hasIcc(allowed, w[0].H.Icc) {
							rt.Fail("after messages with terminal numbers %d, %d a message was sent with number %d", a.icc, b.icc, w[0].H.Icc)
						}
					})
				}
			}
		}
		// the number changes while messages are being sent
		add("terminal-number", "number-race", pick(tier, 3, 4), func() {
			e := start(go808.Options{})
			p, s := e.session(13800138000)
			p.icc = 13900139000
			p.msg(idHeartbeat, nil)
			t := rt.Go("sender", func() { sendTexts(s, "s", 2) })
			joinAll(t)
			last := uint64(13800138000)
			for _, m := range p.wire() {
				if m.H.Icc != 13800138000 && m.H.Icc != 13900139000 || last == 13900139000 && m.H.Icc != last {
					rt.Fail("a message carries the terminal number %d", m.H.Icc)
				}
				last = m.H.Icc
			}
			checkTexts(p, true, "s")
		})
		// broadcasts
		for n := 0; n <= pick(tier, 4, 5); n++ {
			n := n
			add("broadcast", fmt.Sprintf("broadcast-%d", n), pick(tier, 2, 3), func() {
				e := start(go808.Options{})
				var ps []*peer
				for i := 0; i < n; i++ {
					p, _ := e.session(13800138000 + uint64(i))
					ps = append(ps, p)
				}
				t := rt.Go("b", func() { rt.Log(evRet{Tag: "b", N: e.srv.Broadcast(text("b:0:x"))}) })
				joinAll(t)
				if rets("b")[0].N != n {
					rt.Fail("a broadcast to %d sessions returned %d", n, rets("b")[0].N)
				}
				for _, p := range ps {
					if w := p.wire(); len(w) != 1 || w[0].H.Icc != p.icc || string(w[0].Body[1:]) != "b:0:x" {
						rt.Fail("a broadcast wrote %d messages to a session", len(w))
					}
				}
			})
		}
		for _, other := range []string{"broadcast", "send", "connect", "close", "fin", "stop", "lookup", "message", "add"} {
			other := other
			add("broadcast-race", "broadcast-vs-"+other, pick(tier, 2, 3), func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				q, qs := e.session(13900139000)
				var r *peer
				t1 := rt.Go("b", func() { rt.Log(evRet{Tag: "b", N: e.srv.Broadcast(text("b:0:x"))}) })
				t2 := rt.Go("other", func() {
					switch other {
					case "broadcast":
						rt.Log(evRet{Tag: "c", N: e.srv.Broadcast(text("c:0:x"))})
					case "send":
						sendTexts(s, "s", 2)
					case "connect":
						r = dial(13700137000)
						r.msg(idHeartbeat, nil)
					case "close":
						s.Close()
					case "fin":
						p.PeerClose()
					case "stop":
						e.srv.Stop()
					case "lookup":
						e.srv.GetSession(s.ID())
						e.srv.GetSession(qs.ID())
					case "message":
						p.msg(idUnknown, nil)
						q.msg(idHeartbeat, nil)
					case "add":
						e.srv.AddHandler(idLocation, panicHandler)
					}
				})
				joinAll(t1, t2)
				count := func(p *peer, t string) int {
					n := 0
					if p == nil {
						return 0
					}
					for _, x := range texted(p) {
						if x == t {
							n++
						}
					}
					return n
				}
				got := rets("b")[0].N
				cp, cq, cr := count(p, "b:0:x"), count(q, "b:0:x"), count(r, "b:0:x")
				if cp > 1 || cq > 1 || cr > 1 || cp+cq+cr > got {
					rt.Fail("a broadcast wrote %d+%d+%d messages and returned %d", cp, cq, cr, got)
				}
				switch other {
				case "connect":
					if cp != 1 || cq != 1 || got != 2+cr {
						rt.Fail("a broadcast during a connect wrote %d+%d+%d messages and returned %d", cp, cq, cr, got)
					}
				case "close", "fin":
					if cq != 1 || got < 1 || got > 2 {
						rt.Fail("a broadcast during a close wrote %d messages to the other session and returned %d", cq, got)
					}
				case "stop":
					if got > 2 {
						rt.Fail("a broadcast to two sessions returned %d", got)
					}
				default:
					if cp != 1 || cq != 1 || got != 2 {
						rt.Fail("a broadcast to two sessions wrote %d+%d messages and returned %d", cp, cq, got)
					}
				}
				if other == "broadcast" && (rets("c")[0].N != 2 || count(p, "c:0:x") != 1 || count(q, "c:0:x") != 1) {
					rt.Fail("the second broadcast did not reach both sessions once")
				}
			})
		}
		// terminals that do not read
		for _, n := range []int{1, 2, 3} {
			n := n
			add("stalled", fmt.Sprintf("stalled-broadcast-%d", n), pick(tier, 1, 2), func() {
				e := start(go808.Options{})
				var ps []*peer
				var ss []*go808.Session
				for i := 0; i < 3; i++ {
					p, s := e.session(13800138000 + uint64(i))
					ps, ss = append(ps, p), append(ss, s)
				}
				for i := 0; i < n; i++ {
					ps[i].PeerStall(true)
				}
				t := rt.Go("b", func() { rt.Log(evRet{Tag: "b", N: e.srv.Broadcast(text("b:0:x"))}) })
				joinAll(t)
				if rets("b")[0].N != 3 {
					rt.Fail("a broadcast to three sessions returned %d", rets("b")[0].N)
				}
				for i := n; i < 3; i++ {
					if len(ps[i].wire()) != 1 {
						rt.Fail("a terminal that does not read holds up a broadcast to others")
					}
				}
				for i := 0; i < n; i++ {
					ps[i].PeerStall(false)
				}
				rt.Idle()
				for i := range ps {
					if len(ps[i].wire()) != 1 {
						rt.Fail("a broadcast wrote %d messages to a session", len(ps[i].wire()))
					}
					alive(ps[i], ss[i])
				}
			})
		}
		for _, how := range []string{"send", "broadcast", "request", "reply"} {
			how := how
			add("queue-full", "full-"+how, pick(tier, 1, 2), func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				q, qs := e.session(13900139000)
				p.PeerStall(true)
				t := rt.Go("sender", func() {
					for i := 0; i < 3000; i++ {
						var err error
						switch how {
						case "send":
							_, err = s.Send(text("fill"))
						case "request":
							_, err = s.Request(reqEntity(0), func(*protocol.Message) {})
						case "reply":
							_, err = s.Reply(&protocol.Message{Header: protocol.Header{MsgSerialNo: uint16(i), MsgID: 2}}, 0)
						case "broadcast":
							n := e.srv.Broadcast(text("fill"))
							if n == 1 {
								err = fmt.Errorf("refused")
							} else if n != 2 {
								rt.Fail("a broadcast to two sessions returned %d", n)
							}
							rt.Point("wait", func() bool { return len(q.Writes) > i })
						}
						if err != nil {
							rt.Log(evRet{Tag: "full", N: i, Err: err})
							return
						}
					}
				})
				joinAll(t)
				if len(rets("full")) != 1 {
					rt.Fail("3000 messages are queued for a terminal that does not read")
				}
				if rets("full")[0].N < 1 {
					rt.Fail("the first message is refused because the terminal does not read")
				}
				rt.Quiet(true)
				gone(e, p, s)
				bystander(e, q, qs)
				rt.Quiet(false)
			})
		}
		// a queue that empties again
		for _, k := range []int{1, 2, 10, 20} {
			k := k
			add("stalled", fmt.Sprintf("stalled-%d", k), 1, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				p.PeerStall(true)
				t := rt.Go("sender", func() { sendTexts(s, "s", k) })
				joinAll(t)
				p.PeerStall(false)
				rt.Idle()
				checkTexts(p, true, "s")
				alive(p, s)
			})
		}
		return out
	}
}

func hasIcc(l []uint64, x uint64) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// c12handlersReply registers handlers that answer.
func c12handlersReply(e *env) {
	for _, id := range []uint16{idHeartbeat, 0x0001, idMedia, idLocation} {
		e.handleFn(id, func(s *go808.Session, m *protocol.Message) { s.Reply(m, protocol.T808_0x8001ResultSuccess) })
	}
}
