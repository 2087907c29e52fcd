package main

import (
	"fmt"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// loc is a valid location body.
func loc() []byte {
	b := make([]byte, 22)
	b[7] = 2
	return append(b, 0x24, 0x01, 0x02, 0x03, 0x04, 0x05)
}

// answer kinds: message ID and body for a request serial number.
var answers = []struct {
	ID   uint16
	Body func(serial uint16) []byte
}{
	{0x0001, func(s uint16) []byte { return append(u16(s), 0x83, 0x00, 0) }},
	{0x0104, func(s uint16) []byte { return append(u16(s), 0) }},
	{0x0201, func(s uint16) []byte { return append(u16(s), loc()...) }},
	{0x0302, func(s uint16) []byte { return append(u16(s), 1) }},
	{0x0500, func(s uint16) []byte { return append(u16(s), loc()...) }},
	{0x0700, func(s uint16) []byte { return append(u16(s), 0x08, 1, 2, 3) }},
	{0x0802, func(s uint16) []byte { return append(u16(s), 0, 0) }},
	{0x0805, func(s uint16) []byte { return append(u16(s), 0, 0, 0) }},
}

func answerIDs() []uint16 {
	var ids []uint16
	for _, a := range answers {
		ids = append(ids, a.ID)
	}
	return ids
}

// requests of different message types
func reqEntity(i int) protocol.Entity {
	switch i {
	case 0:
		return &protocol.T808_0x8104{}
	case 1:
		return &protocol.T808_0x8201{}
	case 2:
		return &protocol.T808_0x8300{Flag: 1, Text: "q"}
	case 3:
		return &protocol.T808_0x8107{}
	case 5:
		return &protocol.T808_0x8500{Flag: 1}
	}
	return &protocol.T808_0x8702{}
}

// request issues a request whose callback is recorded under tag.
func request(s *go808.Session, ent protocol.Entity, tag string) {
	st := rt.Step()
	no, err := s.Request(ent, record(tag))
	rt.Log(evRet{Tag: tag, Serial: no, Err: err, Start: st, Step: rt.Step()})
}

func record(tag string) func(m *protocol.Message) {
	return func(m *protocol.Message) {
		rt.Log(evCB{Tag: tag, Serial: m.Header.MsgSerialNo, Msg: m.Header.MsgID, Step: rt.Step()})
	}
}

// autoAnswer makes the terminal answer each frame it receives at once, with the answer kind
// chosen by kind (nil result: no answer). It returns a function listing, per request serial,
// the serial number of the answer message.
func autoAnswer(p *peer, kind func(m wireMsg) int) *answered {
	a := &answered{p: p}
	p.PeerOnWrite(func(b []byte) {
		ms, err := parse(b)
		if err != nil {
			return
		}
		for _, m := range ms {
			if k := kind(m); k >= 0 {
				no := p.msg(answers[k].ID, answers[k].Body(m.H.Serial))
				rt.Log(evAns{P: p, Req: m.H.Serial, Ans: no})
			}
		}
	})
	return a
}

type answered struct{ p *peer }

type evAns struct {
	P        *peer
	Req, Ans uint16
}

// to is the serial number of the terminal's latest answer to a request.
func (a *answered) to(req uint16) uint16 {
	n := uint16(0)
	for _, e := range rt.Events() {
		if x, ok := e.(evAns); ok && x.P == a.p && x.Req == req {
			n = x.Ans
		}
	}
	return n
}

// wantCB checks that the callback under tag ran n times, always with the given answer.
func wantCB(tag string, n int, answer uint16) {
	k := 0
	for _, c := range cbs() {
		if c.Tag == tag {
			k++
			if answer != 0 && c.Serial != answer {
				rt.Fail("the callback of request %s ran with message %d instead of its answer %d", tag, c.Serial, answer)
			}
		}
	}
	if k != n {
		rt.Fail("the callback of request %s ran %d times instead of %d", tag, k, n)
	}
}

// wantDispatched checks that each message serial of the terminal was dispatched once.
func wantDispatched(serials ...uint16) {
	n := map[uint16]int{}
	for _, h := range handled(0) {
		n[h.H.MsgSerialNo]++
	}
	for _, s := range serials {
		if n[s] != 1 {
			rt.Fail("answer message %d was dispatched %d times to its handler", s, n[s])
		}
	}
}

// alive checks that the session still works: a heartbeat is handled and a send arrives.
func alive(p *peer, s *go808.Session) {
	rt.Quiet(true)
	n := len(handled(0))
	p.PeerOnWrite(nil)
	k := len(p.wire())
	p.msg(idHeartbeat, nil)
	rt.Idle()
	if len(handled(0)) != n+1 {
		rt.Fail("the session does not handle messages any more (closed by server: %v)", p.ServerClosed())
	}
	if _, err := s.Send(text("alive")); err != nil {
		rt.Fail("the session cannot send any more: %v", err)
	}
	rt.Idle()
	if len(p.wire()) != k+1 {
		rt.Fail("a message sent does not reach the terminal any more")
	}
	rt.Quiet(false)
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func init() {
	props["C11"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		// the answer may overtake the requesting goroutine
		for i := range answers {
			i := i
			add("immediate-answer", fmt.Sprintf("immediate-%04x", answers[i].ID), pick(tier, 4, 6), func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				e.handle(answerIDs()...)
				ans := autoAnswer(p, func(m wireMsg) int { return i })
				t := rt.Go("requester", func() { request(s, reqEntity(0), "q") })
				joinAll(t)
				r := rets("q")[0]
				if r.Err != nil {
					rt.Fail("request failed: %v", r.Err)
				}
				wantCB("q", 1, ans.to(r.Serial))
				wantDispatched(ans.to(r.Serial))
				alive(p, s)
			})
		}
		// concurrent requests of different types, answered at once
		for _, n := range []int{2, 3} {
			n := n
			b := pick(tier, 4, 6)
			if n == 3 {
				b = pick(tier, 3, 4)
			}
			add("concurrent-requests", fmt.Sprintf("concurrent-%d", n), b, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				e.handle(answerIDs()...)
				ans := autoAnswer(p, func(m wireMsg) int { return int(m.H.Serial) % len(answers) })
				var ts []*rt.Thread
				for i := 0; i < n; i++ {
					i := i
					ts = append(ts, rt.Go("requester", func() { request(s, reqEntity(i), fmt.Sprint("q", i)) }))
				}
				joinAll(ts...)
				for i := 0; i < n; i++ {
					r := rets(fmt.Sprint("q", i))[0]
					if r.Err != nil {
						rt.Fail("request failed: %v", r.Err)
					}
					wantCB(fmt.Sprint("q", i), 1, ans.to(r.Serial))
					wantDispatched(ans.to(r.Serial))
				}
			})
		}
		// requests and plain sends mixed: an answer to a plain message runs nothing
		add("requests-and-sends", "request-and-send", pick(tier, 4, 6), func() {
			e := start(go808.Options{})
			p, s := e.session(13800138000)
			e.handle(answerIDs()...)
			ans := autoAnswer(p, func(m wireMsg) int { return 0 })
			t1 := rt.Go("requester", func() { request(s, reqEntity(0), "q") })
			t2 := rt.Go("sender", func() {
				no, err := s.Send(text("plain"))
				rt.Log(evRet{Tag: "plain", Serial: no, Err: err})
			})
			joinAll(t1, t2)
			wantCB("q", 1, ans.to(rets("q")[0].Serial))
			wantDispatched(ans.to(rets("q")[0].Serial), ans.to(rets("plain")[0].Serial))
			if len(cbs()) != 1 {
				rt.Fail("%d callbacks ran for one request", len(cbs()))
			}
		})
		// a new request while another one is being answered
		add("request-vs-answer", "request-vs-answer", pick(tier, 4, 6), func() {
			e := start(go808.Options{})
			p, s := e.session(13800138000)
			e.handle(answerIDs()...)
			rt.Quiet(true)
			request(s, reqEntity(0), "a")
			request(s, reqEntity(1), "b")
			rt.Idle()
			rt.Quiet(false)
			ra, rb := rets("a")[0], rets("b")[0]
			sa := p.msg(answers[1].ID, answers[1].Body(ra.Serial))
			sb := p.msg(answers[2].ID, answers[2].Body(rb.Serial))
			ans := autoAnswer(p, func(m wireMsg) int { return 3 })
			t := rt.Go("requester", func() { request(s, reqEntity(2), "c") })
			joinAll(t)
			wantCB("a", 1, sa)
			wantCB("b", 1, sb)
			wantCB("c", 1, ans.to(rets("c")[0].Serial))
		})
		// outstanding requests answered in every order, with duplicates and strangers between
		for n := 1; n <= pick(tier, 4, 6); n++ {
			for pi, perm := range perms(n) {
				n, perm := n, perm
				for v := 0; v < 3; v++ {
					v := v
					b := 0
					if n <= 3 {
						b = 1
					}
					add("answer-orders", fmt.Sprintf("order-%d-%d-%d", n, pi, v), b, func() {
						e := start(go808.Options{})
						p, s := e.session(13800138000)
						e.handle(answerIDs()...)
						rt.Quiet(true)
						for i := 0; i < n; i++ {
							request(s, reqEntity(i), fmt.Sprint("q", i))
						}
						rt.Idle()
						rt.Quiet(false)
						want := map[string]uint16{}
						for j, i := range perm {
							r := rets(fmt.Sprint("q", i))[0]
							k := (i + j) % len(answers)
							if v == 1 { // an answer nobody asked for
								p.msg(answers[k].ID, answers[k].Body(200))
								p.msg(answers[k].ID, answers[k].Body(0))
							}
							want[fmt.Sprint("q", i)] = p.msg(answers[k].ID, answers[k].Body(r.Serial))
							if v == 2 { // the same answer again
								p.msg(answers[k].ID, answers[k].Body(r.Serial))
							}
						}
						rt.Idle()
						for tag, a := range want {
							wantCB(tag, 1, a)
						}
						for q := uint16(2); q <= p.serial; q++ {
							wantDispatched(q)
						}
						alive(p, s)
					})
				}
			}
		}
		// a newer request of the same type takes over
		for v := 0; v < 4; v++ {
			v := v
			add("replaced", fmt.Sprintf("replaced-%d", v), 1, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				e.handle(answerIDs()...)
				rt.Quiet(true)
				request(s, reqEntity(0), "old")
				if v >= 2 {
					request(s, reqEntity(1), "other")
				}
				request(s, reqEntity(0), "new")
				rt.Idle()
				rt.Quiet(false)
				ro, rn := rets("old")[0], rets("new")[0]
				var so, sn uint16
				if v%2 == 0 {
					so = p.msg(answers[1].ID, answers[1].Body(ro.Serial))
					sn = p.msg(answers[1].ID, answers[1].Body(rn.Serial))
				} else {
					sn = p.msg(answers[1].ID, answers[1].Body(rn.Serial))
					so = p.msg(answers[1].ID, answers[1].Body(ro.Serial))
				}
				if v >= 2 {
					x := p.msg(answers[2].ID, answers[2].Body(rets("other")[0].Serial))
					rt.Idle()
					wantCB("other", 1, x)
				}
				rt.Idle()
				wantCB("new", 1, sn)
				for _, c := range cbs() {
					if c.Tag == "old" && c.Serial != so {
						rt.Fail("the callback of the replaced request ran with message %d, which does not answer it", c.Serial)
					}
				}
				wantDispatched(so, sn)
			})
		}
		// serial numbers wrap around while a request is pending
		for v := 0; v < 3; v++ {
			v := v
			add("serial-reuse", fmt.Sprintf("serial-reuse-%d", v), 0, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				e.handle(answerIDs()...)
				rt.Quiet(true)
				request(s, reqEntity(0), "old")
				old := rets("old")[0].Serial
				for i := 0; i < 70000; i++ {
					no, err := s.Send(text("x"))
					if err != nil {
						rt.Fail("send failed: %v", err)
					}
					if i%16 == 15 {
						rt.Idle()
					}
					if no == 0xffff && old == 1 || no+1 == old || no == 255 && old == 1 {
						break
					}
				}
				rt.Idle()
				switch v {
				case 0:
					request(s, reqEntity(1), "new")
				case 1:
					no, _ := s.Request(reqEntity(1), nil)
					rt.Log(evRet{Tag: "new", Serial: no})
				case 2:
					request(s, reqEntity(0), "new")
				}
				rt.Idle()
				if rets("new")[0].Serial != old {
					return // this implementation does not reuse the number here
				}
				a := p.msg(answers[1].ID, answers[1].Body(old))
				rt.Idle()
				if v == 1 {
					if len(cbs()) != 0 {
						rt.Fail("an answer to a request without a callback ran the callback of an older request")
					}
				} else {
					wantCB("new", 1, a)
					wantCB("old", 0, 0)
				}
				wantDispatched(a)
				// and again: nothing is left
				p.msg(answers[1].ID, answers[1].Body(old))
				rt.Idle()
				if v != 1 {
					wantCB("new", 1, a)
				}
				wantCB("old", 0, 0)
				rt.Quiet(false)
			})
		}
		// another session's answers
		add("other-session", "other-session", pick(tier, 3, 4), func() {
			e := start(go808.Options{})
			pa, a := e.session(13800138000)
			pb, b := e.session(13900139000)
			e.handle(answerIDs()...)
			aa := autoAnswer(pa, func(m wireMsg) int { return 1 })
			ab := autoAnswer(pb, func(m wireMsg) int { return 1 })
			pb.serial += 100 // tell the terminals' messages apart
			t1 := rt.Go("a", func() { request(a, reqEntity(0), "a") })
			t2 := rt.Go("b", func() { request(b, reqEntity(0), "b") })
			joinAll(t1, t2)
			wantCB("a", 1, aa.to(rets("a")[0].Serial))
			wantCB("b", 1, ab.to(rets("b")[0].Serial))
		})
		add("other-session", "foreign-answer", 1, func() {
			e := start(go808.Options{})
			pa, a := e.session(13800138000)
			pb, b := e.session(13900139000)
			e.handle(answerIDs()...)
			rt.Quiet(true)
			request(a, reqEntity(0), "a")
			rt.Idle()
			rt.Quiet(false)
			no := rets("a")[0].Serial
			pb.msg(answers[1].ID, answers[1].Body(no))
			rt.Idle()
			wantCB("a", 0, 0)
			x := pa.msg(answers[1].ID, answers[1].Body(no))
			rt.Idle()
			wantCB("a", 1, x)
			alive(pb, b)
		})
		// callbacks that panic, request again, send, or close
		for _, kind := range []string{"panic", "panic-first", "nested", "send", "close", "slow"} {
			kind := kind
			add("callback-behaviour", "callback-"+kind, 1, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				e.handle(answerIDs()...)
				q, _ := e.session(13900139000)
				ans := autoAnswer(p, func(m wireMsg) int {
					if m.H.ID == idText {
						return -1
					}
					return 1
				})
				t := rt.Go("requester", func() {
					no, err := s.Request(reqEntity(0), func(m *protocol.Message) {
						rt.Log(evCB{Tag: "q", Serial: m.Header.MsgSerialNo})
						switch kind {
						case "panic", "panic-first":
							panic("callback")
						case "nested":
							request(s, reqEntity(1), "q2")
						case "send":
							s.Send(text("from callback"))
						case "close":
							s.Close()
						}
					})
					rt.Log(evRet{Tag: "q", Serial: no, Err: err})
					if kind == "panic-first" {
						request(s, reqEntity(1), "q2")
					}
				})
				joinAll(t)
				wantCB("q", 1, ans.to(rets("q")[0].Serial))
				if kind == "nested" || kind == "panic-first" {
					wantCB("q2", 1, ans.to(rets("q2")[0].Serial))
				}
				if kind == "close" {
					if len(closed()) != 1 {
						rt.Fail("close handler ran %d times", len(closed()))
					}
				} else {
					alive(p, s)
				}
				n := len(handled(0))
				q.msg(idHeartbeat, nil)
				rt.Idle()
				if len(handled(0)) != n+1 {
					rt.Fail("another session is disturbed by a callback")
				}
			})
		}
		// a request on a closed or blocked session fails and leaves nothing behind
		add("failed-request", "failed-request", pick(tier, 3, 4), func() {
			e := start(go808.Options{})
			p, s := e.session(13800138000)
			e.handle(answerIDs()...)
			ans := autoAnswer(p, func(m wireMsg) int { return 1 })
			t1 := rt.Go("closer", func() { s.Close() })
			t2 := rt.Go("requester", func() { request(s, reqEntity(0), "q") })
			joinAll(t1, t2)
			r := rets("q")[0]
			if r.Err != nil {
				wantCB("q", 0, 0)
			}
			n := 0
			for _, c := range cbs() {
				if c.Serial != ans.to(r.Serial) {
					rt.Fail("callback ran with message %d", c.Serial)
				}
				n++
			}
			if n > 1 {
				rt.Fail("callback ran %d times", n)
			}
		})
		return out
	}
}
