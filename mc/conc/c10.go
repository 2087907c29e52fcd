package main

import (
	"fmt"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// sendN sends n text messages from the calling thread and records the returned numbers.
func sendN(s *go808.Session, tag string, n int) {
	for i := 0; i < n; i++ {
		no, err := s.Send(text(fmt.Sprintf("%s%d", tag, i)))
		rt.Log(evRet{Tag: "send", Serial: no, Err: err})
	}
}

// drain sends n messages under the default schedule, letting the queue empty.
func drain(s *go808.Session, n int) {
	rt.Quiet(true)
	for n > 0 {
		k := n
		if k > 20 {
			k = 20
		}
		for i := 0; i < k; i++ {
			no, err := s.Send(text("x"))
			if err != nil {
				rt.Fail("send on an open session failed: %v", err)
			}
			rt.Log(evRet{Tag: "pre", Serial: no})
		}
		n -= k
		rt.Idle()
	}
	rt.Quiet(false)
}

// checkSerials: every window of messages on the wire has distinct numbers in range, and
// the returned numbers are the numbers on the wire.
func checkSerials(p *peer, window int, want int) []uint16 {
	ms := p.wire()
	if want >= 0 && len(ms) != want {
		rt.Fail("%d messages sent, %d on the wire", want, len(ms))
	}
	last := map[uint16]int{}
	var out []uint16
	for i, m := range ms {
		s := m.H.Serial
		if s == 0 {
			rt.Fail("message %d carries serial number 0", i)
		}
		if j, ok := last[s]; ok && i-j < window {
			rt.Fail("messages %d and %d of a session carry the same serial number %d", j, i, s)
		}
		last[s] = i
		out = append(out, s)
	}
	return out
}

func matchReturned(wire []uint16, tags ...string) {
	n := map[uint16]int{}
	for _, s := range wire {
		n[s]++
	}
	for _, tag := range tags {
		for _, r := range rets(tag) {
			if r.Err != nil {
				continue
			}
			n[r.Serial]--
			if n[r.Serial] < 0 {
				rt.Fail("the sender was told serial number %d, which is not on the wire that often", r.Serial)
			}
		}
	}
}

func init() {
	props["C10"] = func(tier string) []Scen {
		var out []Scen
		// the sequence of numbers itself, over more than two wrap-arounds, and beyond what 16 bits hold
		for _, n := range []int{600, 66200} {
			n := n
			out = append(out, Scen{Fam: "sequence", Name: fmt.Sprintf("sequence-%d", n), Bound: 0, Horizon: 1 << 22, Run: func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				drain(s, n)
				w := checkSerials(p, 255, n)
				for i, r := range rets("pre") {
					if r.Serial != w[i] {
						rt.Fail("message %d: returned %d, on the wire %d", i, r.Serial, w[i])
					}
				}
			}})
		}
		// concurrent senders, from different starting points of the counter
		for _, pre := range []int{0, 1, 252, 253, 254, 255, 65533, 65534, 65535} {
			for _, ops := range [][]string{{"send", "send"}, {"send", "request"}, {"reply", "send"}, {"broadcast", "send"}, {"send", "send", "send"}, {"request", "request", "reply"}} {
				pre, ops := pre, ops
				if tier == "quick" && (pre > 1 && len(ops) > 2 || pre == 252) {
					continue
				}
				b := pick(tier, 2, 3)
				if len(ops) > 2 || pre > 1 {
					b = pick(tier, 2, 2)
				}
				if pre > 255 {
					b = 1
					if len(ops) > 2 || tier == "quick" && (pre != 65534 || ops[1] != "send" || ops[0] != "send") {
						continue
					}
				}
				out = append(out, Scen{Fam: "concurrent-senders", Name: fmt.Sprintf("senders-%v-after-%d", ops, pre), Bound: b, Horizon: 60000 + 12*pre, Run: func() {
					e := start(go808.Options{})
					p, s := e.session(13800138000)
					drain(s, pre)
					var ts []*rt.Thread
					for i, op := range ops {
						i, op := i, op
						ts = append(ts, rt.Go(op, func() {
							for k := 0; k < 2; k++ {
								var no uint16
								var err error
								tag := "send"
								switch op {
								case "send":
									no, err = s.Send(text(fmt.Sprint(i, k)))
								case "request":
									no, err = s.Request(text(fmt.Sprint(i, k)), func(*protocol.Message) {})
								case "reply":
									no, err = s.Reply(&protocol.Message{Header: protocol.Header{MsgID: 2, MsgSerialNo: 7}}, 0)
								case "broadcast":
									e.srv.Broadcast(text(fmt.Sprint(i, k)))
									tag = "broadcast"
								}
								if err != nil {
									rt.Fail("%s on an open session failed: %v", op, err)
								}
								rt.Log(evRet{Tag: tag, Serial: no})
							}
						}))
					}
					joinAll(ts...)
					w := checkSerials(p, 255-2*len(ops), pre+2*len(ops))
					matchReturned(w, "pre", "send")
				}})
			}
		}
		// each sender's number is on its own message
		out = append(out, Scen{Fam: "own-number", Name: "own-number", Bound: pick(tier, 2, 3), Run: func() {
			e := start(go808.Options{})
			p, s := e.session(13800138000)
			var ts []*rt.Thread
			for i := 0; i < 3; i++ {
				i := i
				ts = append(ts, rt.Go("sender", func() {
					no, err := s.Send(text(fmt.Sprintf("m%d", i)))
					rt.Log(evRet{Tag: fmt.Sprintf("m%d", i), Serial: no, Err: err})
				}))
			}
			joinAll(ts...)
			for _, m := range p.wire() {
				r := rets(string(m.Body[1:]))
				if len(r) != 1 || r[0].Serial != m.H.Serial || r[0].Err != nil {
					rt.Fail("message %q has serial number %d on the wire, its sender was told %+v", m.Body[1:], m.H.Serial, r)
				}
			}
		}})
		// other sessions have no influence
		for _, k := range []int{0, 1, 5} {
			k := k
			out = append(out, Scen{Fam: "independent-sessions", Name: fmt.Sprintf("sessions-%d", k), Bound: pick(tier, 2, 3), Run: func() {
				e := start(go808.Options{})
				pa, a := e.session(13800138000)
				pb, b := e.session(13900139000)
				drain(a, k)
				ta := rt.Go("a", func() { sendN(a, "a", 2) })
				tb := rt.Go("b", func() { sendN(b, "b", 2) })
				joinAll(ta, tb)
				drain(b, k)
				wa, wb := checkSerials(pa, 255, k+2), checkSerials(pb, 255, k+2)
				for i := range wa {
					if wa[i] != wb[i] {
						rt.Fail("message %d has serial number %d on one session and %d on another with the same history", i, wa[i], wb[i])
					}
				}
			}})
		}
		return out
	}
}
