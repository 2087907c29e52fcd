package main

import (
	"encoding/hex"
	"fmt"
	"io"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/shopspring/decimal"
	"verifmc/rt"
)

// c22 is a running server with two sessions, used by several goroutines at once. Every
// scenario is judged by the happens-before race detector (see execute) and by the absence of
// deadlocks and panics.
type c22 struct {
	*env
	p  [2]*peer
	s  [2]*go808.Session
	m  *protocol.Message
	tm *go808.CountdownTimer
}

func shared() *c22 {
	files()
	rt.Quiet(true)
	c := &c22{env: start(go808.Options{Keepalive: keep, AutoMergePacket: true, PrivateKey: key()})}
	for i := range c.p {
		c.p[i], c.s[i] = c.session(13800138000 + uint64(i))
	}
	c.srv.AddHandler(idLocation, func(s *go808.Session, m *protocol.Message) {
		s.Reply(m, protocol.T808_0x8001ResultSuccess)
		s.GetPublicKey()
	})
	c.srv.AddHandler(idMedia, func(s *go808.Session, m *protocol.Message) {
		if b, ok := m.Body.(*protocol.T808_0x0801); ok && b.Packet != nil {
			io.ReadAll(b.Packet)
		}
	})
	c.srv.AddHandler(0x0a00, func(s *go808.Session, m *protocol.Message) {
		s.SetPublicKey(m.Body.(*protocol.T808_0x0A00).PublicKey)
		s.Send(text("key"))
	})
	c.srv.AddHandler(idLogout, func(s *go808.Session, m *protocol.Message) { s.Close() })
	c.m = &protocol.Message{Header: protocol.Header{MsgID: idLocation, IccID: 13800138000, MsgSerialNo: 5}, Body: new(protocol.T808_0x0200)}
	request(c.s[0], reqEntity(0), "pending") // serial 1
	c.s[0].SetPublicKey(&key().PublicKey)
	rt.Idle()
	c.tm = go808.NewCountdownTimer(2, func(string) {})
	c.tm.Update("x")
	c.tm.Update("y")
	rt.Idle()
	rt.Quiet(false)
	return c
}

// apiOps are the operations two or three of which are performed at the same time.
var apiOps = []struct {
	name string
	run  func(c *c22)
}{
	{"send", func(c *c22) { c.s[0].Send(text("a")) }},
	{"send-other", func(c *c22) { c.s[1].Send(text("a")) }},
	{"reply", func(c *c22) { c.s[0].Reply(c.m, protocol.T808_0x8001ResultSuccess) }},
	{"request", func(c *c22) { request(c.s[0], reqEntity(1), "r") }},
	{"broadcast", func(c *c22) { c.srv.Broadcast(text("b")) }},
	{"lookup", func(c *c22) {
		if s, ok := c.srv.GetSession(c.s[0].ID()); ok {
			s.GetServer().GetPrivateKey()
		}
	}},
	{"add-handler", func(c *c22) { c.srv.AddHandler(idLocation, func(*go808.Session, *protocol.Message) {}) }},
	{"new-handler", func(c *c22) { c.srv.AddHandler(0x0900, func(*go808.Session, *protocol.Message) {}) }},
	{"set-key", func(c *c22) { c.s[0].SetPublicKey(&key().PublicKey) }},
	{"drop-key", func(c *c22) { c.s[0].SetPublicKey(nil) }},
	{"get-key", func(c *c22) { c.s[0].GetPublicKey() }},
	{"close", func(c *c22) { c.s[0].Close() }},
	{"stop", func(c *c22) { c.srv.Stop() }},
	{"location", func(c *c22) { c.p[0].msg(idLocation, loc()) }},
	{"location-other", func(c *c22) { c.p[1].msg(idLocation, loc()) }},
	{"answer", func(c *c22) { c.p[0].msg(0x0104, append(u16(1), 0)) }},
	{"general-answer", func(c *c22) { c.p[0].msg(0x0001, []byte{0, 1, 0x81, 4, 0}) }},
	{"unknown", func(c *c22) { c.p[0].msg(idUnknown, nil) }},
	{"upload", func(c *c22) {
		c.p[0].pkt(idMedia, 2, 1, media(7, "x"))
		c.p[0].pkt(idMedia, 2, 2, media(7, "y"))
	}},
	{"upload-other", func(c *c22) {
		c.p[1].pkt(idMedia, 2, 1, media(7, "x"))
		c.p[1].pkt(idMedia, 2, 2, media(7, "y"))
	}},
	{"upload-whole", func(c *c22) { c.p[1].msg(idMedia, media(8, "z")) }},
	{"their-key", func(c *c22) { c.p[0].msg(0x0a00, append(u32(65537), key().N.Bytes()...)) }},
	{"logout", func(c *c22) { c.p[0].msg(idLogout, nil) }},
	{"hang-up", func(c *c22) { c.p[0].PeerClose() }},
	{"junk", func(c *c22) { c.p[0].PeerSend([]byte{1, 2}) }},
	{"write-error", func(c *c22) { c.p[0].PeerFailWrite(0, 3) }},
	{"connect", func(c *c22) {
		if p := dial(13700137000); p != nil {
			p.msg(idHeartbeat, nil)
		}
	}},
	{"timeout", func(c *c22) { rt.Jump((keep + 2) * 1e9) }},
	{"tick", func(c *c22) { rt.Jump(1e9) }},
	{"timer-arm", func(c *c22) { c.tm.Update("x"); c.tm.Update("z") }},
	{"timer-drop", func(c *c22) { c.tm.Remove("x") }},
	{"timer-period", func(c *c22) { c.tm.SetExpiration(3) }},
	{"another-server", func(c *c22) {
		s, err := go808.NewServer(go808.Options{})
		if err != nil {
			rt.Fail("NewServer: %v", err)
		}
		s.AddHandler(idLocation, func(*go808.Session, *protocol.Message) {})
		s.Broadcast(text("n"))
		s.Stop()
	}},
	{"another-timer", func(c *c22) {
		t := go808.NewCountdownTimer(1, func(string) {})
		t.Update("k")
	}},
	{"codec", func(c *c22) {
		m := &protocol.Message{Header: protocol.Header{MsgID: 0x8300, IccID: 1}, Body: text("路")}
		b, err := m.Encode(nil)
		if err != nil {
			rt.Fail("Encode: %v", err)
		}
		var d protocol.Message
		if err := d.Decode(b, nil); err != nil {
			rt.Fail("Decode: %v", err)
		}
	}},
}

// southWest are the samples whose Encode corrects the hemisphere bits of the entity.
func southWest(id uint16, b []byte) bool {
	attr := uint16(0)
	switch {
	case id == 0x8600 && len(b) >= 8, id == 0x8602 && len(b) >= 8:
		attr = uint16(b[6])<<8 | uint16(b[7])
		if b[1] > 1 {
			return true // several areas
		}
	case id == 0x8604 && len(b) >= 6:
		attr = uint16(b[4])<<8 | uint16(b[5])
	}
	return attr&(3<<6) != 0
}

func init() {
	props["C22"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		var ops []int
		var rec func(n, from int)
		together := func(ops []int, bound int) {
			ops = append([]int{}, ops...)
			name := ""
			if len(ops) > 3 {
				name = "+" + fmt.Sprint(ops)
			}
			for _, o := range ops {
				if len(ops) <= 3 {
					name += "+" + apiOps[o].name
				}
			}
			add(fmt.Sprintf("%d-at-once", len(ops)), name[1:], bound, func() {
				c := shared()
				var ts []*rt.Thread
				for _, o := range ops {
					o := o
					ts = append(ts, rt.Go(apiOps[o].name, func() { apiOps[o].run(c) }))
				}
				joinAll(ts...)
				rt.Quiet(true)
				rt.Advance(2 * 1e9)
				c.srv.Stop()
				rt.Idle()
				rt.Quiet(false)
			})
		}
		rec = func(n, from int) {
			if n == 0 {
				b := pick(tier, 1, 2)
				if len(ops) == 3 {
					b = 1
				} else if len(ops) == 4 {
					b = 0
				}
				together(ops, b)
				return
			}
			for i := from; i < len(apiOps); i++ {
				ops = append(ops, i)
				rec(n-1, i)
				ops = ops[:len(ops)-1]
			}
		}
		rec(2, 0)
		rec(3, 0)
		if tier == "thorough" {
			rec(4, 0)
		}
		// broadcasts of every message type a server sends
		for i, sb := range sampleBodies {
			if sb.ID < 0x8000 {
				continue
			}
			body, _ := hex.DecodeString(sb.Body)
			id := sb.ID
			name := "broadcast-of"
			if southWest(id, body) {
				name = "broadcast-southwest"
			}
			add(name, fmt.Sprintf("%s-%04x-%d", name, id, i), 1, func() {
				c := shared()
				ent, err := decodeSample(id, body)
				if err != nil {
					rt.Fail("sample %04x does not decode: %v", id, err)
				}
				joinAll(rt.Go("broadcast", func() { c.srv.Broadcast(ent) }))
				for _, p := range c.p {
					w := p.wire()
					if len(w) == 0 || w[len(w)-1].H.ID != id {
						rt.Fail("a broadcast %04x is not written", id)
					}
				}
			})
		}
		// areas south of the equator and west of Greenwich, as the application makes them
		for _, id := range []uint16{0x8600, 0x8602, 0x8604} {
			id := id
			add("broadcast-southwest", fmt.Sprintf("broadcast-southwest-%04x", id), 1, func() {
				c := shared()
				lat, lng := decimal.NewFromFloat(-1.5), decimal.NewFromFloat(-2.5)
				var ent protocol.Entity
				switch id {
				case 0x8600:
					ent = &protocol.T808_0x8600{Items: []protocol.CircleArea{{ID: 1, Lat: lat, Lng: lng}}}
				case 0x8602:
					ent = &protocol.T808_0x8602{Items: []protocol.RectArea{{ID: 1, LeftTopLat: lat, LeftTopLon: lng, RightBottomLat: lat, RightBottomLon: lng}}}
				case 0x8604:
					ent = &protocol.T808_0x8604{ID: 1, Vertexes: []protocol.Vertex{{Lat: lat, Lng: lng}}}
				}
				joinAll(rt.Go("broadcast", func() { c.srv.Broadcast(ent) }))
			})
		}
		// encoding and decoding messages of their own in several goroutines
		for i, sb := range sampleBodies {
			body, _ := hex.DecodeString(sb.Body)
			id := sb.ID
			add("codec", fmt.Sprintf("codec-%04x-%d", id, i), 0, func() {
				use := func() {
					var m protocol.Message
					if err := m.Decode(frame(hdr{ID: id, Icc: 1, Serial: 1}, body), nil); err != nil {
						rt.Fail("sample %04x does not decode: %v", id, err)
					}
					if _, err := m.Encode(nil); err != nil {
						rt.Fail("sample %04x does not encode: %v", id, err)
					}
				}
				joinAll(rt.Go("one", use), rt.Go("two", use))
			})
		}
		return out
	}
}

func decodeSample(id uint16, body []byte) (protocol.Entity, error) {
	var m protocol.Message
	if err := m.Decode(frame(hdr{ID: id, Icc: 1, Serial: 1}, body), nil); err != nil {
		return nil, err
	}
	return m.Body, nil
}
