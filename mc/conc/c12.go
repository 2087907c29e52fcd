package main

import (
	"bytes"
	"compress/gzip"
	"fmt"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// evGen records which of several handlers of one message ID ran.
type evGen struct {
	Gen    int
	ID     uint64
	Sess   *go808.Session
	H      protocol.Header
	Body   protocol.Entity
	End    bool
	Thread int
}

func gens() []evGen {
	var out []evGen
	for _, e := range rt.Events() {
		if g, ok := e.(evGen); ok {
			out = append(out, g)
		}
	}
	return out
}

// genHandler is a recording handler of generation gen; between its two records other
// goroutines may run.
func genHandler(gen int, f func(s *go808.Session, m *protocol.Message)) go808.MessageHandler {
	return func(s *go808.Session, m *protocol.Message) {
		rt.Log(evGen{Gen: gen, Sess: s, ID: s.ID(), H: m.Header, Body: m.Body, Thread: rt.CurID()})
		rt.Point("in handler", nil)
		if f != nil {
			f(s, m)
		}
		rt.Log(evGen{Gen: gen, Sess: s, ID: s.ID(), H: m.Header, End: true, Thread: rt.CurID()})
	}
}

// locAt is a location body whose latitude is n millionths of a degree.
func locAt(n uint32) []byte {
	b := loc()
	copy(b[8:], u32(n))
	return b
}

// message kinds of the dispatch sequences
const kinds = "ABUXYPHN"

// c12body returns message ID and body of a kind.
func c12msg(kind byte, serial uint16) (uint16, []byte) {
	switch kind {
	case 'A': // handled, empty body
		return idHeartbeat, nil
	case 'B': // handled, with content
		return idLocation, locAt(uint32(serial))
	case 'U': // known type, no handler at first
		return idLogout, nil
	case 'X': // unknown type
		return idUnknown, []byte{1, 2, 3}
	case 'Y': // undecodable body of a handled type
		return idLocation, []byte{1, 2, 3}
	case 'P': // its handler panics
		return idAuth, []byte("key")
	case 'H': // its handler adds a handler for U and a new one for A
		return 0x0301, []byte{7}
	case 'N': // a sub-packet of a message type that is not merged
		return 0x0900, []byte{0xf0, 1, 2}
	}
	panic("kind")
}

// c12model predicts the handler runs and the replies of a sequence.
type c12run struct {
	gen    int
	serial uint16
	id     uint16
}

func c12model(seq string, base uint16) (runs []c12run, reps [][]byte) {
	genA, genU := 1, 0
	for i := 0; i < len(seq); i++ {
		serial := base + uint16(i)
		id, _ := c12msg(seq[i], serial)
		switch seq[i] {
		case 'A':
			runs = append(runs, c12run{genA, serial, id})
		case 'B', 'P', 'N':
			runs = append(runs, c12run{1, serial, id})
		case 'H':
			runs = append(runs, c12run{1, serial, id})
			genA++
			genU++
		case 'U':
			if genU > 0 {
				runs = append(runs, c12run{genU, serial, id})
			}
		case 'X', 'Y':
			reps = append(reps, general(serial, id, 3))
		}
	}
	return
}

func c12handlers(e *env) {
	e.srv.AddHandler(idHeartbeat, genHandler(1, nil))
	e.srv.AddHandler(idLocation, genHandler(1, nil))
	e.srv.AddHandler(0x0900, genHandler(1, nil))
	e.srv.AddHandler(idAuth, genHandler(1, func(*go808.Session, *protocol.Message) { panic("handler") }))
	genA, genU := 1, 0
	e.srv.AddHandler(0x0301, genHandler(1, func(s *go808.Session, m *protocol.Message) {
		genA++
		genU++
		e.srv.AddHandler(idHeartbeat, genHandler(genA, nil))
		e.srv.AddHandler(idLogout, genHandler(genU, nil))
	}))
}

// c12check compares what one terminal's messages led to with the model.
func c12check(p *peer, icc uint64, runs []c12run, reps [][]byte) *go808.Session {
	var got []evGen
	open := false
	var sess *go808.Session
	for _, g := range gens() {
		if g.H.IccID != icc {
			continue
		}
		if g.End {
			open = false
			continue
		}
		if open && !(len(got) > 0 && got[len(got)-1].H.MsgID == idAuth) {
			rt.Fail("the handler of message %d started before the handler of message %d returned", g.H.MsgSerialNo, got[len(got)-1].H.MsgSerialNo)
		}
		open = true
		if sess == nil {
			sess = g.Sess
		}
		if g.Sess != sess {
			rt.Fail("message %d of a connection was passed with another session", g.H.MsgSerialNo)
		}
		got = append(got, g)
	}
	for i, g := range got {
		if i >= len(runs) || uint16(g.H.MsgID) != runs[i].id || g.H.MsgSerialNo != runs[i].serial || g.Gen != runs[i].gen {
			rt.Fail("handler run %d: message %04x number %d with handler generation %d; expected %v", i, g.H.MsgID, g.H.MsgSerialNo, g.Gen, runs)
		}
		if b, ok := g.Body.(*protocol.T808_0x0200); ok {
			if b.Lat.String() != fmt.Sprintf("0.%06d", g.H.MsgSerialNo) && b.Lat.Shift(6).IntPart() != int64(g.H.MsgSerialNo) {
				rt.Fail("message %d was passed with the content of another message (latitude %s)", g.H.MsgSerialNo, b.Lat)
			}
		} else if g.H.MsgID == idLocation {
			rt.Fail("location message passed with a %T", g.Body)
		}
	}
	if len(got) != len(runs) {
		rt.Fail("%d handler runs instead of %d: %v", len(got), len(runs), runs)
	}
	w := p.wire()
	for i, m := range w {
		if m.H.ID != idGeneral || i >= len(reps) || !bytes.Equal(m.Body, reps[i]) {
			rt.Fail("reply %d is %04x %x; expected %x", i, m.H.ID, m.Body, reps)
		}
	}
	if len(w) != len(reps) {
		rt.Fail("%d replies instead of %d", len(w), len(reps))
	}
	return sess
}

// c12frames builds the frames of a sequence.
func c12frames(seq string, p *peer) [][]byte {
	var out [][]byte
	for i := 0; i < len(seq); i++ {
		p.serial++
		id, body := c12msg(seq[i], p.serial)
		h := hdr{ID: id, Icc: p.icc, Serial: p.serial}
		if seq[i] == 'N' {
			h.Pkt, h.Sum, h.Seq = true, 3, 2
		}
		out = append(out, frame(h, body))
	}
	return out
}

// deliver sends frames in chunks: 0 one per frame, 1 all at once, 2 each frame in two
// chunks, 3 chunk borders inside frames only.
func deliver(p *peer, fs [][]byte, mode int) {
	var all []byte
	for _, f := range fs {
		all = append(all, f...)
	}
	switch mode {
	case 0:
		for _, f := range fs {
			p.PeerSend(f)
		}
	case 1:
		p.PeerSend(all)
	case 2:
		for _, f := range fs {
			p.PeerSend(f[:len(f)/2])
			p.PeerSend(f[len(f)/2:])
		}
	case 3:
		k := 0
		for i, f := range fs {
			n := len(f) / 3
			if i == len(fs)-1 {
				n = len(f)
			}
			start := k
			k = 0
			for j := 0; j < i; j++ {
				k += len(fs[j])
			}
			k += n
			p.PeerSend(all[start:k])
		}
	}
}

// words lists all words over the alphabet up to length n.
func words(alpha string, n int) []string {
	out := []string{""}
	var all []string
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range out {
			for _, c := range alpha {
				next = append(next, w+string(c))
			}
		}
		all = append(all, next...)
		out = next
	}
	return all
}

func init() {
	props["C12"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		for _, merge := range []bool{false, true} {
			for _, seq := range words(kinds, pick(tier, 4, 5)) {
				for mode := 0; mode < 4; mode++ {
					merge, seq, mode := merge, seq, mode
					if len(seq) >= 4 && (mode%2 == 0 || merge) && tier == "quick" || len(seq) >= 5 && mode != 1 {
						continue
					}
					b := 0
					if len(seq) <= 1 {
						b = 2
					} else if len(seq) <= 2 {
						b = 1
					}
					add("sequences", fmt.Sprintf("seq-%s-%d-%v", seq, mode, merge), b, func() {
						e := start(go808.Options{AutoMergePacket: merge})
						c12handlers(e)
						p := e.connect(13800138000)
						deliver(p, c12frames(seq, p), mode)
						rt.Idle()
						runs, reps := c12model(seq, 1)
						c12check(p, p.icc, runs, reps)
						if p.ServerClosed() {
							rt.Fail("the connection was closed")
						}
					})
				}
			}
		}
		// two terminals at the same time
		two := []string{"AB", "XB", "BX", "PA", "UB", "BB", "YP"}
		for i, s1 := range two {
			for j, s2 := range two {
				s1, s2 := s1, s2
				if j < i || tier == "quick" && (i+j)%2 == 1 {
					continue
				}
				for _, late := range []bool{false, true} {
					late := late
					add("two-terminals", fmt.Sprintf("two-%s-%s-%v", s1, s2, late), pick(tier, 2, 3), func() {
						e := start(go808.Options{})
						c12handlers(e)
						var p, q *peer
						if late {
							p, q = dial(13800138000), dial(13900139000)
						} else {
							p, q = e.connect(13800138000), e.connect(13900139000)
						}
						deliver(p, c12frames(s1, p), 0)
						deliver(q, c12frames(s2, q), 1)
						rt.Idle()
						r1, w1 := c12model(s1, 1)
						r2, w2 := c12model(s2, 1)
						a := c12check(p, p.icc, r1, w1)
						b := c12check(q, q.icc, r2, w2)
						if a != nil && a == b {
							rt.Fail("two connections share a session")
						}
					})
				}
			}
		}
		// a handler that blocks, sends, or closes
		for _, what := range []string{"block", "send", "reply", "request", "broadcast", "close-other"} {
			what := what
			add("handler-behaviour", "handler-"+what, pick(tier, 2, 3), func() {
				e := start(go808.Options{})
				q, qs := e.session(13900139000)
				go1 := false
				e.srv.AddHandler(idAuth, genHandler(1, func(s *go808.Session, m *protocol.Message) {
					switch what {
					case "block":
						rt.Point("handler blocks", func() bool { return go1 })
					case "send":
						s.Send(text("hello"))
					case "reply":
						s.Reply(m, 0)
					case "request":
						s.Request(reqEntity(0), record("q"))
					case "broadcast":
						e.srv.Broadcast(text("hello"))
					case "close-other":
						qs.Close()
					}
				}))
				e.srv.AddHandler(idLocation, genHandler(1, nil))
				p := e.connect(13800138000)
				p.msg(idAuth, []byte("key"))
				p.msg(idLocation, locAt(2))
				q.msg(idLocation, locAt(2))
				rt.Idle()
				if what != "close-other" {
					n := 0
					for _, g := range gens() {
						if g.H.IccID == q.icc && !g.End {
							n++
						}
					}
					if n != 1 {
						rt.Fail("while a handler of another session is busy, a message was handled %d times", n)
					}
				}
				if what == "block" {
					for _, g := range gens() {
						if g.H.IccID == p.icc && g.H.MsgID == idLocation {
							rt.Fail("the next message of the session was handled while the handler was still busy")
						}
					}
					go1 = true
				}
				rt.Idle()
				var reps [][]byte
				if what == "reply" {
					reps = append(reps, general(1, idAuth, 0))
				}
				if what == "send" || what == "request" || what == "broadcast" {
					p.Writes = nil // not the subject here
				}
				c12check(p, p.icc, []c12run{{1, 1, idAuth}, {1, 2, idLocation}}, reps)
			})
		}
		// adding handlers while messages arrive
		for _, old := range []bool{false, true} {
			for _, n := range []int{1, 2} {
				old, n := old, n
				add("add-handler", fmt.Sprintf("add-%v-%d", old, n), pick(tier, 3, 4), func() {
					e := start(go808.Options{})
					if old {
						e.srv.AddHandler(idLocation, genHandler(1, nil))
					}
					p := e.connect(13800138000)
					q := e.connect(13900139000)
					for i := uint16(0); i < 2; i++ {
						p.msg(idLocation, locAt(uint32(i+1)))
						q.msg(idLocation, locAt(uint32(i+1)))
					}
					var ts []*rt.Thread
					for i := 0; i < n; i++ {
						i := i
						ts = append(ts, rt.Go("adder", func() { e.srv.AddHandler(idLocation, genHandler(2+i, nil)) }))
					}
					joinAll(ts...)
					for _, x := range []*peer{p, q} {
						cnt := map[uint16]int{}
						newer := false
						for _, g := range gens() {
							if g.End || g.H.IccID != x.icc {
								continue
							}
							cnt[g.H.MsgSerialNo]++
							if g.Gen > 1 {
								newer = true
							} else if newer {
								rt.Fail("an older handler ran after a newer one")
							}
						}
						for s := uint16(1); s <= 2; s++ {
							if cnt[s] > 1 || old && cnt[s] != 1 {
								rt.Fail("message %d was handled %d times while a handler was being added", s, cnt[s])
							}
						}
						if len(x.wire()) != 0 {
							rt.Fail("something was sent to the terminal")
						}
					}
					// from now on the new handler
					k := len(gens())
					p.msg(idLocation, locAt(3))
					rt.Idle()
					gs := gens()
					if len(gs) != k+2 || gs[k].Gen < 2 {
						rt.Fail("a message that arrives after adding the handler does not reach it")
					}
				})
			}
		}
		// every message ID: dispatched if it is a known type with a decodable body, answered
		// 'unsupported' otherwise, never both
		step := 0x400
		for lo := 0; lo < 0x10000; lo += step {
			lo := lo
			add("all-ids", fmt.Sprintf("ids-%04x", lo), 0, func() {
				e := start(go808.Options{})
				p := e.connect(13800138000)
				h := genHandler(1, nil)
				rt.Quiet(true)
				for i := lo; i < lo+step; i++ {
					e.srv.AddHandler(protocol.MsgID(i), h)
				}
				for i := lo; i < lo+step; i++ {
					k, kw := len(gens()), len(p.Writes)
					s := p.msg(uint16(i), []byte{0})
					rt.Idle()
					if p.ServerClosed() {
						rt.Fail("the connection was closed by a message %04x", i)
					}
					dispatched := (len(gens()) - k) / 2
					w := p.wire()[kw:]
					if !knownIDs[uint16(i)] && (dispatched != 0 || len(w) != 1) {
						rt.Fail("message of unknown type %04x: %d handler runs, %d replies", i, dispatched, len(w))
					}
					if dispatched+len(w) != 1 {
						rt.Fail("message %04x: %d handler runs, %d replies", i, dispatched, len(w))
					}
					if len(w) == 1 && (w[0].H.ID != idGeneral || !bytes.Equal(w[0].Body, general(s, uint16(i), 3))) {
						rt.Fail("message %04x is answered with %04x %x", i, w[0].H.ID, w[0].Body)
					}
				}
				rt.Quiet(false)
			})
		}
		// the well-formed messages of a terminal
		add("terminal-messages", "terminal-messages", 0, func() {
			e := start(go808.Options{})
			p := e.connect(13800138000)
			for _, m := range terminalMessages() {
				e.srv.AddHandler(protocol.MsgID(m.ID), genHandler(1, nil))
				k := len(gens())
				s := p.msg(m.ID, m.Body)
				rt.Idle()
				gs := gens()
				if len(gs) != k+2 || uint16(gs[k].H.MsgID) != m.ID || gs[k].H.MsgSerialNo != s || gs[k].Body == nil || uint16(gs[k].Body.MsgID()) != m.ID {
					rt.Fail("message %04x %x is not dispatched once with its own content", m.ID, m.Body)
				}
			}
			if len(p.Writes) != 0 {
				rt.Fail("a well-formed message was answered")
			}
		})
		return out
	}
}

var knownIDs = map[uint16]bool{}

func init() {
	for _, id := range []uint16{
		0x0001, 0x0002, 0x0003, 0x0100, 0x0102, 0x0104, 0x0107, 0x0108, 0x0200, 0x0201, 0x0301, 0x0302, 0x0303, 0x0500,
		0x0700, 0x0701, 0x0702, 0x0704, 0x0705, 0x0800, 0x0801, 0x0802, 0x0805, 0x0900, 0x0901, 0x0a00,
		0x8001, 0x8003, 0x8100, 0x8103, 0x8104, 0x8105, 0x8106, 0x8107, 0x8108, 0x8201, 0x8202, 0x8203, 0x8300, 0x8301, 0x8302,
		0x8303, 0x8304, 0x8400, 0x8401, 0x8500, 0x8600, 0x8601, 0x8602, 0x8603, 0x8604, 0x8605, 0x8606, 0x8607, 0x8700,
		0x8701, 0x8702, 0x8800, 0x8801, 0x8802, 0x8803, 0x8804, 0x8805, 0x8900, 0x8a00} {
		knownIDs[id] = true
	}
}

type termMsg struct {
	ID   uint16
	Body []byte
}

// media is the body of a multimedia upload: tag and content.
func media(tag uint32, data string) []byte {
	b := append(u32(tag), 0, 0, 1, 1)
	b = append(b, loc()...)
	return append(b, data...)
}

func zipped(t string) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write([]byte(t))
	w.Close()
	return b.Bytes()
}

// terminalMessages are well-formed messages of a terminal, built by hand.
func terminalMessages() []termMsg {
	reg := append(append(u16(11), u16(1)...), []byte("MAKER")...)
	reg = append(reg, make([]byte, 20)...)
	reg = append(reg, []byte("ID00001")...)
	reg = append(reg, 1, 'B', '1')
	ms := []termMsg{
		{idHeartbeat, nil}, {idLogout, nil}, {0x0100, reg}, {idAuth, []byte("key")}, {idLocation, loc()},
		{0x0301, []byte{3}}, {0x0303, []byte{1, 1}}, {0x0701, append(u32(3), 'a', 'b', 'c')},
		{0x0704, append(append([]byte{0, 1, 0}, u16(28)...), loc()...)},
		{0x0800, append(u32(9), 0, 0, 1, 1)}, {0x0801, media(9, "data")}, {0x0900, []byte{0xf0, 1}},
		{0x0901, append(u32(uint32(len(zipped("abc")))), zipped("abc")...)}, {0x0a00, append(u32(65537), make([]byte, 128)...)},
	}
	for _, a := range answers {
		ms = append(ms, termMsg{a.ID, a.Body(77)})
	}
	return ms
}

func panicHandler(*go808.Session, *protocol.Message) { panic("handler") }
