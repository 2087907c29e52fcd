package main

// C01, C02, C03: frames and the byte stream.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/hk"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
}

func noBody(e protocol.Entity) bool {
	return e == nil || (reflect.ValueOf(e).Kind() == reflect.Ptr && reflect.ValueOf(e).IsNil())
}

// msgOf builds the library message of a reference header and an entity.
func msgOf(h refHeader, e protocol.Entity) *protocol.Message {
	m := &protocol.Message{Body: e, Header: protocol.Header{MsgID: protocol.MsgID(h.MsgID), Property: protocol.Property(h.Prop), IccID: h.Icc, MsgSerialNo: h.Serial}}
	if h.HasPkt {
		m.Header.Packet = &protocol.Packet{Sum: h.Sum, Seq: h.Seq}
	}
	return m
}

// diffHeader compares a decoded header with the reference.
func diffHeader(g protocol.Header, h refHeader) string {
	if uint16(g.MsgID) != h.MsgID || g.IccID != h.Icc || g.MsgSerialNo != h.Serial || uint16(g.Property) != h.Prop {
		return fmt.Sprintf("header: got id=%04x prop=%04x icc=%d serial=%d, want id=%04x prop=%04x icc=%d serial=%d",
			uint16(g.MsgID), uint16(g.Property), g.IccID, g.MsgSerialNo, h.MsgID, h.Prop, h.Icc, h.Serial)
	}
	if (g.Packet != nil) != h.HasPkt {
		return fmt.Sprintf("packet info present=%v, want %v", g.Packet != nil, h.HasPkt)
	}
	if h.HasPkt && (g.Packet.Sum != h.Sum || g.Packet.Seq != h.Seq) {
		return fmt.Sprintf("packet info: got %d/%d, want %d/%d", g.Packet.Seq, g.Packet.Sum, h.Seq, h.Sum)
	}
	return ""
}

type keptFrame struct {
	fr, cp []byte
	m      *protocol.Message
	h      refHeader
	want   protocol.Entity
}

var keptFrames []keptFrame

// frameCase checks one message through encode and decode.
func frameCase(r *hk.Run, h refHeader, mk func() protocol.Entity, body []byte) error {
	ref := refEncodeFrame(h, body)
	r.State(ref)
	m := msgOf(h, mk())
	fr, err := m.Encode()
	r.Ops(2)
	if err != nil {
		return fmt.Errorf("Encode fails: %v", err)
	}
	if x := diffBytes(fr, ref); x != "" {
		return fmt.Errorf("frame: %s", x)
	}
	in := append([]byte{}, fr...)
	d := &protocol.Message{}
	if err := d.Decode(in); err != nil {
		return fmt.Errorf("Decode of the encoded frame fails: %v (%s)", err, hexs(fr))
	}
	if !bytes.Equal(in, fr) {
		return fmt.Errorf("Decode modified its input")
	}
	for i := range in {
		in[i] = 0x55
	}
	w := h
	w.Prop = h.Prop&^0x3ff | uint16(len(body))
	if h.HasPkt {
		w.Prop |= 1 << 13
	}
	if x := diffHeader(d.Header, w); x != "" {
		return fmt.Errorf("%s", x)
	}
	want := mk()
	if s := specByID(h.MsgID); s != nil {
		s.norm(want)
	}
	if x := diffEntity(d.Body, want); x != "" {
		return fmt.Errorf("body: %s", x)
	}
	keptFrames = append(keptFrames, keptFrame{fr, append([]byte{}, fr...), d, w, want})
	if len(keptFrames) >= 4 {
		ks := keptFrames
		keptFrames = nil
		for _, k := range ks {
			if !bytes.Equal(k.fr, k.cp) {
				return fmt.Errorf("a frame returned earlier was altered: %s", diffBytes(k.fr, k.cp))
			}
			if x := diffHeader(k.m.Header, k.h); x != "" {
				return fmt.Errorf("a message decoded earlier was altered: %s", x)
			}
			if x := diffEntity(k.m.Body, k.want); x != "" {
				return fmt.Errorf("a message decoded earlier was altered: %s", x)
			}
		}
	}
	return nil
}

func transparent(body []byte) func() protocol.Entity {
	return func() protocol.Entity {
		return &protocol.T808_0x0900{Type: body[0], Data: append([]byte{}, body[1:]...)}
	}
}

var interesting = []byte{0x00, 0x01, 0x02, 0x7c, 0x7d, 0x7e, 0x7f, 0xff}

func iccDomain(thorough bool) []uint64 {
	var out []uint64
	for i := uint64(0); i < 100000; i++ {
		out = append(out, i)
	}
	p := uint64(1)
	for k := 0; k < 12; k++ {
		for d := uint64(1); d <= 9; d++ {
			for _, o := range []int64{-1, 0, 1} {
				out = append(out, uint64(int64(d*p)+o))
			}
		}
		p *= 10
	}
	out = append(out, p-1)
	// every length with every leading and trailing digit pair, and repeated patterns
	for l := 1; l <= 12; l++ {
		for a := uint64(0); a < 10; a++ {
			for b := uint64(0); b < 10; b++ {
				n := uint64(0)
				for i := 0; i < l; i++ {
					if i%2 == 0 {
						n = n*10 + a
					} else {
						n = n*10 + b
					}
				}
				out = append(out, n)
				n2 := a
				for i := 1; i < l; i++ {
					n2 *= 10
				}
				out = append(out, n2+b)
			}
		}
	}
	// each of the 12 positions holding each digit on three backgrounds
	for _, bg := range []uint64{0, 1, 7, 9} {
		for pos := 0; pos < 12; pos++ {
			for d := uint64(0); d < 10; d++ {
				n := uint64(0)
				for i := 0; i < 12; i++ {
					if i == pos {
						n = n*10 + d
					} else {
						n = n*10 + bg
					}
				}
				out = append(out, n)
			}
		}
	}
	if thorough {
		for i := uint64(0); i < 1000000; i++ {
			out = append(out, i*1000003%1000000000000)
		}
	}
	return out
}

func c01(r *hk.Run) {
	h0 := refHeader{MsgID: 0x0900, Icc: 13800138000, Serial: 1}
	body := func(f *hk.Fam, h refHeader, b []byte) {
		if len(b) == 0 || f.Stopped() {
			return
		}
		b = append([]byte{}, b...)
		f.Case(func() string { return fmt.Sprintf("%+v body=%s", h, hexs(b)) }, func() error { return frameCase(r, h, transparent(b), b) })
	}
	f := r.Family("body/all<=2")
	enumStrings(2, all256, func(b []byte) { body(f, h0, b) })
	f = r.Family("body/escapes<=n")
	enumStrings(r.Pick(6, 7), interesting, func(b []byte) { body(f, h0, b) })
	f = r.Family("body/lengths")
	for n := 1; n <= 1023; n++ {
		for k := 0; k < 8; k++ {
			b := make([]byte, n)
			for i := range b {
				switch k {
				case 0:
					b[i] = 0x7e
				case 1:
					b[i] = 0x7d
				case 2:
					b[i] = byte(i)
				case 3:
					b[i] = interesting[i%len(interesting)]
				case 4:
					b[i] = byte(i*7 + n)
				case 5:
					b[i] = 0
				case 6:
					b[i] = []byte{0x7d, 0x02}[i%2]
				case 7:
					b[i] = byte(i * i >> 3)
				}
			}
			body(f, h0, b)
		}
	}
	f = r.Family("serials")
	for s := 0; s < 65536; s++ {
		h := h0
		h.Serial = uint16(s)
		body(f, h, []byte{7, 8})
	}
	f = r.Family("terminal-numbers")
	for _, icc := range iccDomain(r.Thorough()) {
		h := h0
		h.Icc = icc
		body(f, h, []byte{7})
	}
	f = r.Family("packets")
	grid := []int{0, 1, 2, 0x7d, 0x7e, 0xff, 0x100, 0x7d01, 0x7d7e, 0x7e7d, 0x7e7e, 0x7e02, 0xffff}
	for i := 0; i < 65536; i += 1 {
		h := h0
		h.HasPkt, h.Sum, h.Seq = true, uint16(i), uint16(i>>8|i<<8)
		body(f, h, []byte{1, 2})
	}
	for _, a := range grid {
		for _, b := range grid {
			for _, s := range []uint16{0, 1, 0x7e7d} {
				h := h0
				h.HasPkt, h.Sum, h.Seq, h.Serial = true, uint16(a), uint16(b), s
				body(f, h, []byte{0x7e})
			}
		}
	}
	f = r.Family("property-bits")
	for i := 0; i < 16; i++ {
		h := h0
		h.Prop = uint16(i&3)<<11 | uint16(i>>2)<<14
		for _, stale := range []uint16{0, 1, 0x3ff} {
			h.Prop = h.Prop&^0x3ff | stale
			for _, n := range []int{1, 2, 0x7d, 0x7e, 0x17d, 0x27e, 0x37d, 0x37e, 0x3ff} {
				for _, pk := range []bool{false, true} {
					h.HasPkt = pk
					h.Sum, h.Seq = 3, 2
					body(f, h, bytes.Repeat([]byte{0x31}, n))
				}
			}
		}
	}
	f = r.Family("checksum-values")
	for x := 0; x < 256; x++ {
		for y := 0; y < 256; y++ {
			for n := 1; n < 4; n++ {
				body(f, h0, []byte{byte(x), byte(y), 0, 0x7d, 0x7e}[:n+2])
			}
		}
	}
	f = r.Family("message-types")
	for _, s := range specs {
		s := s
		for k := 0; k < 4; k++ {
			k := k
			b := s.encode(s.baseValue(k))
			if len(b) > 1023 || s.id == 0x0901 {
				continue
			}
			for _, pk := range []bool{false, true} {
				h := refHeader{MsgID: s.id, Icc: 17e9 + 0x7e, Serial: 0x7d01, HasPkt: pk, Sum: 0x7d02, Seq: 0x017e}
				f.Case(func() string { return fmt.Sprintf("%04x base %d packet=%v", s.id, k, pk) }, func() error {
					return frameCase(r, h, func() protocol.Entity { return s.baseValue(k) }, b)
				})
			}
		}
	}
	// the header's message ID is that of the body; sending the same message object again and
	// with other header values must not leak anything from the first encoding
	f = r.Family("message-reuse")
	for n1 := 1; n1 <= 1023; n1 += r.Pick(37, 5) {
		for n2 := 1; n2 <= 1023; n2 += r.Pick(37, 5) {
			for _, pk := range []bool{false, true} {
				n1, n2, pk := n1, n2, pk
				f.Case(func() string { return fmt.Sprintf("lengths %d then %d packet=%v", n1, n2, pk) }, func() error {
					b1, b2 := bytes.Repeat([]byte{0x7e}, n1), bytes.Repeat([]byte{0x7d}, n2)
					h := h0
					h.HasPkt, h.Sum, h.Seq = pk, 9, 3
					m := msgOf(h, transparent(b1)())
					m.Header.MsgID = 0x1234 // the body decides
					f1, err := m.Encode()
					if err != nil {
						return err
					}
					m.Body = transparent(b2)()
					m.Header.MsgSerialNo++
					f2, err := m.Encode()
					if err != nil {
						return err
					}
					r.Ops(2)
					if x := diffBytes(f1, refEncodeFrame(h, b1)); x != "" {
						return fmt.Errorf("first frame: %s", x)
					}
					h.Serial++
					if x := diffBytes(f2, refEncodeFrame(h, b2)); x != "" {
						return fmt.Errorf("second frame: %s", x)
					}
					r.State(f2)
					return nil
				})
			}
		}
	}
}

// ---------------------------------------------------------------- C02

// tryFrame checks Message.Decode of arbitrary bytes against the reference.
func tryFrame(r *hk.Run, fr []byte) error {
	in := append([]byte{}, fr...)
	var m protocol.Message
	var err error
	if p := hk.NoPanic("Decode", func() { err = m.Decode(in) }); p != nil {
		return fmt.Errorf("%v (frame %s)", p, hexs(fr))
	}
	r.Ops(1)
	r.State(fr)
	h, body, rerr := refUnframe(fr)
	return judgeFrame(fr, &m, err, h, body, rerr)
}

// judgeFrame: the verdict on one decoding attempt.
func judgeFrame(fr []byte, m *protocol.Message, err error, h refHeader, body []byte, rerr error) error {
	interior := len(fr) > 2 && bytes.IndexByte(fr[1:len(fr)-1], 0x7e) >= 0
	if rerr != nil {
		if err == nil {
			return fmt.Errorf("accepted a malformed frame %s", hexs(fr))
		}
		return nil
	}
	if err != nil {
		if interior {
			return nil // a frame containing the delimiter may be refused or read literally
		}
		if h.Prop&(1<<10) != 0 && len(body) == int(h.Prop&0x3ff) {
			return nil // encrypted, no key
		}
		return fmt.Errorf("refused a well-formed frame %s: %v", hexs(fr), err)
	}
	if x := diffHeader(m.Header, h); x != "" {
		return fmt.Errorf("%s (frame %s)", x, hexs(fr))
	}
	deliver := len(body) == int(h.Prop&0x3ff)
	if deliver && h.Prop&(1<<10) != 0 {
		return fmt.Errorf("an encrypted frame decoded without a key: %s", hexs(fr))
	}
	s := specByID(h.MsgID)
	if !deliver || s == nil {
		if !noBody(m.Body) {
			return fmt.Errorf("delivered a %T although length or type do not match (frame %s)", m.Body, hexs(fr))
		}
		return nil
	}
	want, v := s.decode(body)
	switch {
	case v == undecided:
		return nil
	case v == refuse && !noBody(m.Body):
		return fmt.Errorf("delivered an inconsistent body (frame %s)", hexs(fr))
	case v == accept:
		if x := diffEntity(m.Body, want); x != "" {
			return fmt.Errorf("%s (frame %s)", x, hexs(fr))
		}
	}
	return nil
}

// frameCorpus: valid frames of many shapes, small enough for exhaustive mutation
func frameCorpus(thorough bool) [][]byte {
	var out [][]byte
	add := func(h refHeader, b []byte) { out = append(out, refEncodeFrame(h, b)) }
	add(refHeader{MsgID: 0x0002, Icc: 1, Serial: 1}, nil)
	add(refHeader{MsgID: 0x0002, Icc: 0x7d, Serial: 0x7e7d}, nil)
	add(refHeader{MsgID: 0x0001, Icc: 13800138000, Serial: 9}, []byte{0x7d, 0x7e, 1, 2, 0})
	add(refHeader{MsgID: 0x0900, Icc: 0, Serial: 2}, []byte{0x7e, 0x7e, 0x7d, 0x7d, 1, 2})
	add(refHeader{MsgID: 0x0900, Icc: 999999999999, Serial: 2, HasPkt: true, Sum: 3, Seq: 0x7e}, []byte{5, 0x30, 0x31})
	add(refHeader{MsgID: 0x0002, Icc: 5, Serial: 2, HasPkt: true, Sum: 1, Seq: 1}, nil)
	for x := 0; x < 256; x++ { // frames whose checksum is an escaped byte
		fr := refEncodeFrame(refHeader{MsgID: 0x0900, Icc: 42, Serial: 7}, []byte{byte(x), 0x41})
		if fr[len(fr)-3] == 0x7d {
			out = append(out, fr)
		}
	}
	add(refHeader{MsgID: 0x0fff, Icc: 5, Serial: 2}, []byte{1, 2, 3})
	add(refHeader{MsgID: 0x0900, Prop: 1 << 10, Icc: 5, Serial: 2}, []byte{1, 2, 3})
	for _, s := range specs {
		k := 1
		b := s.encode(s.baseValue(k))
		if len(b) <= 120 || (thorough && len(b) < 400) {
			add(refHeader{MsgID: s.id, Icc: 13800138000, Serial: uint16(len(out))}, b)
		}
	}
	return out
}

func c02(r *hk.Run) {
	run := func(f *hk.Fam, fr []byte) {
		if f.Stopped() {
			return
		}
		fr = append([]byte{}, fr...)
		f.Case(func() string { return hexs(fr) }, func() error { return tryFrame(r, fr) })
	}
	f := r.Family("short/all<=3")
	enumStrings(r.Pick(2, 3), all256, func(b []byte) { run(f, b) })
	enumStrings(1, all256, func(b []byte) { run(f, append(append([]byte{0x7e}, b...), 0x7e)) })
	f = r.Family("short/alphabet")
	enumStrings(r.Pick(7, 8), []byte{0x7e, 0x7d, 0x01, 0x02, 0x00, 0x30}, func(b []byte) { run(f, b) })
	f = r.Family("short/delimited")
	enumStrings(r.Pick(6, 7), []byte{0x7d, 0x01, 0x02, 0x00, 0x03, 0xff}, func(b []byte) { run(f, append(append([]byte{0x7e}, b...), 0x7e)) })

	// every content of the shapes header+body with correct checksum over a small alphabet
	f = r.Family("content/lengths")
	for n := 0; n <= 40; n++ {
		for _, prop := range []uint16{0, 1, 2, 5, 1 << 13, 1<<13 | 1, 1 << 10, 1<<10 | 4, 0x3ff, 0xffff, 0xdbff} {
			for _, fill := range []byte{0, 1, 0x7d, 0x7e, 0x99, 0xff} {
				c := bytes.Repeat([]byte{fill}, n)
				if n >= 4 {
					c[0], c[1], c[2], c[3] = 0x09, 0x00, byte(prop>>8), byte(prop)
				}
				run(f, refFrame(c))
				if n >= 10 {
					d := append([]byte{}, c...)
					copy(d[4:10], []byte{0, 0, 0, 1, 0x23, 0x45})
					run(f, refFrame(d))
				}
			}
		}
	}
	// wrong checksum: every other value
	f = r.Family("checksum")
	for ci, fr := range frameCorpus(r.Thorough()) {
		if ci > r.Pick(12, 100) {
			break
		}
		h, body, err := refUnframe(fr)
		if err != nil {
			panic("corpus")
		}
		c := append(h.bytes(), body...)
		for x := 0; x < 256; x++ {
			run(f, refWrap(append(append([]byte{}, c...), byte(x))))
		}
	}
	// declared length against actual length
	f = r.Family("declared-length")
	for decl := 0; decl < 1024; decl++ {
		for _, n := range []int{decl - 1, decl, decl + 1, decl ^ 1, 0, 1, 5, 1023, 1024, 1024 + decl} {
			if n < 0 {
				continue
			}
			h := refHeader{MsgID: 0x0900, Prop: uint16(decl), Icc: 77, Serial: 3}
			b := bytes.Repeat([]byte{0x33}, n)
			run(f, refFrame(append(h.bytes(), b...)))
			h.HasPkt, h.Sum, h.Seq = true, 2, 1
			h.Prop |= 1 << 13
			run(f, refFrame(append(h.bytes(), b...)))
		}
	}
	f = r.Family("huge")
	for _, n := range []int{65535, 65536, 65537, 65541, 65536 + 1023, 131072, 131072 + 5, 200000} {
		for _, decl := range []int{n & 0x3ff, n & 0xffff, 1, 0, 1023} {
			h := refHeader{MsgID: 0x0900, Prop: uint16(decl) & 0x3ff, Icc: 77, Serial: 3}
			run(f, refFrame(append(h.bytes(), bytes.Repeat([]byte{0x33}, n)...)))
		}
	}
	// terminal number nibbles
	f = r.Family("terminal-number")
	for pos := 0; pos < 6; pos++ {
		for x := 0; x < 256; x++ {
			for _, bg := range []byte{0, 0x12, 0x99} {
				h := refHeader{MsgID: 0x0002, Icc: 0, Serial: 3}
				c := h.bytes()
				for i := 4; i < 10; i++ {
					c[i] = bg
				}
				c[4+pos] = byte(x)
				run(f, refFrame(c))
			}
		}
	}
	// damaged frames
	for ci, fr := range frameCorpus(r.Thorough()) {
		f := r.Family(fmt.Sprintf("damage/%02d", ci))
		alpha := all256
		if ci > 20 && !r.Thorough() {
			alpha = []byte{0, 1, 2, 0x30, 0x7d, 0x7e, 0x80, 0xff}
		}
		for n := 0; n <= len(fr); n++ {
			run(f, fr[:n])
			run(f, fr[n:])
			run(f, append(append([]byte{}, fr[:n]...), 0x7e))
		}
		for p := range fr {
			for _, x := range alpha {
				c := append([]byte{}, fr...)
				c[p] = x
				run(f, c)
				run(f, append(append(append([]byte{}, fr[:p]...), x), fr[p:]...))
			}
			run(f, append(append([]byte{}, fr[:p]...), fr[p+1:]...))
			if p+1 < len(fr) {
				c := append([]byte{}, fr...)
				c[p], c[p+1] = c[p+1], c[p]
				run(f, c)
			}
			for q := p + 1; q < len(fr) && q < p+r.Pick(6, 24); q++ {
				run(f, append(append([]byte{}, fr[:p]...), fr[q:]...)) // cut out
				run(f, append(append([]byte{}, fr[:q]...), fr[p:]...)) // repeat
				for _, x := range []byte{0x01, 0x80, 0xff, 0x03} {     // equal damage keeps the checksum
					c := append([]byte{}, fr...)
					c[p] ^= x
					c[q] ^= x
					run(f, c)
				}
			}
		}
		// content damage under a recomputed checksum: header and body checks alone decide
		h, body, _ := refUnframe(fr)
		c0 := append(h.bytes(), body...)
		for p := range c0 {
			for _, x := range alpha {
				c := append([]byte{}, c0...)
				c[p] = x
				run(f, refFrame(c))
			}
		}
		for n := 0; n < len(c0); n++ {
			run(f, refFrame(c0[:n]))
			if n >= 12 { // truncated body with consistent declared length
				c := append([]byte{}, c0[:n]...)
				hl := 12
				if h.HasPkt {
					hl = 16
				}
				if n >= hl {
					pr := h.Prop&^0x3ff | uint16(n-hl)
					c[2], c[3] = byte(pr>>8), byte(pr)
					run(f, refFrame(c))
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C03

var errTransport = errors.New("transport failure")

type segment struct {
	b   []byte
	err error
}

// segReader hands out the stream in exactly the given segments.
type segReader struct {
	segs []segment
	i    int
	fin  error
}

func (s *segReader) Read(p []byte) (int, error) {
	if s.i >= len(s.segs) {
		return 0, s.fin
	}
	g := &s.segs[s.i]
	n := copy(p, g.b)
	for k := n; k < len(p); k++ {
		p[k] = 0xee // a reader may use all of p as scratch space
	}
	g.b = g.b[n:]
	if len(g.b) > 0 {
		return n, nil
	}
	s.i++
	return n, g.err
}
func (s *segReader) Write(p []byte) (int, error) { return len(p), nil }

// refStream is the reference splitter: the messages of a byte stream.
// Frames are 7e..7e with a delimiter of their own each; anything else between frames is junk.
type streamItem struct {
	fr   []byte // a complete frame
	junk bool
}

// receiveAll drains the codec; it keeps receiving after refused frames.
func receiveAll(r *hk.Run, rd io.ReadWriter, limit int) (ms []*protocol.Message, errs []error, perr error) {
	codec, err := new(go808.Protocol).NewCodec(rd)
	if err != nil {
		return nil, nil, err
	}
	perr = hk.NoPanic("Receive", func() {
		for n := 0; n < limit; n++ {
			v, err := codec.Receive()
			r.Ops(1)
			if err != nil {
				errs = append(errs, err)
				if err == io.EOF || err == errTransport || err == io.ErrUnexpectedEOF {
					return
				}
				continue
			}
			m, ok := v.(protocol.Message)
			if !ok {
				perr = fmt.Errorf("Receive returned a %T", v)
				return
			}
			c := m
			ms = append(ms, &c)
		}
	})
	return
}

type sframe struct {
	fr    []byte
	valid bool
	h     refHeader
	want  protocol.Entity
}

func mkSFrame(fr []byte) sframe {
	h, body, err := refUnframe(fr)
	s := sframe{fr: fr, valid: err == nil, h: h}
	if err == nil {
		if sp := specByID(h.MsgID); sp != nil && len(body) == int(h.Prop&0x3ff) {
			if e, v := sp.decode(body); v == accept {
				s.want = e
			}
		}
	}
	return s
}

// streamCase: the segments must yield exactly the valid frames.
func streamCase(r *hk.Run, frames []sframe, segs [][]byte, lastErr bool, emptyReads bool) error {
	sr := &segReader{fin: io.EOF}
	var st []byte
	for i, s := range segs {
		if emptyReads {
			sr.segs = append(sr.segs, segment{nil, nil})
		}
		g := segment{append([]byte{}, s...), nil}
		if i == len(segs)-1 && lastErr {
			g.err = io.EOF
		}
		sr.segs = append(sr.segs, g)
		st = append(st, byte(len(s)), byte(len(s)>>8))
	}
	for _, s := range frames {
		st = append(st, s.fr...)
	}
	r.State(st)
	ms, _, perr := receiveAll(r, sr, 4096+4*len(frames))
	if perr != nil {
		return perr
	}
	i := 0
	for k, f := range frames {
		if !f.valid {
			continue
		}
		if lastErr && i == len(ms) && k >= len(frames)-countTail(frames, segs) {
			// data returned together with the error may be lost with the connection
			break
		}
		if i >= len(ms) {
			return fmt.Errorf("frame %d of the stream was not delivered (%d messages received)", k, len(ms))
		}
		m := ms[i]
		i++
		if x := diffHeader(m.Header, f.h); x != "" {
			return fmt.Errorf("frame %d: %s", k, x)
		}
		if f.want == nil {
			if !noBody(m.Body) {
				return fmt.Errorf("frame %d: unexpected body %T", k, m.Body)
			}
		} else if x := diffEntity(m.Body, f.want); x != "" {
			return fmt.Errorf("frame %d: %s", k, x)
		}
	}
	if i != len(ms) {
		return fmt.Errorf("%d messages delivered, stream contains %d", len(ms), i)
	}
	return nil
}

// countTail: how many frames end in the last segment
func countTail(frames []sframe, segs [][]byte) int {
	last := len(segs[len(segs)-1])
	n, end := 0, 0
	for i := len(frames) - 1; i >= 0; i-- {
		if end >= last {
			break
		}
		n++
		end += len(frames[i].fr)
	}
	return n
}

func cutAt(b []byte, cuts ...int) [][]byte {
	var out [][]byte
	p := 0
	for _, c := range cuts {
		if c > p && c < len(b) {
			out = append(out, b[p:c])
			p = c
		}
	}
	return append(out, b[p:])
}

func uniform(b []byte, n int) [][]byte {
	var out [][]byte
	for len(b) > n {
		out = append(out, b[:n])
		b = b[n:]
	}
	return append(out, b)
}

func c03(r *hk.Run) {
	fr := func(id uint16, serial uint16, body ...byte) sframe {
		return mkSFrame(refEncodeFrame(refHeader{MsgID: id, Icc: 13800138000, Serial: serial}, body))
	}
	bad := func(b ...byte) sframe { return sframe{fr: b} }
	join := func(fs []sframe) (b []byte) {
		for _, f := range fs {
			b = append(b, f.fr...)
		}
		return
	}
	show := func(fs []sframe, segs [][]byte) string {
		ls := []int{}
		for _, s := range segs {
			ls = append(ls, len(s))
		}
		return fmt.Sprintf("stream %s in segments %v", hexs(join(fs)), ls)
	}
	run := func(f *hk.Fam, fs []sframe, segs [][]byte, lastErr, empty bool) {
		if f.Stopped() {
			return
		}
		f.Case(func() string { return fmt.Sprintf("%s lastErr=%v empty=%v", show(fs, segs), lastErr, empty) }, func() error {
			return streamCase(r, fs, segs, lastErr, empty)
		})
	}
	// every segmentation of the shortest frame
	f := r.Family("all-segmentations/heartbeat")
	one := []sframe{fr(0x0002, 1)}
	b := join(one)
	for mask := 0; mask < 1<<(len(b)-1); mask++ {
		cuts := []int{}
		for i := 1; i < len(b); i++ {
			if mask>>(i-1)&1 == 1 {
				cuts = append(cuts, i)
			}
		}
		run(f, one, cutAt(b, cuts...), false, false)
	}
	// every segmentation of a two-frame stream around the boundary
	f = r.Family("all-segmentations/boundary")
	two := []sframe{fr(0x0900, 0x7e, 0x7e, 0x7d, 0x41), fr(0x0002, 3)}
	b = join(two)
	lo := len(two[0].fr) - 6
	for mask := 0; mask < 1<<12; mask++ {
		cuts := []int{}
		for i := 0; i < 12; i++ {
			if mask>>i&1 == 1 {
				cuts = append(cuts, lo+i)
			}
		}
		run(f, two, cutAt(b, cuts...), false, false)
	}
	var streams [][]sframe
	streams = append(streams, one, two,
		[]sframe{fr(0x0002, 1), fr(0x0002, 2), fr(0x0002, 3)},
		[]sframe{fr(0x0900, 1, bytes.Repeat([]byte{0x7e}, 60)...), fr(0x0001, 2, 0, 1, 0x80, 1, 0), fr(0x0002, 3)},
		[]sframe{fr(0x0fff, 1, 1, 2), fr(0x0002, 2)},
		[]sframe{fr(0x0001, 1, 1), fr(0x0001, 2, 0, 1, 0x80, 1, 0)})
	// streams with refused frames and junk
	badsum := append([]byte{}, fr(0x0002, 1).fr...)
	badsum[len(badsum)-2] ^= 1
	badesc := []byte{0x7e, 0x00, 0x02, 0x7d, 0x05, 0x00, 0x7e}
	short := []byte{0x7e, 0x01, 0x01, 0x7e}
	for _, j := range [][]byte{badsum, badesc, short, {0x00}, {0x00, 0x01, 0x02}, bytes.Repeat([]byte{0x41}, 127), bytes.Repeat([]byte{0x41}, 128), bytes.Repeat([]byte{0x42}, 300)} {
		streams = append(streams,
			[]sframe{bad(j...), fr(0x0002, 2)},
			[]sframe{fr(0x0002, 1), bad(j...), fr(0x0001, 2, 0, 1, 0x80, 1, 0), fr(0x0002, 3)})
	}
	for si, fs := range streams {
		f := r.Family(fmt.Sprintf("cuts/stream%02d", si))
		b := join(fs)
		for i := 0; i <= len(b); i++ {
			run(f, fs, cutAt(b, i), false, false)
			run(f, fs, cutAt(b, i), true, false)
			run(f, fs, cutAt(b, i), false, true)
			lim2 := len(b)
			if len(b) > 160 && !r.Thorough() {
				lim2 = i + 40
			}
			for j := i + 1; j < lim2 && j < len(b); j++ {
				run(f, fs, cutAt(b, i, j), false, false)
				if len(b) < 64 {
					for k := j + 1; k < len(b) && k < j+r.Pick(12, 64); k++ {
						run(f, fs, cutAt(b, i, j, k), false, false)
					}
				}
			}
		}
		for n := 1; n <= len(b) && n <= 300; n++ {
			run(f, fs, uniform(b, n), false, false)
			run(f, fs, uniform(b, n), false, true)
		}
	}
	// frames around the internal read size and its multiples, every length, coalesced
	f = r.Family("lengths")
	for n := 1; n <= 1023; n++ {
		for _, fill := range []byte{0x41, 0x7e} {
			body := bytes.Repeat([]byte{fill}, n)
			body[0] = byte(n)
			if n > 1 {
				body[n-1] = byte(n >> 8)
			}
			fs := []sframe{fr(0x0900, uint16(n), body...), fr(0x0900, uint16(n+1), 0x31, 0x32), fr(0x0002, uint16(n+2))}
			b := join(fs)
			run(f, fs, [][]byte{b}, false, false)
			run(f, fs, uniform(b, 127), false, false)
			run(f, fs, uniform(b, 129), false, false)
			run(f, fs, cutAt(b, len(fs[0].fr)), false, false)
			run(f, fs, cutAt(b, len(fs[0].fr)-1), false, false)
			run(f, fs, cutAt(b, len(fs[0].fr)+1), false, false)
		}
	}
	// long runs of frames in one and in many segments: delivered messages keep their content
	f = r.Family("many")
	for _, count := range []int{10, 50, 200} {
		for _, seg := range []int{1, 3, 16, 100, 128, 1000, 1 << 20} {
			var fs []sframe
			for i := 0; i < count; i++ {
				fs = append(fs, fr(0x0900, uint16(i), bytes.Repeat([]byte{byte(i)}, 1+i*7%90)...))
			}
			run(f, fs, uniform(join(fs), seg), false, false)
		}
	}
	// a long-lived connection: far more bytes and messages than any buffer limit or counter,
	// with refused frames in between
	f = r.Family("long-lived")
	for _, total := range []int{70 << 10, 300 << 10, 2100 << 10} {
		if total > 1<<20 && !r.Thorough() {
			total = 1100 << 10
		}
		for kind, mk := range []func(i int) sframe{
			func(i int) sframe { return fr(0x0002, uint16(i)) },
			func(i int) sframe { return fr(0x0900, uint16(i), bytes.Repeat([]byte{byte(i)}, 1+i*7%90)...) },
			func(i int) sframe { return fr(0x0900, uint16(i), bytes.Repeat([]byte{byte(i)}, 1023)...) },
			func(i int) sframe {
				if i%5 == 4 {
					return bad(badsum...)
				}
				return fr(0x0001, uint16(i), byte(i>>8), byte(i), 0x80, 1, 0)
			},
		} {
			for _, seg := range []int{1, 9, 100, 128, 1000} {
				if seg == 1 && total > 100<<10 && !r.Thorough() {
					continue
				}
				if f.Stopped() {
					return
				}
				total, kind, mk, seg := total, kind, mk, seg
				f.Case(func() string {
					return fmt.Sprintf("%d bytes of frames of kind %d in segments of %d", total, kind, seg)
				}, func() error {
					var fs []sframe
					for i, n := 0, 0; n < total; i++ {
						x := mk(i)
						fs = append(fs, x)
						n += len(x.fr)
					}
					return streamCase(r, fs, uniform(join(fs), seg), false, false)
				})
			}
		}
	}
	// after a refused frame everything of every corpus frame still arrives
	f = r.Family("recovery")
	for ci, c := range frameCorpus(false) {
		if ci > 25 && !r.Thorough() {
			break
		}
		for p := 1; p < len(c)-1; p++ {
			for _, x := range []byte{0x00, 0x01, 0x7d, 0x80} {
				d := append([]byte{}, c...)
				d[p] ^= x
				if d[p] == 0x7e {
					continue
				}
				s := mkSFrame(d)
				if s.valid && s.h.Prop&(1<<10) != 0 {
					s.valid = int(s.h.Prop&0x3ff) != bodyLen(d)
				}
				if s.valid && s.want == nil && specByID(s.h.MsgID) != nil && bodyLen(d) == int(s.h.Prop&0x3ff) {
					continue // undecided body
				}
				fs := []sframe{fr(0x0002, 1), s, fr(0x0900, 2, 0x7e, 1), fr(0x0002, 3)}
				b := join(fs)
				run(f, fs, [][]byte{b}, false, false)
				run(f, fs, uniform(b, 5), false, false)
			}
		}
	}
	// end of stream inside a frame never produces a message
	f = r.Family("end-of-stream")
	for _, fs := range streams[:6] {
		b := join(fs)
		for n := 0; n < len(b); n++ {
			whole, end := 0, 0
			for _, s := range fs {
				end += len(s.fr)
				if end <= n {
					whole++
				}
			}
			for _, te := range []error{io.EOF, errTransport} {
				n, te := n, te
				f.Case(func() string { return fmt.Sprintf("%s ends after %d bytes with %v", hexs(b), n, te) }, func() error {
					sr := &segReader{fin: te, segs: []segment{{append([]byte{}, b[:n]...), nil}}}
					ms, errs, perr := receiveAll(r, sr, 100)
					if perr != nil {
						return perr
					}
					r.State(b[:n], []byte(te.Error()))
					if len(ms) != whole {
						return fmt.Errorf("%d messages delivered, %d complete frames arrived", len(ms), whole)
					}
					if len(errs) == 0 {
						return fmt.Errorf("end of stream was not reported")
					}
					return nil
				})
			}
		}
	}
	// an unterminated run is not buffered without limit
	f = r.Family("unterminated")
	for _, head := range [][]byte{{0x7e}, {0x7e, 0x00, 0x02}, append(append([]byte{}, fr(0x0002, 1).fr...), 0x7e)} {
		for _, fill := range []byte{0x00, 0x41, 0x7d} {
			for _, seg := range []int{1, 64, 100, 127, 128, 500} {
				head, fill, seg := head, fill, seg
				f.Case(func() string { return fmt.Sprintf("%x then %02x.. in segments of %d", head, fill, seg) }, func() error {
					in := &endless{head: append([]byte{}, head...), fill: fill, seg: seg}
					codec, _ := new(go808.Protocol).NewCodec(in)
					r.State(head, []byte{fill, byte(seg), byte(seg >> 8)})
					for n := 0; n < 5; n++ {
						_, err := codec.Receive()
						r.Ops(1)
						if in.over {
							return fmt.Errorf("consumed %d bytes of an unterminated frame without refusing it", in.n)
						}
						if err != nil && in.n > 0xffff {
							return nil
						}
					}
					return fmt.Errorf("unterminated frame not refused (%d bytes consumed)", in.n)
				})
			}
		}
	}
}

func bodyLen(fr []byte) int {
	_, b, err := refUnframe(fr)
	if err != nil {
		return -1
	}
	return len(b)
}

type endless struct {
	head []byte
	fill byte
	seg  int
	n    int
	over bool
}

func (e *endless) Write(p []byte) (int, error) { return len(p), nil }
func (e *endless) Read(p []byte) (int, error) {
	if e.n > 1<<17 {
		e.over = true
		return 0, io.EOF
	}
	if len(e.head) > 0 {
		n := copy(p, e.head)
		e.head = e.head[n:]
		e.n += n
		return n, nil
	}
	n := len(p)
	if n > e.seg {
		n = e.seg
	}
	for i := 0; i < n; i++ {
		p[i] = e.fill
	}
	e.n += n
	return n, nil
}
