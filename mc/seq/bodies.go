package main

// C04, C05, C06: message bodies.

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"gitee.com/coco/go808/protocol"
	"verifmc/hk"
)

func init() {
	props["C04"] = func(r *hk.Run) { zones(r, c04case); bodyValues(r, c04case) }
	props["C05"] = func(r *hk.Run) { registry(r); zones(r, c05case); bodyValues(r, c05case) }
	props["C06"] = c06
}

func implDecode(e protocol.Entity, b []byte) error {
	if p, ok := e.(protocol.EntityPacket); ok {
		return p.DecodePacket(b)
	}
	_, err := e.Decode(b)
	return err
}

func hasPacket(e protocol.Entity) bool { _, ok := e.(protocol.EntityPacket); return ok }

// bodyValues enumerates, for every message type: the base values; every leaf over its whole
// domain on two backgrounds; every pair of leaves over their small domains.
func bodyValues(r *hk.Run, check func(r *hk.Run, s *spec, mk func() protocol.Entity) error) {
	for _, s := range specs {
		s := s
		ls := s.leaves()
		mkBase := func(k int) protocol.Entity {
			e := s.fresh()
			v := reflect.ValueOf(e).Elem()
			for j, l := range ls {
				i := 0
				if k > 0 {
					i = (k*3 + j) % l.smallN
				}
				l.setSmall(v, i)
			}
			return e
		}
		skip := func(e protocol.Entity) bool { return s.id == 0x0102 && e.(*protocol.T808_0x0102).AuthKey == "" }
		one := func(f *hk.Fam, desc func() string, build func(e reflect.Value), k int) {
			mk := func() protocol.Entity {
				e := mkBase(k)
				if build != nil {
					build(reflect.ValueOf(e).Elem())
				}
				s.fix(e)
				return e
			}
			f.Case(func() string { return desc() + " " + showEntity(mk()) }, func() error {
				if skip(mk()) {
					return nil
				}
				return check(r, s, mk)
			})
		}
		f := r.Family(fmt.Sprintf("%04x/base", s.id))
		for k := 0; k < 12; k++ {
			k := k
			one(f, func() string { return fmt.Sprint("base ", k) }, nil, k)
		}
		for _, l := range ls {
			l := l
			f := r.Family(fmt.Sprintf("%04x/%s", s.id, l.name))
			bases := []int{1, 0}
			if l.n > 20000 && !r.Thorough() {
				bases = bases[:1]
			}
			for _, k := range bases {
				for i := 0; i < l.n && !f.Stopped(); i++ {
					i, k := i, k
					if !r.Thorough() && l.n > 100000 && s.id != 0x0200 && i >= 36525 && (i-36525)%61 != 0 {
						continue // seconds of the day: every 61st (so each hour, minute, second occurs)
					}
					one(f, func() string { return fmt.Sprintf("base %d, %s#%d", k, l.name, i) }, func(v reflect.Value) { l.set(v, i) }, k)
				}
			}
		}
		f = r.Family(fmt.Sprintf("%04x/pairs", s.id))
		for a := range ls {
			for b := range ls {
				if a == b || (!r.Thorough() && b < a) {
					continue
				}
				for i := 0; i < ls[a].smallN; i++ {
					for j := 0; j < ls[b].smallN && !f.Stopped(); j++ {
						a, b, i, j := a, b, i, j
						one(f, func() string { return fmt.Sprintf("%s#%d,%s#%d", ls[a].name, i, ls[b].name, j) }, func(v reflect.Value) {
							ls[a].setSmall(v, i)
							ls[b].setSmall(v, j)
						}, 2)
					}
				}
			}
		}
	}
	// every character of GB18030 in text fields
	s := specByID(0x8300)
	f := r.Family("8300/characters")
	for c := rune(1); c <= 0x2ffff && !f.Stopped(); c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		if c > 0xffff && !r.Thorough() && c&0xff > 3 {
			continue
		}
		c := c
		text := "a" + string(c) + "b"
		if gbDec(gbEnc(text)) != text {
			continue // not a character of GB18030
		}
		mk := func() protocol.Entity { return &protocol.T808_0x8300{Flag: 7, Text: text} }
		f.Case(func() string { return fmt.Sprintf("U+%04X", c) }, func() error { return check(r, s, mk) })
	}
}

type kept struct {
	got, want protocol.Entity
	enc, copy []byte
	desc      string
}

var history []kept

// c04case: decoding the encoded body gives back the value; encoding is repeatable and does not
// change the value; earlier results are untouched.
func c04case(r *hk.Run, s *spec, mk func() protocol.Entity) error {
	e, want := mk(), mk()
	s.norm(want)
	b, err := e.Encode()
	r.Ops(1)
	if err != nil {
		return fmt.Errorf("Encode fails: %v", err)
	}
	r.State([]byte{byte(s.id >> 8), byte(s.id)}, b)
	bcopy := append([]byte{}, b...)
	d := s.fresh()
	in := append([]byte{}, b...)
	if err := implDecode(d, in); err != nil {
		return fmt.Errorf("Decode of the encoded body fails: %v (body %s)", err, hexs(b))
	}
	if x := diffEntity(d, want); x != "" {
		return fmt.Errorf("decoded value differs: %s (body %s)", x, hexs(b))
	}
	if !bytes.Equal(in, bcopy) {
		return fmt.Errorf("Decode modified its input")
	}
	if !hasPacket(e) {
		b2, err := e.Encode()
		r.Ops(1)
		if err != nil || !bytes.Equal(b2, bcopy) {
			return fmt.Errorf("second Encode differs: %v %s", err, diffBytes(b2, bcopy))
		}
		after := mk()
		s.norm(after)
		s.norm(e)
		if x := diffEntity(e, after); x != "" {
			return fmt.Errorf("Encode changed the value: %s", x)
		}
	}
	r.Ops(1)
	if len(b) <= 1023 {
		m := protocol.Message{Body: mk(), Header: protocol.Header{IccID: 13800138000, MsgSerialNo: 0x7e7d}}
		fr, err := m.Encode()
		if err != nil {
			return fmt.Errorf("Message.Encode fails: %v", err)
		}
		var m2 protocol.Message
		if err := m2.Decode(fr); err != nil {
			return fmt.Errorf("Message.Decode fails: %v (frame %s)", err, hexs(fr))
		}
		r.Ops(2)
		for i := range fr {
			fr[i] = 0xa5 // the receive buffer is reused
		}
		if x := diffEntity(m2.Body, want); x != "" {
			return fmt.Errorf("message body differs after transmission: %s", x)
		}
		history = append(history, kept{got: m2.Body, want: want, enc: b, copy: bcopy, desc: fmt.Sprintf("%04x", s.id)})
		if len(history) >= 4 {
			for _, h := range history {
				if x := diffEntity(h.got, h.want); x != "" {
					history = nil
					return fmt.Errorf("an earlier decoded %s was altered: %s", h.desc, x)
				}
				if !bytes.Equal(h.enc, h.copy) {
					history = nil
					return fmt.Errorf("an earlier encoded %s was altered: %s", h.desc, diffBytes(h.enc, h.copy))
				}
			}
			history = history[:0]
		}
	}
	return nil
}

// zones: the times on the wire are those of the local zone, whichever that is.
func zones(r *hk.Run, check func(*hk.Run, *spec, func() protocol.Entity) error) {
	f := r.Family("local-zones")
	locs := []*time.Location{summer()}
	for _, off := range []int{0, 8 * 3600, -9*3600 - 1800, 5*3600 + 1800, 14 * 3600, -12 * 3600, 3600} {
		locs = append(locs, time.FixedZone(fmt.Sprintf("%ds east", off), off))
	}
	for _, s := range specs {
		s := s
		for k := 0; k < 12; k++ {
			b := s.encode(s.baseValue(k))
			for _, loc := range locs {
				k, loc := k, loc
				f.Case(func() string { return fmt.Sprintf("%04x base %d in the zone %s", s.id, k, loc) }, func() error {
					if _, verdict := s.decode(b); verdict != accept {
						return nil
					}
					defer setLocal(zone)
					setLocal(loc)
					return check(r, s, func() protocol.Entity { v, _ := s.decode(b); return v })
				})
			}
		}
	}
}

// c05case: the encoded body is the layout, and the layout decodes to the value.
func c05case(r *hk.Run, s *spec, mk func() protocol.Entity) error {
	want := mk()
	ref := s.encode(mk())
	s.norm(want)
	e := mk()
	b, err := e.Encode()
	r.Ops(1)
	if err != nil {
		return fmt.Errorf("Encode fails: %v", err)
	}
	r.State([]byte{byte(s.id >> 8), byte(s.id)}, ref)
	if s.id == 0x0901 {
		// any gzip stream of the data will do
		v, verdict := s.decode(b)
		n := &rd{b: b}
		if verdict != accept || int(n.u32()) != len(b)-4 || diffEntity(v, want) != "" {
			return fmt.Errorf("encoded body is not length + gzip data: %s", hexs(b))
		}
	} else if x := diffBytes(b, ref); x != "" {
		return fmt.Errorf("encoded body is not the documented layout: %s", x)
	}
	d := s.fresh()
	if err := implDecode(d, append([]byte{}, ref...)); err != nil {
		return fmt.Errorf("Decode refuses the documented layout: %v (%s)", err, hexs(ref))
	}
	r.Ops(1)
	if x := diffEntity(d, want); x != "" {
		return fmt.Errorf("documented layout decodes differently: %s (%s)", x, hexs(ref))
	}
	return nil
}

// registry: every type is registered under its own ID and no other ID yields a body.
func registry(r *hk.Run) {
	f := r.Family("registry")
	for id := 0; id < 65536; id++ {
		id := uint16(id)
		s := specByID(id)
		f.Case(func() string { return fmt.Sprintf("message ID %04x", id) }, func() error {
			body := []byte{}
			if s != nil {
				body = s.encode(s.baseValue(0))
				if got := uint16(s.fresh().MsgID()); got != id {
					return fmt.Errorf("%s.MsgID() = %04x", s.typ, got)
				}
			}
			fr := refEncodeFrame(refHeader{MsgID: id, Icc: 1, Serial: 1}, body)
			var m protocol.Message
			err := m.Decode(fr)
			r.Ops(1)
			r.State(fr)
			if err != nil {
				return fmt.Errorf("Decode: %v", err)
			}
			if s == nil {
				if m.Body != nil && !reflect.ValueOf(m.Body).IsNil() {
					return fmt.Errorf("unregistered ID yields a %T", m.Body)
				}
				return nil
			}
			want := s.baseValue(0)
			s.norm(want)
			if x := diffEntity(m.Body, want); x != "" {
				return fmt.Errorf("%s", x)
			}
			return nil
		})
	}
}

// c06: arbitrary bodies against the reference decoder.
func c06(r *hk.Run) {
	for _, s := range specs {
		s := s
		try := func(b []byte) error {
			in := append([]byte{}, b...)
			d := s.fresh()
			var err error
			if p := hk.NoPanic("Decode", func() { err = implDecode(d, in) }); p != nil {
				return fmt.Errorf("%v (body %s)", p, hexs(b))
			}
			r.Ops(1)
			r.State([]byte{byte(s.id >> 8), byte(s.id)}, b)
			want, v := s.decode(b)
			switch {
			case v == undecided:
				return nil
			case v == refuse && err == nil:
				return fmt.Errorf("accepted an inconsistent body %s as %s", hexs(b), showEntity(d))
			case v == accept && err != nil:
				return fmt.Errorf("refused a valid body %s: %v", hexs(b), err)
			case v == accept:
				if x := diffEntity(d, want); x != "" {
					return fmt.Errorf("body %s: %s", hexs(b), x)
				}
			}
			return nil
		}
		name := fmt.Sprintf("%04x/", s.id)
		var bases [][]byte
		nb := r.Pick(4, 8)
		for k := 0; k < nb; k++ {
			b := s.encode(s.baseValue(k))
			if len(b) > 500 {
				continue
			}
			bases = append(bases, b)
		}
		f := r.Family(name + "truncate")
		for _, b := range bases {
			for n := 0; n <= len(b); n++ {
				b := b[:n]
				f.Case(func() string { return hexs(b) }, func() error { return try(b) })
				for _, tail := range [][]byte{{0}, {0xff}, {1, 0}, {0x30, 1, 5}, {0, 0, 0, 0}} {
					t := append(append([]byte{}, b...), tail...)
					f.Case(func() string { return hexs(t) }, func() error { return try(t) })
				}
			}
		}
		f = r.Family(name + "substitute")
		for _, b := range bases {
			for p := 0; p < len(b) && !f.Stopped(); p++ {
				for x := 0; x < 256; x++ {
					c := append([]byte{}, b...)
					c[p] = byte(x)
					f.Case(func() string { return hexs(c) }, func() error { return try(c) })
				}
			}
		}
		f = r.Family(name + "substitute+truncate")
		for bi, b := range bases {
			if bi >= r.Pick(2, 8) {
				break
			}
			lim := r.Pick(40, 120)
			for p := 0; p < len(b) && p < lim; p++ {
				for _, x := range []byte{0, 1, 2, 0x80, 0xff} {
					for n := p + 1; n < len(b) && n < p+lim && !f.Stopped(); n++ {
						c := append([]byte{}, b[:n]...)
						c[p] = x
						f.Case(func() string { return hexs(c) }, func() error { return try(c) })
					}
				}
			}
		}
		f = r.Family(name + "short")
		enumStrings(r.Pick(2, 2), all256, func(b []byte) {
			c := append([]byte{}, b...)
			f.Case(func() string { return hexs(c) }, func() error { return try(c) })
		})
		enumStrings(r.Pick(6, 8), []byte{0, 1, 2, 5, 0xff}, func(b []byte) {
			if f.Stopped() {
				return
			}
			c := append([]byte{}, b...)
			f.Case(func() string { return hexs(c) }, func() error { return try(c) })
		})
		f = r.Family(name + "fill")
		for n := 0; n <= 1023 && !f.Stopped(); n++ {
			for _, x := range []byte{0x00, 0x01, 0x11, 0xff} {
				if x == 0xff && n > 64 && n%16 != 0 {
					continue
				}
				c := bytes.Repeat([]byte{x}, n)
				f.Case(func() string { return hexs(c) }, func() error { return try(c) })
			}
		}
	}
}

var all256 = func() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}()

// enumStrings calls fn for every string of length 0..max over the alphabet.
func enumStrings(max int, alpha []byte, fn func([]byte)) {
	for l := 0; l <= max; l++ {
		idx := make([]int, l)
		buf := make([]byte, l)
		for {
			for i, x := range idx {
				buf[i] = alpha[x]
			}
			fn(buf)
			i := l - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}
