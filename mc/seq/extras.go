package main

// C09: location extras, terminal parameters, registered types.

import (
	"bytes"
	"fmt"
	"reflect"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"verifmc/hk"
)

func init() { props["C09"] = c09 }

type customEntity struct {
	id   uint16
	data []byte
}

func (c *customEntity) MsgID() protocol.MsgID   { return protocol.MsgID(c.id) }
func (c *customEntity) Encode() ([]byte, error) { return c.data, nil }
func (c *customEntity) Decode(b []byte) (int, error) {
	c.data = append([]byte{}, b...)
	return len(b), nil
}

// rawItem is one extra item on the wire.
type rawItem struct {
	id   byte
	data []byte
}

func (i rawItem) wire() []byte { return append([]byte{i.id, byte(len(i.data))}, i.data...) }

func locBytes() []byte {
	l := specByID(0x0200).baseValue(1).(*protocol.T808_0x0200)
	l.Extras = nil
	return specByID(0x0200).encode(l)
}

// expectItems: reference reading of a sequence of items.
func expectItems(items []rawItem) (out []extra.Entity, wire []byte, ok bool) {
	for _, it := range items {
		if it.id == customExtraID || it.id == customExtraID+1 {
			out = append(out, &customExtra{id: it.id, data: it.data})
			wire = append(wire, it.wire()...)
			continue
		}
		e, known, good := refExtra(it.id, it.data)
		if !known {
			continue
		}
		if !good {
			return nil, nil, false
		}
		out = append(out, e)
		wire = append(wire, it.wire()...)
	}
	return out, wire, true
}

var locCarriers = []uint16{0x0200, 0x0201, 0x0500, 0x0704}

func carrierBody(id uint16, loc []byte) []byte {
	switch id {
	case 0x0201, 0x0500:
		return append([]byte{0, 9}, loc...)
	case 0x0704:
		return append(append([]byte{0, 1, 0}, be16(uint16(len(loc)))...), loc...)
	}
	return loc
}

func carrierExtras(e protocol.Entity) []extra.Entity {
	switch x := e.(type) {
	case *protocol.T808_0x0200:
		return x.Extras
	case *protocol.T808_0x0201:
		return x.Result.Extras
	case *protocol.T808_0x0500:
		return x.Result.Extras
	case *protocol.T808_0x0704:
		if len(x.Items) == 1 {
			return x.Items[0].Extras
		}
	}
	return nil
}

func itemsCase(r *hk.Run, id uint16, items []rawItem) error {
	var tail []byte
	for _, it := range items {
		tail = append(tail, it.wire()...)
	}
	want, wire, ok := expectItems(items)
	loc := locBytes()
	body := carrierBody(id, append(append([]byte{}, loc...), tail...))
	if len(body) > 1023 {
		return nil
	}
	r.State([]byte{byte(id >> 8), byte(id)}, tail)
	var m protocol.Message
	fr := refEncodeFrame(refHeader{MsgID: id, Icc: 1, Serial: 1}, body)
	if err := m.Decode(fr); err != nil {
		return fmt.Errorf("Decode: %v", err)
	}
	r.Ops(1)
	for i := range fr {
		fr[i] = 0xcc
	}
	if !ok {
		if !noBody(m.Body) {
			return fmt.Errorf("report with a misfitting item accepted: %s", hexs(tail))
		}
		return nil
	}
	if noBody(m.Body) {
		return fmt.Errorf("report refused: %s", hexs(tail))
	}
	got := carrierExtras(m.Body)
	if len(got) != len(want) {
		return fmt.Errorf("%d items delivered, want %d (%s)", len(got), len(want), hexs(tail))
	}
	for i := range got {
		if got[i].ID() != want[i].ID() || !reflect.DeepEqual(got[i].Value(), want[i].Value()) || reflect.TypeOf(got[i]) != reflect.TypeOf(want[i]) {
			return fmt.Errorf("item %d: got %#x %#v, want %#x %#v", i, got[i].ID(), got[i].Value(), want[i].ID(), want[i].Value())
		}
	}
	// forwarding: the decoded report re-encodes to the same items
	out := protocol.Message{Body: m.Body, Header: protocol.Header{IccID: 2, MsgSerialNo: 7}}
	fr2, err := out.Encode()
	r.Ops(1)
	if err != nil {
		return fmt.Errorf("re-encoding fails: %v", err)
	}
	_, body2, err := refUnframe(fr2)
	if err != nil {
		return fmt.Errorf("re-encoded frame malformed")
	}
	if x := diffBytes(body2, carrierBody(id, append(append([]byte{}, loc...), wire...))); x != "" {
		return fmt.Errorf("re-encoded report differs: %s", x)
	}
	for i := range got {
		if !bytes.Equal(got[i].Data(), itemData(want[i])) {
			return fmt.Errorf("item %d: Data() = %x", i, got[i].Data())
		}
	}
	return nil
}

func itemData(e extra.Entity) []byte {
	if c, ok := e.(*customExtra); ok {
		return c.data
	}
	return refExtraData(e)
}

func c09(r *hk.Run) {
	for k := 0; k < 2; k++ {
		id := byte(customExtraID + k)
		extra.Register(id, func() extra.Entity { return &customExtra{id: id} })
	}
	// constructors: ID, Value and Data
	f := r.Family("constructed")
	for i, e := range extraDomain() {
		e := e
		i := i
		f.Case(func() string { return fmt.Sprintf("extra %#x %#v", e.ID(), e.Value()) }, func() error {
			r.State([]byte{e.ID()}, refExtraData(e))
			if d := refExtraData(e); !bytes.Equal(e.Data(), d) {
				return fmt.Errorf("Data() = %x, want %x", e.Data(), d)
			}
			for _, id := range locCarriers {
				if id != 0x0200 && i%7 != 0 && !r.Thorough() {
					continue
				}
				if err := itemsCase(r, id, []rawItem{{e.ID(), refExtraData(e)}}); err != nil {
					return fmt.Errorf("%04x: %v", id, err)
				}
			}
			return nil
		})
	}
	f = r.Family("words")
	for x := 0; x < 65536; x++ {
		for _, id := range []byte{0x02, 0x03, 0x04, 0x2a} {
			x, id := uint16(x), id
			f.Case(func() string { return fmt.Sprintf("extra %#x = %d", id, x) }, func() error {
				var e extra.Entity
				switch id {
				case 2:
					e = extra.NewExtra_0x02(x)
				case 3:
					e = extra.NewExtra_0x03(x)
				case 4:
					e = extra.NewExtra_0x04(x)
				default:
					e = extra.NewExtra_0x2A(x)
				}
				if e.ID() != id || e.Value() != interface{}(x) {
					return fmt.Errorf("constructed item has ID %#x value %v", e.ID(), e.Value())
				}
				return itemsCase(r, 0x0200, []rawItem{{id, be16(x)}})
			})
		}
	}
	// every length of every ID; the fillings include ones that read as items of their own
	f = r.Family("lengths")
	fillings := []struct {
		name string
		pat  []byte
	}{{"00", []byte{0}}, {"01", []byte{1}}, {"ff", []byte{0xff}}, {"30 01 05", []byte{0x30, 1, 5}}, {"01 05 30", []byte{1, 5, 0x30}},
		{"05 30 01", []byte{5, 0x30, 1}}, {"31", []byte{0x31}}, {"02 02 00 09", []byte{2, 2, 0, 9}}, {"7f 00", []byte{0x7f, 0}}}
	for id := 0; id < 256; id++ {
		for l := 0; l <= 255; l++ {
			for _, fl := range fillings {
				id, l, fl := byte(id), l, fl
				d := bytes.Repeat(fl.pat, l/len(fl.pat)+1)[:l]
				for _, after := range []bool{true, false} {
					after := after
					if !after && l > 12 && l < 250 && fl.pat[0] != 0x30 {
						continue
					}
					f.Case(func() string {
						return fmt.Sprintf("item %#x with %d bytes %s, more items after it: %v", id, l, fl.name, after)
					}, func() error {
						its := []rawItem{{0x31, []byte{9}}, {id, d}}
						if after {
							its = append(its, rawItem{0x30, []byte{7}}, rawItem{1, []byte{0, 1, 2, 3}})
						}
						return itemsCase(r, 0x0200, its)
					})
				}
			}
		}
	}
	// sequences
	alpha := []rawItem{{0x7f, []byte{1, 2, 3}}, {0xff, nil}, {customExtraID, []byte{9}}, {customExtraID + 1, nil}}
	for _, id := range extraIDs {
		d := make([]byte, extraSizes[id])
		for i := range d {
			d[i] = id + byte(i)
		}
		alpha = append(alpha, rawItem{id, d})
	}
	alpha = append(alpha, rawItem{0x11, []byte{0}}, rawItem{0x01, []byte{1, 2, 3}}, rawItem{0x30, []byte{1, 2}}, rawItem{0x12, nil})
	f = r.Family("sequences")
	max := r.Pick(3, 4)
	var rec func(items []rawItem)
	rec = func(items []rawItem) {
		if f.Stopped() {
			return
		}
		its := append([]rawItem{}, items...)
		for k, id := range locCarriers {
			if k > 0 && len(its) > 2 {
				break
			}
			f.Case(func() string { return fmt.Sprintf("%04x items %x", id, its) }, func() error { return itemsCase(r, id, its) })
		}
		if len(items) == max {
			return
		}
		for _, a := range alpha {
			rec(append(items, a))
		}
	}
	rec(nil)
	f = r.Family("many")
	for n := 1; n <= 160; n++ {
		for v := 0; v < 4; v++ {
			n, v := n, v
			f.Case(func() string { return fmt.Sprintf("%d items, variant %d", n, v) }, func() error {
				var its []rawItem
				for i := 0; i < n; i++ {
					its = append(its, alpha[(i*(v+1)+v)%(len(alpha)-3)])
				}
				return itemsCase(r, 0x0200, its)
			})
		}
	}
	// a length that runs past the body
	f = r.Family("overrun")
	for id := 0; id < 256; id++ {
		for declared := 1; declared <= 255; declared++ {
			for _, have := range []int{0, 1, declared - 1} {
				id, declared, have := id, declared, have
				if have >= declared {
					continue
				}
				f.Case(func() string { return fmt.Sprintf("item %#x declares %d bytes, %d present", id, declared, have) }, func() error {
					for _, c := range locCarriers[:3] {
						body := carrierBody(c, append(append(locBytes(), byte(id), byte(declared)), bytes.Repeat([]byte{1}, have)...))
						var m protocol.Message
						if err := m.Decode(refEncodeFrame(refHeader{MsgID: c, Icc: 1}, body)); err != nil {
							return err
						}
						r.Ops(1)
						r.State(body)
						if !noBody(m.Body) {
							return fmt.Errorf("%04x accepted an item that runs past the body", c)
						}
					}
					return nil
				})
			}
		}
	}
	// message types registered by the application
	f = r.Family("registered-messages")
	ids := []uint16{0x0f01, 0x0000, 0x7e7d, 0xffff, 0x8fff}
	for _, id := range ids {
		id := id
		protocol.Register(id, func() protocol.Entity { return &customEntity{id: id} })
	}
	for n := 0; n <= 1023; n++ {
		for _, id := range ids {
			id, n := id, n
			f.Case(func() string { return fmt.Sprintf("custom %04x with %d bytes", id, n) }, func() error {
				b := pattern(n%5, n)
				m := protocol.Message{Body: &customEntity{id: id, data: b}, Header: protocol.Header{IccID: 3, MsgSerialNo: 4}}
				fr, err := m.Encode()
				if err != nil {
					return err
				}
				r.Ops(2)
				r.State(fr)
				if x := diffBytes(fr, refEncodeFrame(refHeader{MsgID: id, Icc: 3, Serial: 4}, b)); x != "" {
					return fmt.Errorf("%s", x)
				}
				var d protocol.Message
				if err := d.Decode(fr); err != nil {
					return err
				}
				c, ok := d.Body.(*customEntity)
				if !ok || c.id != id || !bytes.Equal(c.data, b) {
					return fmt.Errorf("decoded as %#v", d.Body)
				}
				return nil
			})
		}
	}
	params(r)
}

// ---------------------------------------------------------------- parameters

func transmit(p *protocol.Param, id uint16) (*protocol.Param, error) {
	var e protocol.Entity
	first, last := new(protocol.Param).SetByte(1, 1), new(protocol.Param).SetString(2, "尾")
	ps := []*protocol.Param{first, p, last}
	if id == 0x0104 {
		e = &protocol.T808_0x0104{ReplyMsgSerialNo: 1, Params: ps}
	} else {
		e = &protocol.T808_0x8103{Params: ps}
	}
	m := protocol.Message{Body: e, Header: protocol.Header{IccID: 1, MsgSerialNo: 1}}
	fr, err := m.Encode()
	if err != nil {
		return nil, err
	}
	var d protocol.Message
	if err := d.Decode(fr); err != nil {
		return nil, err
	}
	for i := range fr {
		fr[i] = 0x99
	}
	var got []*protocol.Param
	switch x := d.Body.(type) {
	case *protocol.T808_0x0104:
		got = x.Params
	case *protocol.T808_0x8103:
		got = x.Params
	}
	if len(got) != 3 {
		return nil, fmt.Errorf("%d parameters arrived, want 3", len(got))
	}
	if b, err := got[0].GetByte(); got[0].ID() != 1 || b != 1 || err != nil {
		return nil, fmt.Errorf("first parameter disturbed")
	}
	if s, err := got[2].GetString(); got[2].ID() != 2 || s != "尾" || err != nil {
		return nil, fmt.Errorf("last parameter disturbed")
	}
	return got[1], nil
}

func params(r *hk.Run) {
	check := func(f *hk.Fam, name string, set func(p *protocol.Param, id uint32) *protocol.Param, get func(p *protocol.Param) error) {
		for _, id := range []uint32{0, 1, 0x7e7d7e7d, 0xffffffff} {
			id := id
			f.Case(func() string { return fmt.Sprintf("%s id %#x", name, id) }, func() error {
				p := new(protocol.Param)
				p.SetBytes(77, []byte{1, 2, 3, 4, 5, 6}) // a parameter object that was used before
				if set(p, id) != p {
					return fmt.Errorf("setter does not return its parameter")
				}
				r.State([]byte(name), be32(id))
				for stage := 0; stage < 3; stage++ {
					q := p
					if stage > 0 {
						var err error
						if q, err = transmit(p, []uint16{0x0104, 0x8103}[stage-1]); err != nil {
							return err
						}
						r.Ops(2)
					}
					if q.ID() != id {
						return fmt.Errorf("ID() = %#x", q.ID())
					}
					if err := get(q); err != nil {
						return fmt.Errorf("%s: %v", []string{"before transmission", "after 0104", "after 8103"}[stage], err)
					}
					if e := hk.NoPanic("accessor", func() { q.GetByte(); q.GetUint16(); q.GetUint32(); q.GetBytes(); q.GetString() }); e != nil {
						return e
					}
				}
				return nil
			})
		}
	}
	f := r.Family("param/byte")
	for b := 0; b < 256; b++ {
		b := byte(b)
		check(f, fmt.Sprint("byte ", b), func(p *protocol.Param, id uint32) *protocol.Param { return p.SetByte(id, b) }, func(p *protocol.Param) error {
			if x, err := p.GetByte(); err != nil || x != b {
				return fmt.Errorf("GetByte = %d, %v; want %d", x, err, b)
			}
			return nil
		})
	}
	f = r.Family("param/uint16")
	for n := 0; n < 65536; n++ {
		n := uint16(n)
		if !r.Thorough() && n%3 != 0 && n&(n-1) != 0 && n < 65000 {
			continue
		}
		check(f, fmt.Sprint("uint16 ", n), func(p *protocol.Param, id uint32) *protocol.Param { return p.SetUint16(id, n) }, func(p *protocol.Param) error {
			if x, err := p.GetUint16(); err != nil || x != n {
				return fmt.Errorf("GetUint16 = %d, %v; want %d", x, err, n)
			}
			return nil
		})
	}
	f = r.Family("param/uint32")
	for _, v := range u32dom {
		n := uint32(v)
		check(f, fmt.Sprint("uint32 ", n), func(p *protocol.Param, id uint32) *protocol.Param { return p.SetUint32(id, n) }, func(p *protocol.Param) error {
			if x, err := p.GetUint32(); err != nil || x != n {
				return fmt.Errorf("GetUint32 = %d, %v; want %d", x, err, n)
			}
			return nil
		})
	}
	f = r.Family("param/bytes")
	for n := 0; n <= 255; n++ {
		for k := 0; k < 5; k++ {
			want := pattern(k, n)
			check(f, fmt.Sprintf("%d bytes pattern %d", n, k), func(p *protocol.Param, id uint32) *protocol.Param {
				b := append([]byte{}, want...)
				q := p.SetBytes(id, b)
				for i := range b {
					b[i] ^= 0xff // the caller reuses its buffer
				}
				return q
			}, func(p *protocol.Param) error {
				for k := 0; k < 2; k++ {
					x, err := p.GetBytes()
					if err != nil || !bytes.Equal(x, want) {
						return fmt.Errorf("GetBytes = %x, %v; want %x", x, err, want)
					}
					for i := range x {
						x[i] ^= 0xff // ... and modifies what it got
					}
				}
				return nil
			})
		}
	}
	f = r.Family("param/string")
	str := func(s string) {
		check(f, fmt.Sprintf("string %q", s), func(p *protocol.Param, id uint32) *protocol.Param { return p.SetString(id, s) }, func(p *protocol.Param) error {
			if x, err := p.GetString(); err != nil || x != s {
				return fmt.Errorf("GetString = %q, %v; want %q", x, err, s)
			}
			return nil
		})
	}
	for n := 0; n <= 255; n++ {
		str(longText(n, 0))
		str(longText(n, 1))
	}
	for c := rune(1); c <= 0xffff; c++ {
		if c >= 0xd800 && c < 0xe000 || (!r.Thorough() && c > 0x100 && c%5 != 0) {
			continue
		}
		s := "a" + string(c) + "b"
		if gbDec(gbEnc(s)) == s {
			str(s)
		}
	}
}
