package main

// C23: flag words. C24: the reader and writer that message types are built from.

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"gitee.com/coco/go808/protocol"
	"verifmc/hk"
)

func init() { props["C23"], props["C24"] = c23, c24 }

// flagWord is a flag type: its width, and its accessors as functions on the raw word.
type flagWord struct {
	name string
	bits int
	get  map[string]struct {
		bit int
		f   func(uint32) bool
	}
	set map[string]struct {
		bit int
		f   func(uint32, bool) uint32
	}
}

type getter = struct {
	bit int
	f   func(uint32) bool
}
type setter = struct {
	bit int
	f   func(uint32, bool) uint32
}

var flagWords = []flagWord{
	{"T808_0x0200_Status", 32, map[string]getter{
		"GetAccState": {0, func(v uint32) bool { return protocol.T808_0x0200_Status(v).GetAccState() }},
		"Positioning": {1, func(v uint32) bool { return protocol.T808_0x0200_Status(v).Positioning() }},
		"GetLatitudeType": {2, func(v uint32) bool {
			return protocol.T808_0x0200_Status(v).GetLatitudeType() == protocol.SouthLatitudeType
		}},
		"GetLongitudeType": {3, func(v uint32) bool {
			return protocol.T808_0x0200_Status(v).GetLongitudeType() == protocol.WestLongitudeType
		}},
	}, map[string]setter{
		"SetSouthLatitude": {2, func(v uint32, b bool) uint32 {
			s := protocol.T808_0x0200_Status(v)
			s.SetSouthLatitude(b)
			return uint32(s)
		}},
		"SetWestLongitude": {3, func(v uint32, b bool) uint32 {
			s := protocol.T808_0x0200_Status(v)
			s.SetWestLongitude(b)
			return uint32(s)
		}},
	}},
	{"AreaAttribute", 16, map[string]getter{
		"GetLatitudeType":  {6, func(v uint32) bool { return protocol.AreaAttribute(v).GetLatitudeType() == protocol.SouthLatitudeType }},
		"GetLongitudeType": {7, func(v uint32) bool { return protocol.AreaAttribute(v).GetLongitudeType() == protocol.WestLongitudeType }},
	}, map[string]setter{
		"SetEnterAlarm":    {3, func(v uint32, b bool) uint32 { s := protocol.AreaAttribute(v); s.SetEnterAlarm(b); return uint32(s) }},
		"SetExitAlarm":     {5, func(v uint32, b bool) uint32 { s := protocol.AreaAttribute(v); s.SetExitAlarm(b); return uint32(s) }},
		"SetSouthLatitude": {6, func(v uint32, b bool) uint32 { s := protocol.AreaAttribute(v); s.SetSouthLatitude(b); return uint32(s) }},
		"SetWestLongitude": {7, func(v uint32, b bool) uint32 { s := protocol.AreaAttribute(v); s.SetWestLongitude(b); return uint32(s) }},
	}},
	{"T808_0x8606_SectionAttribute", 8, map[string]getter{
		"HasTimeLimit":  {0, func(v uint32) bool { s := protocol.T808_0x8606_SectionAttribute(v); return s.HasTimeLimit() }},
		"HasSpeedLimit": {1, func(v uint32) bool { s := protocol.T808_0x8606_SectionAttribute(v); return s.HasSpeedLimit() }},
		"GetLatitudeType": {2, func(v uint32) bool {
			return protocol.T808_0x8606_SectionAttribute(v).GetLatitudeType() == protocol.SouthLatitudeType
		}},
		"GetLongitudeType": {3, func(v uint32) bool {
			return protocol.T808_0x8606_SectionAttribute(v).GetLongitudeType() == protocol.WestLongitudeType
		}},
	}, map[string]setter{
		"SetTimeLimit": {0, func(v uint32, b bool) uint32 {
			s := protocol.T808_0x8606_SectionAttribute(v)
			s.SetTimeLimit(b)
			return uint32(s)
		}},
		"SetSpeedLimit": {1, func(v uint32, b bool) uint32 {
			s := protocol.T808_0x8606_SectionAttribute(v)
			s.SetSpeedLimit(b)
			return uint32(s)
		}},
		"SetSouthLatitude": {2, func(v uint32, b bool) uint32 {
			s := protocol.T808_0x8606_SectionAttribute(v)
			s.SetSouthLatitude(b)
			return uint32(s)
		}},
		"SetWestLongitude": {3, func(v uint32, b bool) uint32 {
			s := protocol.T808_0x8606_SectionAttribute(v)
			s.SetWestLongitude(b)
			return uint32(s)
		}},
	}},
	{"T808_0x8500_Flag", 8, nil, map[string]setter{
		"SetLock": {0, func(v uint32, b bool) uint32 { s := protocol.T808_0x8500_Flag(v); s.SetLock(b); return uint32(s) }},
	}},
	{"Property", 16, map[string]getter{
		"IsEnableEncrypt": {10, func(v uint32) bool { return protocol.Property(v).IsEnableEncrypt() }},
		"IsEnablePacket":  {13, func(v uint32) bool { return protocol.Property(v).IsEnablePacket() }},
	}, nil},
}

func put(v uint32, bit int, b bool) uint32 {
	if b {
		return v | 1<<uint(bit)
	}
	return v &^ (1 << uint(bit))
}

// words enumerates the words of a width: all of them up to 16 bits; of 32 bits all low and
// all high halves with several others.
func words(bits int, yield func(v uint32)) {
	if bits <= 16 {
		for v := uint32(0); v < 1<<uint(bits); v++ {
			yield(v)
		}
		return
	}
	for v := uint32(0); v < 1<<16; v++ {
		for _, o := range []uint32{0, 0xffff, 0xa5a5} {
			yield(v | o<<16)
			yield(v<<16 | o)
		}
	}
}

func c23(r *hk.Run) {
	for _, w := range flagWords {
		w := w
		f := r.Family("words/" + w.name)
		words(w.bits, func(v uint32) {
			f.Case(func() string { return fmt.Sprintf("%s %#x", w.name, v) }, func() error {
				r.State([]byte(fmt.Sprint(w.name, v)))
				for n, g := range w.get {
					r.Ops(1)
					if got := g.f(v); got != (v>>uint(g.bit)&1 == 1) {
						return fmt.Errorf("%s of %#x = %v, bit %d", n, v, got, g.bit)
					}
				}
				for n, s := range w.set {
					for _, b := range []bool{false, true} {
						r.Ops(1)
						if got := s.f(v, b); got != put(v, s.bit, b) {
							return fmt.Errorf("%s(%v) turns %#x into %#x, want %#x", n, b, v, got, put(v, s.bit, b))
						}
					}
				}
				return nil
			})
		})
	}
	f := r.Family("body-size")
	for v := 0; v < 65536; v++ {
		v := uint16(v)
		f.Case(func() string { return fmt.Sprintf("property %#x", v) }, func() error {
			p := protocol.Property(v)
			r.Ops(1)
			r.State([]byte(fmt.Sprint("size", v)))
			if p.GetBodySize() != v&0x3ff || uint16(p) != v {
				return fmt.Errorf("GetBodySize of %#x = %d", v, p.GetBodySize())
			}
			for _, start := range []uint16{0, 0xffff, 0x2400, 0x1800, 0xa155, 0x03ff, 0xfc00} {
				q := protocol.Property(start)
				err := q.SetBodySize(v)
				r.Ops(1)
				want := start
				if v <= 0x3ff {
					want = start&^0x3ff | v
				}
				if (err == nil) != (v <= 0x3ff) || uint16(q) != want {
					return fmt.Errorf("SetBodySize(%d) turns %#x into %#x (%v), want %#x", v, start, uint16(q), err, want)
				}
			}
			return nil
		})
	}
	f = r.Family("bit-helpers")
	offs := []int{-1, -2, -7, -8, -16, -31, -32, -64, math.MinInt32, math.MinInt}
	for off := 0; off <= 80; off++ {
		offs = append(offs, off)
	}
	offs = append(offs, 256, math.MaxInt32, math.MaxInt)
	for _, off := range offs {
		for k, bits := range []int{8, 16, 32} {
			off, k, bits := off, k, bits
			if bits == 32 && !r.Thorough() && off%3 != 0 && off > 34 {
				continue
			}
			words(bits, func(v uint32) {
				if bits == 16 && off > 20 && v%7 != 0 && !r.Thorough() {
					return
				}
				if bits == 32 && v%5 != 0 && !r.Thorough() {
					return
				}
				f.Case(func() string { return fmt.Sprintf("bit %d of the %d-bit word %#x", off, bits, v) }, func() error {
					r.State([]byte(fmt.Sprint(off, bits, v)))
					r.Ops(3)
					in := off >= 0 && off < bits
					var got bool
					switch k {
					case 0:
						got = protocol.GetBitByte(byte(v), off)
					case 1:
						got = protocol.GetBitUint16(uint16(v), off)
					default:
						got = protocol.GetBitUint32(v, off)
					}
					if want := in && v>>uint(off)&1 == 1; got != want {
						return fmt.Errorf("get = %v, want %v", got, want)
					}
					for _, b := range []bool{false, true} {
						var x uint32
						switch k {
						case 0:
							y := byte(v)
							protocol.SetBitByte(&y, off, b)
							x = uint32(y)
						case 1:
							y := uint16(v)
							protocol.SetBitUint16(&y, off, b)
							x = uint32(y)
						default:
							x = v
							protocol.SetBitUint32(&x, off, b)
						}
						want := v
						if in {
							want = put(v, off, b)
						}
						if x != want {
							return fmt.Errorf("set to %v gives %#x, want %#x", b, x, want)
						}
					}
					return nil
				})
			})
		}
	}
}

// rwOp writes a value, appends it to the reference and reads it back.
type rwOp struct {
	name  string
	write func(w *protocol.Writer) error
	ref   []byte
	read  func(r *protocol.Reader) error
}

func rwOps() []rwOp {
	var out []rwOp
	for _, b := range []byte{0, 0x7e, 0xff} {
		b := b
		out = append(out, rwOp{fmt.Sprintf("byte %02x", b), func(w *protocol.Writer) error { w.WriteByte(b); return nil }, []byte{b},
			func(r *protocol.Reader) error {
				g, err := r.ReadByte()
				return same(g, b, err)
			}})
	}
	for _, v := range []uint16{0x0102, 0xff00} {
		v := v
		out = append(out, rwOp{fmt.Sprintf("uint16 %04x", v), func(w *protocol.Writer) error { w.WriteUint16(v); return nil }, be16(v),
			func(r *protocol.Reader) error {
				g, err := r.ReadUint16()
				return same(g, v, err)
			}})
	}
	for _, v := range []uint32{0x01020304, 0x80000000} {
		v := v
		out = append(out, rwOp{fmt.Sprintf("uint32 %08x", v), func(w *protocol.Writer) error { w.WriteUint32(v); return nil }, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)},
			func(r *protocol.Reader) error {
				g, err := r.ReadUint32()
				return same(g, v, err)
			}})
	}
	t := time.Date(2021, 12, 31, 23, 59, 8, 0, time.Local)
	out = append(out, rwOp{"time", func(w *protocol.Writer) error { w.WriteBcdTime(t); return nil }, []byte{0x21, 0x12, 0x31, 0x23, 0x59, 0x08},
		func(r *protocol.Reader) error {
			g, err := r.ReadBcdTime()
			return same(g.Equal(t), true, err)
		}})
	for _, x := range []struct {
		p    string
		size int
	}{{"", -1}, {"abc", -1}, {"abc", 5}, {"abc", 3}, {"abcdef", 4}, {"", 2}, {"xyz", 0}} {
		x := x
		ref := []byte(x.p)
		if x.size >= 0 {
			ref = append(append([]byte{}, ref...), make([]byte, 8)...)[:x.size]
		}
		out = append(out, rwOp{fmt.Sprintf("bytes %q size %d", x.p, x.size), func(w *protocol.Writer) error {
			if x.size < 0 {
				w.Write([]byte(x.p))
			} else {
				w.Write([]byte(x.p), x.size)
			}
			return nil
		}, ref, func(r *protocol.Reader) error {
			g, err := r.Read(len(ref))
			return same(string(g), string(ref), err)
		}})
	}
	for _, x := range []struct {
		s    string
		gb   string
		size int
	}{{"京A1", "\xbe\xa9A1", -1}, {"京A1", "\xbe\xa9A1", 6}, {"", "", 3}, {"𠂇q", "\x95\x32\x90\x31q", -1}} {
		x := x
		ref := []byte(x.gb)
		if x.size >= 0 {
			ref = append(append([]byte{}, ref...), make([]byte, 8)...)[:x.size]
		}
		out = append(out, rwOp{fmt.Sprintf("text %q size %d", x.s, x.size), func(w *protocol.Writer) error {
			if x.size < 0 {
				return w.WritString(x.s)
			}
			return w.WritString(x.s, x.size)
		}, ref, func(r *protocol.Reader) error {
			g, err := r.ReadString(len(ref))
			return same(g, x.s, err)
		}})
	}
	return out
}

func same(got, want interface{}, err error) error {
	if err != nil {
		return err
	}
	if got != want {
		return fmt.Errorf("read %v, want %v", got, want)
	}
	return nil
}

func c24(r *hk.Run) {
	ops := rwOps()
	f := r.Family("written-and-read")
	max := r.Pick(4, 5)
	var rec func(seq []int)
	rec = func(seq []int) {
		if f.Stopped() {
			return
		}
		s := append([]int{}, seq...)
		f.Case(func() string {
			out := ""
			for _, i := range s {
				out += ops[i].name + "; "
			}
			return out
		}, func() error {
			w := protocol.NewWriter()
			var ref []byte
			for _, i := range s {
				if err := ops[i].write(&w); err != nil {
					return err
				}
				ref = append(ref, ops[i].ref...)
				r.Ops(1)
			}
			r.State(ref, []byte{byte(len(s))})
			if x := diffBytes(w.Bytes(), ref); x != "" {
				return fmt.Errorf("written: %s", x)
			}
			rd := protocol.NewReader(append([]byte{}, ref...))
			left := len(ref)
			for k, i := range s {
				if rd.Len() != left {
					return fmt.Errorf("before read %d, %d bytes are left, Len says %d", k, left, rd.Len())
				}
				if err := ops[i].read(&rd); err != nil {
					return fmt.Errorf("read %d (%s): %v", k, ops[i].name, err)
				}
				r.Ops(1)
				left -= len(ops[i].ref)
			}
			if rd.Len() != 0 {
				return fmt.Errorf("%d bytes are left at the end", rd.Len())
			}
			return nil
		})
		if len(seq) == max {
			return
		}
		for i := range ops {
			rec(append(seq, i))
		}
	}
	rec(nil)
	// every content in every width, between two marks
	f = r.Family("widths")
	fixed := func(n, size int, text string) {
		var gb []byte
		for len(gb) < n {
			gb = append(gb, text[:len(text)/2]...)
		}
		gb = gb[:n]
		f.Case(func() string { return fmt.Sprintf("%d bytes (%q...) in a field of %d", n, text, size) }, func() error {
			ref := append([]byte{0x11, 0x22}, gb...)
			if n > size {
				ref = ref[:2+size]
			} else {
				ref = append(ref, make([]byte, size-n)...)
			}
			ref = append(ref, 0x33, 0x44)
			r.State([]byte(fmt.Sprint(n, size)))
			for k := 0; k < 2; k++ {
				w := protocol.NewWriter()
				w.WriteUint16(0x1122)
				in := append([]byte{}, gb...)
				if k == 0 {
					w.Write(in, size)
				} else if err := w.WritString(string(in), size); err != nil {
					return err
				}
				w.WriteUint16(0x3344)
				r.Ops(3)
				if x := diffBytes(w.Bytes(), ref); x != "" {
					return fmt.Errorf("written: %s", x)
				}
				rd := protocol.NewReader(append([]byte{}, ref...))
				if v, err := rd.ReadUint16(); err != nil || v != 0x1122 {
					return fmt.Errorf("read %#x, %v, want 0x1122", v, err)
				}
				if k == 0 {
					g, err := rd.Read(size)
					if err != nil || !bytes.Equal(g, ref[2:2+size]) {
						return fmt.Errorf("read %x, %v", g, err)
					}
				} else {
					want := string(in)
					if n > size {
						want = want[:size]
					}
					g, err := rd.ReadString(size)
					if err != nil || g != want {
						return fmt.Errorf("read the text %q, %v, want %q", g, err, want)
					}
				}
				if v, err := rd.ReadUint16(); err != nil || v != 0x3344 || rd.Len() != 0 {
					return fmt.Errorf("behind the field: %#x, %v, %d left", v, err, rd.Len())
				}
				r.Ops(3)
			}
			return nil
		})
	}
	for size := 0; size <= r.Pick(200, 400); size++ {
		for n := 0; n <= r.Pick(200, 400) && !f.Stopped(); n++ {
			fixed(n, size, "A1b2")
		}
	}
	for size := 200; size <= r.Pick(1100, 9000); size++ {
		for _, n := range []int{0, 1, 63, 64, 65, 127, 128, 129, size - 129, size - 65, size - 64, size - 1, size, size + 1, size + 64, 2 * size} {
			fixed(n, size, "A1b2")
		}
	}
	// long texts: every number of characters of every encoded width, and mixed
	f = r.Family("long-texts")
	for _, c := range []struct{ s, gb string }{{"a", "a"}, {"京", "\xbe\xa9"}, {"𠂇", "\x95\x32\x90\x31"}, {"a京", "a\xbe\xa9"}, {"京a𠂇", "\xbe\xa9a\x95\x32\x90\x31"}} {
		for n := 0; n <= r.Pick(1500, 5000); n++ {
			if n > 300 && n%7 != 0 && !r.Thorough() {
				continue
			}
			if f.Stopped() {
				return
			}
			c, n := c, n
			f.Case(func() string { return fmt.Sprintf("%d times %q", n, c.s) }, func() error {
				r.State([]byte(c.gb), []byte(fmt.Sprint(n)))
				text, ref := strings.Repeat(c.s, n), []byte(strings.Repeat(c.gb, n))
				w := protocol.NewWriter()
				if err := w.WritString(text); err != nil {
					return err
				}
				w.WriteByte(0x7e)
				if x := diffBytes(w.Bytes(), append(append([]byte{}, ref...), 0x7e)); x != "" {
					return fmt.Errorf("written: %s", x)
				}
				rd := protocol.NewReader(append([]byte{}, w.Bytes()...))
				g, err := rd.ReadString(len(ref))
				if err != nil || g != text {
					return fmt.Errorf("read a text of %d bytes, %v, want %d bytes", len(g), err, len(text))
				}
				if b, err := rd.ReadByte(); err != nil || b != 0x7e {
					return fmt.Errorf("behind the text: %#x, %v", b, err)
				}
				r.Ops(4)
				return nil
			})
		}
	}
	// long runs of one operation: the buffer grows and everything comes back
	f = r.Family("long-runs")
	for i := range ops {
		for _, n := range []int{10, 100, 1000, 10000, r.Pick(10000, 100000)} {
			i, n := i, n
			if f.Stopped() {
				return
			}
			f.Case(func() string { return fmt.Sprintf("%d times %s", n, ops[i].name) }, func() error {
				r.State([]byte(ops[i].name), []byte(fmt.Sprint(n)))
				w := protocol.NewWriter()
				for k := 0; k < n; k++ {
					if err := ops[i].write(&w); err != nil {
						return err
					}
				}
				if x := diffBytes(w.Bytes(), bytes.Repeat(ops[i].ref, n)); x != "" {
					return fmt.Errorf("written: %s", x)
				}
				rd := protocol.NewReader(append([]byte{}, w.Bytes()...))
				for k := 0; k < n; k++ {
					if err := ops[i].read(&rd); err != nil {
						return fmt.Errorf("read %d: %v", k, err)
					}
				}
				r.Ops(2 * n)
				if rd.Len() != 0 {
					return fmt.Errorf("%d bytes are left", rd.Len())
				}
				return nil
			})
		}
	}
	// every sequence of reads on data of every length: in bounds or an error that consumes nothing
	f = r.Family("reads")
	type read struct {
		name string
		n    int // -1: the rest
		f    func(r *protocol.Reader) ([]byte, error)
	}
	reads := []read{
		{"byte", 1, func(r *protocol.Reader) ([]byte, error) { b, err := r.ReadByte(); return []byte{b}, err }},
		{"uint16", 2, func(r *protocol.Reader) ([]byte, error) { v, err := r.ReadUint16(); return be16(v), err }},
		{"uint32", 4, func(r *protocol.Reader) ([]byte, error) {
			v, err := r.ReadUint32()
			return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, err
		}},
		{"rest", -1, func(r *protocol.Reader) ([]byte, error) { return r.Read() }},
		{"text rest", -1, func(r *protocol.Reader) ([]byte, error) { s, err := r.ReadString(); return []byte(s), err }},
		{"time", 6, func(r *protocol.Reader) ([]byte, error) {
			t, err := r.ReadBcdTime()
			if err != nil {
				return nil, err
			}
			w := &wr{}
			w.time6(t)
			return w.Bytes(), nil
		}},
	}
	for _, n := range []int{0, 1, 2, 3, 5, 8, 255, 65536} {
		n := n
		reads = append(reads, read{fmt.Sprintf("%d bytes", n), n, func(r *protocol.Reader) ([]byte, error) { return r.Read(n) }})
		if n <= 8 {
			reads = append(reads, read{fmt.Sprintf("text of %d", n), n, func(r *protocol.Reader) ([]byte, error) { s, err := r.ReadString(n); return []byte(s), err }})
		}
	}
	depth := r.Pick(3, 4)
	for size := 0; size <= r.Pick(14, 16); size++ {
		data := make([]byte, size)
		for i := range data {
			data[i] = byte(0x01 + i%9) // valid as text and as part of a date
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			if f.Stopped() {
				return
			}
			if len(seq) == depth {
				s := append([]int{}, seq...)
				f.Case(func() string {
					out := fmt.Sprintf("%d bytes: ", size)
					for _, i := range s {
						out += reads[i].name + "; "
					}
					return out
				}, func() error {
					r.State([]byte{byte(size)}, []byte(fmt.Sprint(s)))
					rd := protocol.NewReader(append([]byte{}, data...))
					pos := 0
					for k, i := range s {
						n := reads[i].n
						if n < 0 {
							n = size - pos
						}
						var got []byte
						var err error
						if x := hk.NoPanic(reads[i].name, func() { got, err = reads[i].f(&rd) }); x != nil {
							return x
						}
						r.Ops(1)
						if pos+n > size {
							if err == nil {
								return fmt.Errorf("read %d (%s) succeeds with %d bytes left", k, reads[i].name, size-pos)
							}
						} else {
							if err != nil && reads[i].name == "time" {
								return nil // not a date: how much was consumed is left open
							}
							if err != nil || !bytes.Equal(got, data[pos:pos+n]) {
								return fmt.Errorf("read %d (%s) = %x, %v; want %x", k, reads[i].name, got, err, data[pos:pos+n])
							}
							pos += n
						}
						if rd.Len() != size-pos {
							return fmt.Errorf("after read %d (%s) Len is %d, want %d", k, reads[i].name, rd.Len(), size-pos)
						}
					}
					return nil
				})
				return
			}
			for i := range reads {
				rec(append(seq, i))
			}
		}
		rec(nil)
	}
}
