package main

// C07: what the wire cannot carry is refused; everything up to the limits is accepted.

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"verifmc/hk"
)

func init() { props["C07"] = c07 }

// customExtra is an extra type an application registers: arbitrary data.
type customExtra struct {
	id   byte
	data []byte
}

func (c *customExtra) ID() byte           { return c.id }
func (c *customExtra) Data() []byte       { return c.data }
func (c *customExtra) Value() interface{} { return string(c.data) }
func (c *customExtra) Decode(b []byte) (int, error) {
	c.data = append([]byte{}, b...)
	return len(b), nil
}

const customExtraID = 0xe1

// site is a node of a layout together with a way to reach its container.
type site struct {
	s    *spec
	name string
	n    node
	// prepare gives an entity in which the container exists, and the container
	prepare func() (protocol.Entity, reflect.Value)
}

func sitesOf(s *spec) []site {
	var out []site
	var walk func(prefix string, ns []node, get func() (protocol.Entity, reflect.Value))
	walk = func(prefix string, ns []node, get func() (protocol.Entity, reflect.Value)) {
		for _, n := range ns {
			n := n
			out = append(out, site{s, prefix + fmt.Sprintf("%T", n), n, get})
			switch x := n.(type) {
			case structNode:
				walk(prefix+x.f+".", x.ns, func() (protocol.Entity, reflect.Value) {
					e, v := get()
					return e, v.FieldByName(x.f)
				})
			case listNode:
				if len(x.ns) > 0 {
					walk(prefix+x.f+"[].", x.ns, func() (protocol.Entity, reflect.Value) {
						e, v := get()
						x.fill(v, 2, 1)
						it := v.FieldByName(x.f).Index(0)
						if it.Kind() == reflect.Ptr {
							it = it.Elem()
						}
						return e, it
					})
				}
			}
		}
	}
	walk(fmt.Sprintf("%04x/", s.id), s.ns, func() (protocol.Entity, reflect.Value) {
		e := s.baseValue(0)
		return e, reflect.ValueOf(e).Elem()
	})
	return out
}

// limitCase: representable must round-trip, the rest must be an error.
func limitCase(r *hk.Run, s *spec, mk func() protocol.Entity, fits bool, icc uint64) error {
	return limitCaseNorm(r, s, mk, fits, icc, nil)
}

func limitCaseNorm(r *hk.Run, s *spec, mk func() protocol.Entity, fits bool, icc uint64, adjust func(want protocol.Entity)) error {
	m := protocol.Message{Body: mk(), Header: protocol.Header{IccID: icc, MsgSerialNo: 5}}
	var fr []byte
	var err error
	if p := hk.NoPanic("Encode", func() { fr, err = m.Encode() }); p != nil {
		return p
	}
	r.Ops(1)
	if err != nil {
		if fits {
			return fmt.Errorf("a representable message is refused: %v", err)
		}
		return nil
	}
	if !fits {
		_, body, _ := refUnframe(fr)
		return fmt.Errorf("an unrepresentable message was encoded as %d body bytes, frame %s", len(body), hexs(fr))
	}
	var d protocol.Message
	if err := d.Decode(fr); err != nil {
		return fmt.Errorf("Decode: %v", err)
	}
	r.Ops(1)
	if d.Header.IccID != icc {
		return fmt.Errorf("terminal number %d became %d", icc, d.Header.IccID)
	}
	want := mk()
	s.norm(want)
	if adjust != nil {
		adjust(want)
	}
	if x := diffEntity(d.Body, want); x != "" {
		return fmt.Errorf("%s", x)
	}
	return nil
}

func asciiN(n, k int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + (i+k)%26)
	}
	return string(b)
}

func longText(n, k int) string { // n encoded bytes
	if k == 1 && n%2 == 0 {
		return string(bytes.Repeat([]byte("车"), n/2))
	}
	if k == 1 {
		return string(bytes.Repeat([]byte("车"), n/2)) + "x"
	}
	return asciiN(n, k)
}

func c07(r *hk.Run) {
	extra.Register(customExtraID, func() extra.Entity { return &customExtra{id: customExtraID} })
	const icc = 13800138000

	f := r.Family("body-length")
	s9 := specByID(0x0900)
	size := func(n int) {
		if f.Stopped() {
			return
		}
		f.Case(func() string { return fmt.Sprintf("0900 with %d body bytes", n) }, func() error {
			r.State([]byte(fmt.Sprint("body", n)))
			return limitCase(r, s9, func() protocol.Entity {
				return &protocol.T808_0x0900{Type: 9, Data: bytes.Repeat([]byte{byte(n)}, n-1)}
			}, n <= 1023, icc)
		})
	}
	for n := 1; n <= r.Pick(4200, 20000); n++ {
		size(n)
	}
	for _, m := range []int{1 << 13, 1 << 14, 1 << 15, 1 << 16, 2 << 16, 3 << 16, 4 << 16, 1 << 20} {
		for d := -20; d <= 1100; d++ {
			size(m + d)
		}
	}
	for n := 4201; n < r.Pick(66000, 270000); n += 97 {
		size(n)
	}
	f = r.Family("body-length/types")
	for _, s := range specs {
		for _, st := range sitesOf(s) {
			s, st := s, st
			var set func(v reflect.Value, n int)
			switch x := st.n.(type) {
			case restNode:
				set = func(v reflect.Value, n int) {
					v.FieldByName(x.f).Set(reflect.ValueOf(bytes.Repeat([]byte{0x31}, n)).Convert(v.FieldByName(x.f).Type()))
				}
			case strNode:
				if x.kind == restGB || x.kind == len16GB {
					set = func(v reflect.Value, n int) { v.FieldByName(x.f).SetString(asciiN(n, 0)) }
				}
			}
			if set == nil {
				continue
			}
			one := func(n int) {
				f.Case(func() string { return fmt.Sprintf("%s length %d", st.name, n) }, func() error {
					mk := func() protocol.Entity { e, v := st.prepare(); set(v, n); return e }
					r.State([]byte(st.name), []byte(fmt.Sprint(n)))
					return limitCase(r, s, mk, len(s.encode(mk())) <= 1023 && n < 65536, icc)
				})
			}
			for n := 880; n < 1100; n++ {
				one(n)
			}
			for _, n := range []int{2000, 65500, 65535, 65536, 65537, 65600, 66000, 131072, 131073} {
				one(n)
			}
		}
	}
	f = r.Family("list-length")
	for _, s := range specs {
		for _, st := range sitesOf(s) {
			s, st := s, st
			var ln listNode
			switch x := st.n.(type) {
			case listNode:
				ln = x
			case vertexesNode:
				ln = x.listNode
			case *canNode:
				ln = canList
			default:
				continue
			}
			maxc := 255
			if ln.kind == cnt16 {
				maxc = 65535
			}
			if ln.kind == toEnd {
				maxc = math.MaxInt32
			}
			one := func(n int) {
				if f.Stopped() {
					return
				}
				f.Case(func() string { return fmt.Sprintf("%s%s with %d items", st.name, ln.f, n) }, func() error {
					mk := func() protocol.Entity {
						e, v := st.prepare()
						ln.fill(v, n, 0)
						s.fix(e)
						return e
					}
					r.State([]byte(st.name), []byte(fmt.Sprint(n)))
					return limitCase(r, s, mk, n <= maxc && len(s.encode(mk())) <= 1023, icc)
				})
			}
			for n := 0; n <= 600; n++ {
				one(n)
			}
			for _, n := range []int{767, 768, 1023, 1024, 1025, 4096} {
				one(n)
			}
			if ln.kind == cnt16 && (ln.w > 0 || s.id == 0x0705 || s.id == 0x8604) {
				for _, n := range []int{65535, 65536, 65537, 65540, 131072} {
					one(n)
				}
			}
			if ln.kind == cnt8 && ln.w > 0 {
				for _, n := range []int{65536, 65537, 65536 + 256} {
					one(n)
				}
			}
		}
	}
	f = r.Family("string-length")
	for _, s := range specs {
		for _, st := range sitesOf(s) {
			s, st := s, st
			x, ok := st.n.(strNode)
			if !ok || (x.kind != len8GB && x.kind != len8Raw) {
				continue
			}
			for k := 0; k < 2; k++ {
				if k == 1 && x.raw() {
					continue
				}
				one := func(n, k int) {
					f.Case(func() string { return fmt.Sprintf("%s%s with %d encoded bytes (text %d)", st.name, x.f, n, k) }, func() error {
						mk := func() protocol.Entity { e, v := st.prepare(); v.FieldByName(x.f).SetString(longText(n, k)); return e }
						r.State([]byte(st.name+x.f), []byte(fmt.Sprint(n, k)))
						return limitCase(r, s, mk, n <= 255 && len(s.encode(mk())) <= 1023, icc)
					})
				}
				for n := 0; n <= 520; n++ {
					one(n, k)
				}
				for _, n := range []int{767, 768, 900, 1000, 1023, 1024, 65535, 65536, 65537, 65536 + 256} {
					one(n, k)
				}
			}
		}
	}
	f = r.Family("parameter-length")
	for _, id := range []uint16{0x0104, 0x8103} {
		s := specByID(id)
		one := func(n, at int) {
			f.Case(func() string { return fmt.Sprintf("%04x parameter %d of 3 has %d bytes", id, at, n) }, func() error {
				mk := func() protocol.Entity {
					ps := mkParams(3, 0, 4)
					ps[at] = new(protocol.Param).SetBytes(0x55, bytes.Repeat([]byte{0x44}, n))
					e := s.baseValue(0)
					reflect.ValueOf(e).Elem().FieldByName("Params").Set(reflect.ValueOf(ps))
					return e
				}
				r.State([]byte("param"), []byte(fmt.Sprint(id, n, at)))
				return limitCase(r, s, mk, n <= 255, icc)
			})
		}
		for at := 0; at < 3; at++ {
			for n := 0; n < 600; n++ {
				one(n, at)
			}
			for _, n := range []int{768, 1000, 65536, 65540} {
				one(n, at)
			}
		}
	}
	f = r.Family("extra-length")
	for _, id := range []uint16{0x0200, 0x0201, 0x0500, 0x0704} {
		id := id
		s := specByID(id)
		one := func(n, at int) {
			f.Case(func() string { return fmt.Sprintf("%04x extra %d of 3 has %d bytes", id, at, n) }, func() error {
				exs := func() []extra.Entity {
					l := extraList(3, 1)
					l[at] = &customExtra{id: customExtraID, data: bytes.Repeat([]byte{0x01}, n)}
					return l
				}
				mk := func() protocol.Entity {
					e := s.baseValue(0)
					switch x := e.(type) {
					case *protocol.T808_0x0200:
						x.Extras = exs()
					case *protocol.T808_0x0201:
						x.Result.Extras = exs()
					case *protocol.T808_0x0500:
						x.Result.Extras = exs()
					case *protocol.T808_0x0704:
						l := specByID(0x0200).baseValue(0).(*protocol.T808_0x0200)
						l.Extras = exs()
						x.Items = []protocol.T808_0x0200{*l, *specByID(0x0200).baseValue(0).(*protocol.T808_0x0200)}
					}
					return e
				}
				r.State([]byte("extra"), []byte(fmt.Sprint(id, n, at)))
				return limitCase(r, s, mk, n <= 255, icc)
			})
		}
		for at := 0; at < 3; at++ {
			for n := 0; n < 600; n++ {
				one(n, at)
			}
			for _, n := range []int{768, 800, 65536, 65540} {
				one(n, at)
			}
		}
	}
	f = r.Family("terminal-number")
	num := func(n uint64) {
		f.Case(func() string { return fmt.Sprint("terminal number ", n) }, func() error {
			r.State([]byte(fmt.Sprint("icc", n)))
			return limitCase(r, specByID(0x0002), func() protocol.Entity { return &protocol.T808_0x0002{} }, n <= 999999999999, n)
		})
	}
	for i := uint64(0); i <= 20000; i++ {
		num(999999999999 - i)
		num(1000000000000 + i)
	}
	for p := uint64(1); ; p *= 10 {
		for d := uint64(1); d <= 9; d++ {
			if d*p/d != p || d > 1 && d*p < p {
				continue
			}
			num(d * p)
			num(d*p - 1)
			num(d*p + 1)
		}
		if p == 10000000000000000000 {
			break
		}
	}
	for k := 0; k < 64; k++ {
		num(1 << k)
		num(1<<k - 1)
		num(math.MaxUint64 >> k)
		num(math.MaxUint64 - 1<<k)
	}
	f = r.Family("rsa-key-size")
	for bits := 0; bits <= r.Pick(2200, 9000); bits++ {
		for _, e := range []int{3, 65537, 1<<31 - 1} {
			bits, e := bits, e
			for _, id := range []uint16{0x0a00, 0x8a00} {
				s := specByID(id)
				f.Case(func() string { return fmt.Sprintf("%04x key of %d bits E=%d", id, bits, e) }, func() error {
					mk := func() protocol.Entity {
						n := new(big.Int)
						if bits > 0 {
							n.SetBit(n, bits-1, 1)
							n.SetBit(n, 0, 1)
							n.SetBit(n, bits/2, 1)
						}
						x := s.fresh()
						reflect.ValueOf(x).Elem().FieldByName("PublicKey").Set(reflect.ValueOf(&rsa.PublicKey{N: n, E: e}))
						return x
					}
					r.State([]byte(fmt.Sprint("rsa", bits, e)))
					if bits > 1016 && bits < 1024 { // 128 bytes but less than 1024 bits: either way, but not corrupted
						m := protocol.Message{Body: mk(), Header: protocol.Header{IccID: 1}}
						if _, err := m.Encode(); err != nil {
							return nil
						}
						return limitCase(r, s, mk, true, icc)
					}
					return limitCase(r, s, mk, bits == 1024, icc)
				})
			}
		}
	}
	for _, id := range []uint16{0x0a00, 0x8a00} {
		s := specByID(id)
		for k := 0; k < 2; k++ {
			k := k
			f.Case(func() string { return fmt.Sprintf("%04x nil key/modulus", id) }, func() error {
				return limitCase(r, s, func() protocol.Entity {
					x := s.fresh()
					if k == 1 {
						reflect.ValueOf(x).Elem().FieldByName("PublicKey").Set(reflect.ValueOf(&rsa.PublicKey{E: 3}))
					}
					return x
				}, false, icc)
			})
		}
	}
	// through the codec: a refused message writes nothing, and the next one is written whole
	f = r.Family("codec")
	refused := map[string]func() interface{}{
		"a text of 256 bytes in an 8-bit field": func() interface{} {
			return protocol.Message{Body: &protocol.T808_0x8302{Question: asciiN(256, 0)}}
		},
		"a body of 1024 bytes":  func() interface{} { return protocol.Message{Body: &protocol.T808_0x8300{Text: asciiN(1023, 0)}} },
		"a body of 70000 bytes": func() interface{} { return protocol.Message{Body: &protocol.T808_0x8300{Text: asciiN(69999, 0)}} },
		"256 identifiers":       func() interface{} { return protocol.Message{Body: &protocol.T808_0x8601{IDs: make([]uint32, 256)}} },
		"a terminal number of 13 digits": func() interface{} {
			return protocol.Message{Header: protocol.Header{IccID: 1e12}, Body: &protocol.T808_0x8104{}}
		},
		"no message":     func() interface{} { return nil },
		"a string":       func() interface{} { return "message" },
		"a number":       func() interface{} { return 42 },
		"another struct": func() interface{} { return struct{ Header protocol.Header }{} },
		"raw bytes":      func() interface{} { return refEncodeFrame(refHeader{MsgID: 0x8104, Icc: icc}, nil) },
		"a bare body":    func() interface{} { return protocol.T808_0x8104{} },
	}
	names := []string{}
	for n := range refused {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, a := range names {
		for _, b := range names {
			a, b := a, b
			f.Case(func() string { return a + ", then " + b + ", then a good message" }, func() error {
				var out bytes.Buffer
				codec, err := new(go808.Protocol).NewCodec(&out)
				if err != nil {
					return err
				}
				r.State([]byte(a), []byte(b))
				for _, n := range []string{a, b} {
					var err error
					if x := hk.NoPanic("Send of "+n, func() { err = codec.Send(refused[n]()) }); x != nil {
						return x
					}
					r.Ops(1)
					if err == nil {
						return fmt.Errorf("sending %s succeeds", n)
					}
					if out.Len() != 0 {
						return fmt.Errorf("sending %s fails (%v) and writes %x", n, err, out.Bytes())
					}
				}
				good := protocol.Message{Header: protocol.Header{IccID: icc, MsgSerialNo: 9}, Body: &protocol.T808_0x8300{Flag: 1, Text: "ok"}}
				if err := codec.Send(good); err != nil {
					return fmt.Errorf("after that a good message fails: %v", err)
				}
				if x := diffBytes(out.Bytes(), refEncodeFrame(refHeader{MsgID: 0x8300, Icc: icc, Serial: 9}, []byte{1, 'o', 'k'})); x != "" {
					return fmt.Errorf("after that a good message is written as: %s", x)
				}
				return nil
			})
		}
	}
	f = r.Family("fixed-width")
	for _, s := range specs {
		for _, st := range sitesOf(s) {
			s, st := s, st
			x, ok := st.n.(strNode)
			if !ok || (x.kind != fixRaw && x.kind != fixGB) {
				continue
			}
			for n := 0; n <= 3*x.n+3; n++ {
				for k := 0; k < 2; k++ {
					n, k := n, k
					if k == 1 && x.raw() {
						continue
					}
					f.Case(func() string { return fmt.Sprintf("%s%s (width %d) set to %d bytes", st.name, x.f, x.n, n) }, func() error {
						mk := func() protocol.Entity { e, v := st.prepare(); v.FieldByName(x.f).SetString(longText(n, k)); return e }
						r.State([]byte(st.name+x.f), []byte(fmt.Sprint(n, k)))
						return limitCaseNorm(r, s, mk, true, icc, func(want protocol.Entity) {
							_, body := want, s.encode(mk())
							if d, v := s.decode(body); v == accept {
								reflect.ValueOf(want).Elem().Set(reflect.ValueOf(d).Elem())
							}
						})
					})
				}
			}
		}
	}
}
