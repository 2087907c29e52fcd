package main

// C08: RSA encryption of message bodies.

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"math/big"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/hk"
)

func init() { props["C08"] = c08 }

func mkKey(p, q string) *rsa.PrivateKey {
	P, _ := new(big.Int).SetString(p, 16)
	Q, _ := new(big.Int).SetString(q, 16)
	one := big.NewInt(1)
	n := new(big.Int).Mul(P, Q)
	phi := new(big.Int).Mul(new(big.Int).Sub(P, one), new(big.Int).Sub(Q, one))
	d := new(big.Int).ModInverse(big.NewInt(65537), phi)
	k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: 65537}, D: d, Primes: []*big.Int{P, Q}}
	k.Precompute()
	if n.BitLen() != 1024 {
		panic("key size")
	}
	return k
}

func c08(r *hk.Run) {
	key, other := mkKey(rsaP1, rsaQ1), mkKey(rsaP2, rsaQ2)
	h0 := refHeader{MsgID: 0x0900, Icc: 13800138000, Serial: 0x7e7d}

	enc := func(h refHeader, e protocol.Entity, pub *rsa.PublicKey) ([]byte, error) {
		m := msgOf(h, e)
		return m.Encode(pub)
	}
	roundTrip := func(h refHeader, mk func() protocol.Entity, body []byte) error {
		fr, err := enc(h, mk(), &key.PublicKey)
		r.Ops(2)
		if len(body) > 602 {
			if err == nil {
				return fmt.Errorf("a body of %d bytes was encrypted into %d frame bytes", len(body), len(fr))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("Encode with key fails: %v", err)
		}
		rh, cipher, rerr := refUnframe(fr)
		if rerr != nil {
			return fmt.Errorf("encrypted frame malformed: %s", hexs(fr))
		}
		if rh.Prop&(1<<10) == 0 {
			return fmt.Errorf("encrypted frame is not marked as encrypted")
		}
		if int(rh.Prop&0x3ff) != len(cipher) {
			return fmt.Errorf("declared length %d, actual %d", rh.Prop&0x3ff, len(cipher))
		}
		if want := (len(body) + 85) / 86 * 128; len(cipher) != want {
			return fmt.Errorf("ciphertext of %d bytes for %d body bytes", len(cipher), len(body))
		}
		for i := 0; i+8 <= len(body); i += 43 {
			if bytes.Contains(cipher, body[i:i+8]) {
				return fmt.Errorf("ciphertext contains body bytes in clear")
			}
		}
		var d protocol.Message
		if err := d.Decode(append([]byte{}, fr...), key); err != nil {
			return fmt.Errorf("Decode with the private key fails: %v", err)
		}
		w := h
		w.Prop = rh.Prop
		if x := diffHeader(d.Header, w); x != "" {
			return fmt.Errorf("%s", x)
		}
		want := mk()
		if s := specByID(h.MsgID); s != nil {
			s.norm(want)
		}
		if x := diffEntity(d.Body, want); x != "" {
			return fmt.Errorf("decrypted %s", x)
		}
		// no key, nil key, wrong key
		if len(body) > 0 {
			for k := 0; k < 3; k++ {
				var m protocol.Message
				var err error
				switch k {
				case 0:
					err = m.Decode(append([]byte{}, fr...))
				case 1:
					err = m.Decode(append([]byte{}, fr...), nil)
				case 2:
					err = m.Decode(append([]byte{}, fr...), other)
				}
				r.Ops(1)
				if err == nil || !noBody(m.Body) {
					return fmt.Errorf("decoding %s: err=%v body=%v", []string{"without a key", "with a nil key", "with another key"}[k], err, m.Body)
				}
			}
		}
		return nil
	}
	f := r.Family("body-lengths")
	for n := 1; n <= 640; n++ {
		for k := 0; k < r.Pick(3, 6); k++ {
			n, k := n, k
			b := make([]byte, n)
			for i := range b {
				switch k {
				case 0:
					b[i] = 0
				case 1:
					b[i] = byte(i*5 + n)
				case 2:
					b[i] = []byte{0x7e, 0x7d}[i&1]
				default:
					b[i] = byte(i*i>>k) ^ byte(k)
				}
			}
			f.Case(func() string { return fmt.Sprintf("body of %d bytes, pattern %d", n, k) }, func() error {
				r.State([]byte(fmt.Sprint(n, k)))
				return roundTrip(h0, transparent(b), b)
			})
		}
	}
	for _, n := range []int{700, 1023, 1024, 2000, 65536 - 86, 65536, 65536 + 10, 44032, 88064} {
		n := n
		f.Case(func() string { return fmt.Sprintf("body of %d bytes", n) }, func() error {
			b := bytes.Repeat([]byte{0x5a}, n)
			return roundTrip(h0, transparent(b), b)
		})
	}
	f = r.Family("message-types")
	for _, s := range specs {
		s := s
		for k := 0; k < 3; k++ {
			k := k
			b := s.encode(s.baseValue(k))
			if s.id == 0x0901 && len(b) > 400 {
				continue
			}
			if s.id == 0x0901 {
				bb, _ := s.baseValue(k).Encode()
				b = bb
			}
			for _, pk := range []bool{false, true} {
				h := refHeader{MsgID: s.id, Icc: 1, Serial: 3, HasPkt: pk, Sum: 2, Seq: 1}
				f.Case(func() string { return fmt.Sprintf("%04x base %d packet=%v (%d bytes)", s.id, k, pk, len(b)) }, func() error {
					r.State([]byte(fmt.Sprint(s.id, k, pk)))
					return roundTrip(h, func() protocol.Entity { return s.baseValue(k) }, b)
				})
			}
		}
	}
	f = r.Family("altered-ciphertext")
	for _, n := range []int{1, 85, 86, 87, 200, 602} {
		if n > 200 && !r.Thorough() {
			continue
		}
		b := bytes.Repeat([]byte{0x61}, n)
		fr, err := enc(h0, transparent(b)(), &key.PublicKey)
		if err != nil {
			continue // reported by body-lengths
		}
		h, cipher, _ := refUnframe(fr)
		for p := range cipher {
			for _, x := range []byte{0x01, 0x80, 0xff} {
				n, p, x := n, p, x
				f.Case(func() string { return fmt.Sprintf("%d body bytes, ciphertext byte %d xor %02x", n, p, x) }, func() error {
					c := append([]byte{}, cipher...)
					c[p] ^= x
					r.State([]byte(fmt.Sprint(n, p, x)))
					var m protocol.Message
					var err error
					if e := hk.NoPanic("Decode", func() { err = m.Decode(refFrame(append(h.bytes(), c...)), key) }); e != nil {
						return e
					}
					r.Ops(1)
					if err == nil || !noBody(m.Body) {
						return fmt.Errorf("altered ciphertext accepted: %v", m.Body)
					}
					return nil
				})
			}
		}
		for l := 0; l < len(cipher); l++ {
			n, l := n, l
			if l%128 == 0 {
				continue // whole blocks removed: nothing in the format can tell
			}
			f.Case(func() string { return fmt.Sprintf("%d body bytes, ciphertext cut to %d", n, l) }, func() error {
				hh := h
				hh.Prop = h.Prop&^0x3ff | uint16(l)
				var m protocol.Message
				var err error
				if e := hk.NoPanic("Decode", func() { err = m.Decode(refFrame(append(hh.bytes(), cipher[:l]...)), key) }); e != nil {
					return e
				}
				r.Ops(1)
				if err == nil || !noBody(m.Body) {
					return fmt.Errorf("cut ciphertext accepted: %v", m.Body)
				}
				return nil
			})
		}
	}
	// junk marked as encrypted never panics and is never delivered
	f = r.Family("junk-ciphertext")
	for n := 1; n <= 1023; n++ {
		for _, x := range []byte{0, 0x01, 0xff} {
			n, x := n, x
			if n > 300 && n%128 > 2 {
				continue
			}
			f.Case(func() string { return fmt.Sprintf("%d bytes %02x marked as encrypted", n, x) }, func() error {
				h := h0
				h.Prop = 1 << 10
				var m protocol.Message
				var err error
				if e := hk.NoPanic("Decode", func() { err = m.Decode(refEncodeFrame(h, bytes.Repeat([]byte{x}, n)), key) }); e != nil {
					return e
				}
				r.Ops(1)
				r.State([]byte(fmt.Sprint("junk", n, x)))
				if err == nil || !noBody(m.Body) {
					return fmt.Errorf("junk accepted: %v", m.Body)
				}
				return nil
			})
		}
	}
	// a key changes nothing for frames that are not encrypted
	f = r.Family("plain-with-key")
	for _, s := range specs {
		s := s
		f.Case(func() string { return fmt.Sprintf("plain %04x decoded with a key", s.id) }, func() error {
			b := s.encode(s.baseValue(1))
			fr := refEncodeFrame(refHeader{MsgID: s.id, Icc: 5, Serial: 6}, b)
			if len(b) > 1023 {
				return nil
			}
			var m protocol.Message
			if err := m.Decode(fr, key); err != nil {
				return err
			}
			want := s.baseValue(1)
			s.norm(want)
			r.Ops(1)
			if x := diffEntity(m.Body, want); x != "" {
				return fmt.Errorf("%s", x)
			}
			return nil
		})
	}
	// no public key makes encoding panic, and an accepted key never leaks the body
	f = r.Family("hostile-public-keys")
	for bits := -1; bits <= r.Pick(1100, 2100); bits++ {
		for form := 0; form < 4; form++ {
			for _, e := range []int{-1, 0, 1, 2, 3, 65537, 1<<31 - 1, 1 << 31, 1<<32 + 1} {
				for _, n := range []int{0, 1, 87} {
					bits, form, e, n := bits, form, e, n
					if bits > 40 && bits%16 != 0 && (e != 65537 || form > 1) {
						continue
					}
					f.Case(func() string { return fmt.Sprintf("modulus of %d bits, form %d, E=%d, body %d", bits, form, e, n) }, func() error {
						pub := &rsa.PublicKey{E: e}
						if bits >= 0 {
							N := new(big.Int)
							if bits > 0 {
								N.SetBit(N, bits-1, 1)
								switch form {
								case 0:
									N.SetBit(N, 0, 1)
								case 2:
									N.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
								case 3:
									N.Neg(N)
								}
							}
							pub.N = N
						}
						r.State([]byte(fmt.Sprint("pub", bits, form, e, n)))
						var ent protocol.Entity = &protocol.T808_0x0002{}
						if n > 0 {
							ent = transparent(bytes.Repeat([]byte{0x41}, n))()
						}
						var fr []byte
						var err error
						if x := hk.NoPanic("Encode", func() { fr, err = enc(h0, ent, pub) }); x != nil {
							return x
						}
						r.Ops(1)
						if err == nil && n > 20 && bytes.Contains(fr, bytes.Repeat([]byte{0x41}, 16)) {
							return fmt.Errorf("body sent in clear: %s", hexs(fr))
						}
						return nil
					})
				}
			}
		}
	}
	// a connection: every sequence of setting keys and sending marked and plain messages
	f = r.Family("server-keys")
	for bits := 7; bits <= r.Pick(2200, 9000); bits++ {
		if bits > 1016 && bits < 1024 { // fills 128 bytes but is short of 1024 bits: either way
			continue
		}
		for _, e := range []int{3, 65537} {
			bits, e := bits, e
			f.Case(func() string { return fmt.Sprintf("server with a key of %d bits E=%d", bits, e) }, func() error {
				n := new(big.Int)
				n.SetBit(n, bits-1, 1)
				n.SetBit(n, 0, 1)
				key := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: e}}
				r.Ops(1)
				r.State([]byte(fmt.Sprint("server", bits, e)))
				s, err := go808.NewServer(go808.Options{PrivateKey: key})
				if (err == nil) != (bits == 1024) {
					return fmt.Errorf("NewServer: %v", err)
				}
				if err == nil && s.GetPrivateKey() != key {
					return fmt.Errorf("GetPrivateKey returns another key")
				}
				return nil
			})
		}
	}
	f.Case(func() string { return "server without a key" }, func() error {
		s, err := go808.NewServer(go808.Options{})
		r.Ops(1)
		r.State([]byte("server"))
		if err != nil || s.GetPrivateKey() != nil {
			return fmt.Errorf("NewServer: %v", err)
		}
		return nil
	})
	f = r.Family("connection-keys")
	privs := []*rsa.PrivateKey{nil, key, other}
	var walk func(ops []int)
	walk = func(ops []int) {
		if f.Stopped() {
			return
		}
		if len(ops) > 0 {
			hist := append([]int{}, ops...)
			f.Case(func() string { return fmt.Sprintf("0-2: no key, key 1, key 2; 3, 4: send plain, marked: %v", hist) }, func() error {
				var w bytes.Buffer
				c, err := new(go808.Protocol).NewCodec(&w)
				if err != nil {
					return err
				}
				pc, ok := c.(*go808.ProtocolCodec)
				if !ok {
					return fmt.Errorf("NewCodec returns a %T", c)
				}
				r.State([]byte(fmt.Sprint("codec", hist)))
				var cur *rsa.PrivateKey
				for i, o := range hist {
					r.Ops(1)
					if o < 3 {
						cur = privs[o]
						if cur == nil {
							pc.SetPublicKey(nil)
						} else {
							pc.SetPublicKey(&cur.PublicKey)
						}
						if g := pc.GetPublicKey(); (g == nil) != (cur == nil) || cur != nil && g != &cur.PublicKey {
							return fmt.Errorf("step %d: the key read is not the key set", i)
						}
						continue
					}
					body := bytes.Repeat([]byte{byte('a' + i)}, 20+i*40)
					h := refHeader{MsgID: 0x0900, Icc: 13800138000, Serial: uint16(i + 1)}
					m := msgOf(h, transparent(body)())
					if o == 4 {
						m.Header.Property |= 1 << 10
					}
					w.Reset()
					if err := c.Send(*m); err != nil {
						if o == 4 && cur == nil {
							continue
						}
						return fmt.Errorf("step %d: send fails: %v", i, err)
					}
					if o == 4 && cur == nil {
						continue // marked as encrypted, but no key: left undecided
					}
					fr := append([]byte{}, w.Bytes()...)
					if o == 3 {
						if x := diffBytes(fr, refEncodeFrame(h, body)); x != "" {
							return fmt.Errorf("step %d: plain message: %s", i, x)
						}
						continue
					}
					if bytes.Contains(fr, body[:16]) {
						return fmt.Errorf("step %d: body sent in clear", i)
					}
					var d protocol.Message
					if err := d.Decode(fr, cur); err != nil {
						return fmt.Errorf("step %d: the terminal cannot decode: %v", i, err)
					}
					if x := diffEntity(d.Body, transparent(body)()); x != "" {
						return fmt.Errorf("step %d: %s", i, x)
					}
				}
				return nil
			})
		}
		if len(ops) == r.Pick(4, 6) {
			return
		}
		for o := 0; o < 5; o++ {
			walk(append(ops, o))
		}
	}
	walk(nil)
}
