package main

import (
	"bytes"
	"crypto/rsa"
	"fmt"
	"io"
	"math/big"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// c21 is a server under attack: one well-behaved terminal, one hostile connection at a time.
type c21 struct {
	*env
	g       *peer
	gs      *go808.Session
	h       *peer
	n       int
	reached int
}

var serverKey *rsa.PrivateKey

func key() *rsa.PrivateKey {
	if serverKey == nil {
		p, _ := new(big.Int).SetString(keyP, 16)
		q, _ := new(big.Int).SetString(keyQ, 16)
		serverKey = makeKey(p, q)
	}
	return serverKey
}

func makeKey(p, q *big.Int) *rsa.PrivateKey {
	one := big.NewInt(1)
	n := new(big.Int).Mul(p, q)
	phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
	d := new(big.Int).ModInverse(big.NewInt(65537), phi)
	k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: 65537}, D: d, Primes: []*big.Int{p, q}}
	k.Precompute()
	return k
}

func attack(o go808.Options) *c21 {
	files()
	rt.Quiet(true)
	c := &c21{env: start(o)}
	c.g, c.gs = c.session(13800138000)
	for id := range knownIDs {
		if id == idHeartbeat {
			continue
		}
		c.srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
			if b, ok := m.Body.(*protocol.T808_0x0801); ok && b.Packet != nil {
				io.ReadAll(b.Packet)
			}
			if b, ok := m.Body.(*protocol.T808_0x0A00); ok {
				s.SetPublicKey(b.PublicKey)
			}
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		})
	}
	c.hostile()
	rt.Quiet(false)
	return c
}

// hostile makes sure there is an open hostile connection.
func (c *c21) hostile() *peer {
	if c.h == nil || c.h.ServerClosed() {
		c.n++
		if c.n > 20 {
			return nil
		}
		c.h = dial(13900139000)
		rt.Idle()
	}
	return c.h
}

// good checks that the well-behaved terminal is served as ever.
func (c *c21) good(what string) {
	n, k := len(handled(0)), len(c.g.wire())
	s := c.g.msg(idHeartbeat, nil)
	rt.Idle()
	hs := handled(0)
	if len(hs) != n+1 || hs[n].H.MsgSerialNo != s || hs[n].Sess != c.gs {
		rt.Fail("after %s another connection's message was handled %d times", what, len(hs)-n)
	}
	if _, err := c.gs.Send(text("ok")); err != nil {
		rt.Fail("after %s sending on another connection fails: %v", what, err)
	}
	rt.Idle()
	if w := c.g.wire(); len(w) != k+1 || w[k].H.ID != idText {
		rt.Fail("after %s a message for another connection is written as %v", what, w[k:])
	}
	if c.g.ServerClosed() {
		rt.Fail("after %s another connection was closed", what)
	}
}

// served checks that the hostile connection is either closed or still served.
func (c *c21) served(what string) {
	h := c.h
	n := len(handled(0))
	for i := 0; i < 3 && !h.ServerClosed(); i++ {
		h.msg(idHeartbeat, nil)
		rt.Idle()
	}
	if !h.ServerClosed() && len(handled(0)) == n {
		rt.Fail("after %s the connection is neither served nor closed", what)
	}
}

var fillers = []func(i int) byte{
	func(i int) byte { return 0 }, func(i int) byte { return 0xff }, func(i int) byte { return byte(i + 1) }, func(i int) byte { return 0x39 },
}

func fill(f, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = fillers[f](i)
	}
	return b
}

func sortedIDs() []uint16 {
	var out []uint16
	for i := 0; i < 0x10000; i++ {
		if knownIDs[uint16(i)] {
			out = append(out, uint16(i))
		}
	}
	return append(out, 0, idUnknown, 0xffff)
}

func init() {
	props["C21"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run, Horizon: 3000000})
		}
		// every message type with bodies of every length and several fillings
		lens := []int{}
		for i := 0; i <= pick(tier, 90, 300); i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 127, 128, 129, 255, 256, 500, 511, 512, 1000, 1022, 1023)
		for _, id := range sortedIDs() {
			for f := range fillers {
				for _, merge := range []bool{false, true} {
					if merge && f != 2 {
						continue
					}
					id, f, merge := id, f, merge
					add("bodies", fmt.Sprintf("body-%04x-%d-%v", id, f, merge), 0, func() {
						c := attack(go808.Options{AutoMergePacket: merge})
						rt.Quiet(true)
						for _, n := range lens {
							h := c.hostile()
							if h == nil {
								break
							}
							h.msg(id, fill(f, n))
							rt.Idle()
							c.good(fmt.Sprintf("message %04x with %d bytes", id, n))
						}
						c.served(fmt.Sprintf("messages %04x", id))
						rt.Quiet(false)
					})
				}
			}
		}
		// sub-packet numbers
		ext := []uint16{0, 1, 2, 3, 255, 256, 0x7fff, 0xffff}
		for _, id := range []uint16{idMedia, idLocation, idHeartbeat, 0x0001, idUnknown, 0x0704, 0x0900} {
			for _, merge := range []bool{false, true} {
				for _, n := range []int{0, 3, 36, 40} {
					id, merge, n := id, merge, n
					add("sub-packets", fmt.Sprintf("sub-%04x-%v-%d", id, merge, n), 0, func() {
						c := attack(go808.Options{AutoMergePacket: merge})
						rt.Quiet(true)
						for _, sum := range ext {
							for _, seq := range ext {
								if sum > 300 && id == idMedia && merge && n >= 36 && seq > 3 && seq < 0x7fff {
									continue
								}
								h := c.hostile()
								if h == nil {
									break
								}
								b := fill(0, n)
								if id == idMedia && n >= 36 {
									b = media(uint32(seq%2), string(fill(2, n-36)))
								}
								h.pkt(id, sum, seq, b)
								rt.Idle()
								c.good(fmt.Sprintf("sub-packet %d of %d", seq, sum))
							}
						}
						c.served("sub-packets")
						rt.Quiet(false)
					})
				}
			}
		}
		// short junk: all strings over the significant bytes
		junk := words("\x7e\x7d\x01\x02\x00\xff", pick(tier, 5, 6))
		for lo := 0; lo < len(junk); lo += 6 {
			hi := lo + 6
			if hi > len(junk) {
				hi = len(junk)
			}
			part := junk[lo:hi]
			add("junk", fmt.Sprintf("junk-%d", lo), 0, func() {
				c := attack(go808.Options{})
				rt.Quiet(true)
				for i, j := range part {
					h := c.hostile()
					if i%2 == 1 && len(j) > 1 {
						h.PeerSend([]byte(j)[:1])
						h.PeerSend([]byte(j)[1:])
					} else {
						h.PeerSend([]byte(j))
					}
					rt.Idle()
					c.good(fmt.Sprintf("%x", j))
					if i%3 == 2 {
						h.PeerClose()
						rt.Idle()
						if !h.ServerClosed() {
							rt.Fail("a connection that sent %x and ended is kept open", j)
						}
					} else {
						c.served(fmt.Sprintf("%x", j))
						h.PeerReset()
						rt.Idle()
					}
				}
				c.good("junk")
				rt.Quiet(false)
			})
		}
		for b := 0; b < 256; b += 8 {
			b := b
			add("junk", fmt.Sprintf("byte-%02x", b), 0, func() {
				c := attack(go808.Options{})
				rt.Quiet(true)
				for i := 0; i < 8; i++ {
					h := c.hostile()
					h.PeerSend([]byte{byte(b + i)})
					rt.Idle()
					h.PeerSend([]byte{0x7e, byte(b + i), 0x7e})
					rt.Idle()
					c.good("a byte")
					c.served("a byte")
				}
				rt.Quiet(false)
			})
		}
		// damaged frames: cut anywhere, each bit flipped
		victims := []struct {
			name string
			f    []byte
		}{
			{"beat", frame(hdr{ID: idHeartbeat, Icc: 13900139000, Serial: 1}, nil)},
			{"loc", frame(hdr{ID: idLocation, Icc: 13900139000, Serial: 0x7e7d}, loc())},
			{"media", frame(hdr{ID: idMedia, Icc: 13900139000, Serial: 1, Pkt: true, Sum: 2, Seq: 1}, media(7, "abc"))},
			{"answer", frame(hdr{ID: 0x0001, Icc: 13900139000, Serial: 1}, []byte{0, 1, 0x83, 0, 0})},
			{"crypt", frame(hdr{ID: 0x0001, Prop: 1 << 10, Icc: 13900139000, Serial: 1}, []byte{0, 1, 0x83, 0, 0})},
		}
		for _, v := range victims {
			for i := 1; i < len(v.f); i += 5 {
				v, i := v, i
				for _, merge := range []bool{false, true} {
					merge := merge
					if merge && v.name != "media" {
						continue
					}
					add("cut", fmt.Sprintf("cut-%s-%d-%v", v.name, i, merge), 1, func() {
						c := attack(go808.Options{AutoMergePacket: merge})
						for k := i; k < i+5 && k < len(v.f); k++ {
							h := c.hostile()
							h.PeerSend(v.f[:k])
							if k%2 == 0 {
								h.PeerClose()
							} else {
								rt.Idle()
								h.PeerReset()
							}
							rt.Idle()
							if !h.ServerClosed() {
								rt.Fail("a connection that ended inside a frame is kept open")
							}
						}
						rt.Quiet(true)
						c.good("frames cut short")
						rt.Quiet(false)
					})
				}
			}
			for i := 0; i < len(v.f); i++ {
				v, i := v, i
				for _, fix := range []bool{false, true} {
					fix := fix
					add("flip", fmt.Sprintf("flip-%s-%d-%v", v.name, i, fix), 0, func() {
						c := attack(go808.Options{AutoMergePacket: true, PrivateKey: pickKey(v.name == "crypt")})
						rt.Quiet(true)
						for bit := 0; bit < 8; bit++ {
							h := c.hostile()
							f := append([]byte{}, v.f...)
							f[i] ^= 1 << bit
							if fix && len(f) > 3 { // keep the checksum right
								s := byte(0)
								for _, b := range f[1 : len(f)-2] {
									s ^= b
								}
								f[len(f)-2] = s
							}
							h.PeerSend(f)
							rt.Idle()
							c.good(fmt.Sprintf("%x", f))
							c.served(fmt.Sprintf("%x", f))
						}
						rt.Quiet(false)
					})
				}
			}
		}
		// answers nobody asked for, with and without requests of either session pending
		for i := range answers {
			i := i
			for pend := 0; pend < 3; pend++ {
				pend := pend
				add("answers", fmt.Sprintf("answers-%d-%d", i, pend), 1, func() {
					c := attack(go808.Options{})
					rt.Quiet(true)
					var hs *go808.Session
					n := len(handled(0))
					c.h.msg(idHeartbeat, nil)
					rt.Idle()
					hs = handled(0)[n].Sess
					if pend >= 1 {
						request(c.gs, reqEntity(0), "good")
					}
					if pend >= 2 {
						request(hs, reqEntity(0), "own")
					}
					rt.Idle()
					rt.Quiet(false)
					for _, no := range []uint16{0, 1, 1, 2, 3, 255, 256, 0xffff} {
						c.h.msg(answers[i].ID, answers[i].Body(no))
					}
					rt.Idle()
					rt.Quiet(true)
					for _, cb := range cbs() {
						if cb.Tag == "good" {
							rt.Fail("an answer on one connection ran the callback of another's request")
						}
					}
					c.good("answers nobody asked for")
					c.served("answers nobody asked for")
					if pend >= 1 {
						no := rets("good")[0].Serial
						c.g.msg(answers[i].ID, answers[i].Body(no))
						rt.Idle()
						k := 0
						for _, cb := range cbs() {
							if cb.Tag == "good" {
								k++
							}
						}
						if k != 1 {
							rt.Fail("the good connection's callback ran %d times", k)
						}
					}
					rt.Quiet(false)
				})
			}
		}
		// encrypted messages, with and without a server key
		for _, withKey := range []bool{false, true} {
			for _, id := range []uint16{idHeartbeat, idLocation, 0x0001, idMedia, 0x0a00, idUnknown, 0x0704} {
				withKey, id := withKey, id
				for _, n := range []int{0, 1, 2, 5, 64, 127, 128, 129, 255, 256, 257, 384, 512, 1000, 1023} {
					n := n
					add("encrypted", fmt.Sprintf("encrypted-%v-%04x-%d", withKey, id, n), 0, func() {
						c := attack(go808.Options{PrivateKey: pickKey(withKey), AutoMergePacket: true})
						rt.Quiet(true)
						for f := range fillers {
							for _, part := range []bool{false, true} {
								h := c.hostile()
								h.serial++
								h.PeerSend(frame(hdr{ID: id, Prop: 1 << 10, Icc: h.icc, Serial: h.serial, Pkt: part, Sum: 2, Seq: 1}, fill(f, n)))
								rt.Idle()
								c.good(fmt.Sprintf("encrypted message %04x of %d bytes", id, n))
							}
						}
						c.served("encrypted messages")
						rt.Quiet(false)
					})
				}
				// really encrypted, but not what the type needs
				for n := 0; withKey && n < 120; n += 8 {
					n := n
					add("encrypted", fmt.Sprintf("cipher-%04x-%d", id, n), 0, func() {
						c := attack(go808.Options{PrivateKey: key()})
						rt.Quiet(true)
						for k := n; k < n+8 && k <= 117; k++ {
							ct, err := rsa.EncryptPKCS1v15(zeroReader{}, &key().PublicKey, fill(2, k))
							if err != nil {
								panic(err)
							}
							h := c.hostile()
							h.serial++
							h.PeerSend(frame(hdr{ID: id, Prop: 1 << 10, Icc: h.icc, Serial: h.serial}, ct))
							rt.Idle()
							c.good("an encrypted message")
						}
						c.served("encrypted messages")
						rt.Quiet(false)
					})
				}
			}
		}
		// hostile public keys
		add("public-keys", "public-keys", 0, func() {
			c := attack(go808.Options{PrivateKey: key()})
			rt.Quiet(true)
			for _, e := range []uint32{0, 1, 2, 3, 65537, 0x7fffffff, 0x80000000, 0xffffffff} {
				for f := range fillers {
					h := c.hostile()
					if h == nil {
						rt.Fail("hostile public keys close connections")
					}
					h.msg(0x0a00, append(u32(e), fill(f, 128)...))
					rt.Idle()
					c.srv.Broadcast(text("all"))
					rt.Idle()
					c.g.wire()
					c.good("a hostile public key")
				}
			}
			c.served("hostile public keys")
			rt.Quiet(false)
		})
		// frames that never end
		for _, v := range []int{1, 2, 3} {
			v := v
			add("endless", fmt.Sprintf("endless-%d", v), 0, func() {
				c := attack(go808.Options{})
				rt.Quiet(true)
				h := c.h
				first := []byte{0x7e}
				chunk := bytes.Repeat([]byte{[]byte{0, 1, 0x7d}[v-1]}, 1000)
				h.PeerSend(first)
				for i := 0; i < 80; i++ {
					h.PeerSend(chunk)
					rt.Idle()
					if i%10 == 0 {
						c.good("an endless frame")
					}
					if h.ServerClosed() {
						break
					}
				}
				if !h.ServerClosed() {
					h.PeerSend([]byte{0x7e})
					c.served("a frame of 80000 bytes")
				}
				c.good("an endless frame")
				rt.Quiet(false)
			})
		}
		// hostile connections while the good one is active
		for _, k := range []string{"junk", "cut", "reset", "unknown", "parts", "answers", "stall", "burst", "setup"} {
			k := k
			add("concurrent", "attack-"+k, pick(tier, 2, 3), func() {
				c := attack(go808.Options{AutoMergePacket: true})
				rt.Quiet(true)
				n, w := len(handled(0)), len(c.g.wire())
				rt.Quiet(false)
				var s1, s2 uint16
				s1 = c.g.msg(idHeartbeat, nil)
				switch k {
				case "junk":
					c.h.PeerSend([]byte{1, 2, 3})
				case "cut":
					c.h.PeerSend(frame(hdr{ID: idLocation, Icc: 1, Serial: 1}, loc())[:20])
					c.h.PeerClose()
				case "reset":
					c.h.PeerReset()
				case "unknown":
					c.h.msg(idUnknown, nil)
					c.h.PeerClose()
				case "parts":
					c.h.icc = c.g.icc
					c.h.pkt(idMedia, 2, 1, media(7, "x"))
					c.h.pkt(idMedia, 2, 2, media(7, "y"))
				case "answers":
					c.h.msg(0x0001, []byte{0, 1, 0, 0, 0})
				case "stall":
					c.h.PeerStall(true)
					c.h.msg(idUnknown, nil)
				case "burst":
					for i := 0; i < 3; i++ {
						dial(13700137000 + uint64(i)).PeerClose()
					}
				case "setup":
					x := dial(13700137000)
					x.PeerSend([]byte{1})
				}
				s2 = c.g.msg(idHeartbeat, nil)
				t := rt.Go("sender", func() {
					c.gs.Send(text("one"))
					c.gs.Send(text("two"))
				})
				joinAll(t)
				rt.Quiet(true)
				var got []uint16
				for _, h := range handled(0)[n:] {
					if h.Sess == c.gs {
						got = append(got, h.H.MsgSerialNo)
					}
				}
				if len(got) != 2 || got[0] != s1 || got[1] != s2 {
					rt.Fail("the good connection's messages were handled as %v", got)
				}
				ws := c.g.wire()[w:]
				if len(ws) != 2 || string(ws[0].Body[1:]) != "one" || string(ws[1].Body[1:]) != "two" {
					rt.Fail("the good connection received %v", ws)
				}
				c.good("an attack")
				rt.Quiet(false)
			})
		}
		// trouble while accepting
		for _, k := range []int{1, 2, 5} {
			k := k
			add("accept", fmt.Sprintf("accept-error-%d", k), 1, func() {
				c := attack(go808.Options{})
				for i := 0; i < k; i++ {
					rt.AcceptError(port)
				}
				p := dial(13700137000)
				rt.Quiet(true)
				rt.Advance(5e9)
				rt.Quiet(false)
				if c.runT.Done() {
					rt.Fail("a temporary error while accepting ended the server")
				}
				n := len(handled(0))
				p.msg(idHeartbeat, nil)
				rt.Idle()
				if len(handled(0)) != n+1 {
					rt.Fail("after a temporary error while accepting a new connection is not served")
				}
				rt.Quiet(true)
				c.good("an accept error")
				rt.Quiet(false)
			})
		}
		return out
	}
}

func pickKey(on bool) *rsa.PrivateKey {
	if on {
		return key()
	}
	return nil
}

// zeroReader is a deterministic source of non-zero padding.
type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0x5a
	}
	return len(p), nil
}

// the primes of the server's key (fixed, so that runs are reproducible)
const (
	keyP = "c1e80d46317ff02ac7880208cdfc015092113c1511d3deb51da7cc2022aa39be17f05818eddd5ee79bc70333a419ce1fbefaf92521a0cfb03591309271c060d7"
	keyQ = "eb65d04b40a3e5ea58a16838164499d3a04bcb633f14678780482316bc5f555ffb052223c4a21e7dee18519878f0c7e7b368fd3765c3351e586d9b947d0ada1f"
)
