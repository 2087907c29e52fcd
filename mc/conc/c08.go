package main

// C08 at the level of the server: messages encrypted for the server reach their handlers as
// if they had been sent in clear, others never do, and a session keeps the key set on it.

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"reflect"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

func mgf1(seed []byte, n int) []byte {
	var out []byte
	for c := uint32(0); len(out) < n; c++ {
		h := sha1.Sum(append(append([]byte{}, seed...), u32(c)...))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// oaep is RSAES-OAEP with SHA-1 of one block of at most 86 bytes, with a fixed seed.
func oaep(pub *rsa.PublicKey, msg []byte, nonce byte) []byte {
	lh := sha1.Sum(nil)
	db := make([]byte, 128-20-1)
	copy(db, lh[:])
	copy(db[len(db)-len(msg):], msg)
	db[len(db)-len(msg)-1] = 1
	sd := sha1.Sum(append([]byte{nonce}, msg...))
	seed := sd[:]
	for i, b := range mgf1(seed, len(db)) {
		db[i] ^= b
	}
	ms := append([]byte{}, seed...)
	for i, b := range mgf1(db, 20) {
		ms[i] ^= b
	}
	em := append(append([]byte{0}, ms...), db...)
	c := new(big.Int).Exp(new(big.Int).SetBytes(em), big.NewInt(int64(pub.E)), pub.N)
	return c.FillBytes(make([]byte, 128))
}

// cipherBody encrypts a body block by block.
func cipherBody(pub *rsa.PublicKey, body []byte) []byte {
	var out []byte
	for i := byte(0); len(body) > 0; i++ {
		n := len(body)
		if n > 86 {
			n = 86
		}
		out = append(out, oaep(pub, body[:n], i)...)
		body = body[n:]
	}
	return out
}

func (p *peer) crypt(pub *rsa.PublicKey, id uint16, body []byte) uint16 {
	p.serial++
	p.PeerSend(frame(hdr{ID: id, Prop: 1 << 10, Icc: p.icc, Serial: p.serial}, cipherBody(pub, body)))
	return p.serial
}

var serverKey2 *rsa.PrivateKey

func key2() *rsa.PrivateKey {
	if serverKey2 == nil {
		p, _ := new(big.Int).SetString(key2P, 16)
		q, _ := new(big.Int).SetString(key2Q, 16)
		serverKey2 = makeKey(p, q)
	}
	return serverKey2
}

// evClear is what a handler got.
type evClear struct {
	Sess *go808.Session
	H    protocol.Header
	Body protocol.Entity
	Data string
}

func (e *env) handleClear(id uint16) {
	e.srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
		ev := evClear{Sess: s, H: m.Header, Body: m.Body}
		v := reflect.ValueOf(m.Body).Elem()
		if f := v.FieldByName("Packet"); f.IsValid() && f.CanSet() && f.Kind() == reflect.Interface && !f.IsNil() {
			d, err := io.ReadAll(f.Interface().(io.Reader))
			ev.Data = fmt.Sprint(string(d), err)
			f.Set(reflect.Zero(f.Type()))
		}
		rt.Log(ev)
	})
}

func clears() []evClear {
	var out []evClear
	for _, e := range rt.Events() {
		if c, ok := e.(evClear); ok {
			out = append(out, c)
		}
	}
	return out
}

func init() {
	props["C08"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		// every message type, encrypted for the server, for someone else, for a server without a key
		for i, sb := range sampleBodies {
			sb := sb
			body, err := hex.DecodeString(sb.Body)
			if err != nil {
				panic(err)
			}
			if len(body) > 602 {
				continue
			}
			for _, withKey := range []bool{true, false} {
				withKey := withKey
				add("received", fmt.Sprintf("received-%d-%04x-%v", i, sb.ID, withKey), 0, func() {
					files()
					e := start(go808.Options{PrivateKey: pickKey(withKey)})
					rt.Quiet(true)
					defer rt.Quiet(false)
					e.handleClear(sb.ID)
					p := e.connect(13800138000)
					p.msg(sb.ID, body)
					rt.Idle()
					if len(clears()) != 1 {
						rt.Fail("a plain message %04x was dispatched %d times", sb.ID, len(clears()))
					}
					want := 1
					if len(body) > 0 && withKey {
						p.crypt(&key().PublicKey, sb.ID, body)
						rt.Idle()
						want = 2
						cs := clears()
						if len(cs) != want {
							rt.Fail("a message %04x encrypted for the server was dispatched %d times", sb.ID, len(cs)-1)
						}
						a, b := cs[0], cs[1]
						if b.Sess != a.Sess || b.H.MsgID != a.H.MsgID || b.H.IccID != a.H.IccID || b.H.MsgSerialNo != p.serial {
							rt.Fail("message %04x encrypted for the server is dispatched with header %+v", sb.ID, b.H)
						}
						if a.Data != b.Data || !reflect.DeepEqual(a.Body, b.Body) {
							rt.Fail("message %04x encrypted for the server is dispatched as %+v %q, in clear as %+v %q", sb.ID, b.Body, b.Data, a.Body, a.Data)
						}
					}
					if len(body) > 0 {
						p.crypt(&key2().PublicKey, sb.ID, body)
						rt.Idle()
						if n := len(clears()); n != want {
							rt.Fail("a message %04x encrypted for another key was dispatched", sb.ID)
						}
					}
				})
			}
		}
		// encrypted and plain messages of two terminals, all schedules to a bound
		for _, n := range []int{1, 60, 87} {
			n := n
			add("mixed", fmt.Sprintf("mixed-%d", n), pick(tier, 2, 4), func() {
				e := start(go808.Options{PrivateKey: key()})
				rt.Quiet(true)
				e.handleClear(0x0900)
				p, q := e.connect(13800138000), e.connect(13900139000)
				rt.Quiet(false)
				b := func(k byte) []byte { return append([]byte{1}, bytes.Repeat([]byte{k}, n)...) }
				t1 := rt.Go("p", func() {
					p.crypt(&key().PublicKey, 0x0900, b(1))
					p.msg(0x0900, b(2))
					p.crypt(&key().PublicKey, 0x0900, b(3))
				})
				t2 := rt.Go("q", func() {
					q.msg(0x0900, b(4))
					q.crypt(&key().PublicKey, 0x0900, b(5))
				})
				joinAll(t1, t2)
				next := map[uint64][]byte{13800138000: {1, 2, 3}, 13900139000: {4, 5}}
				for _, c := range clears() {
					w := next[c.H.IccID]
					got, err := c.Body.Encode()
					if len(w) == 0 || err != nil || !bytes.Equal(got, b(w[0])) {
						rt.Fail("terminal %d: dispatched %x, expected next %v", c.H.IccID, got, w)
					}
					next[c.H.IccID] = w[1:]
				}
				for icc, w := range next {
					if len(w) > 0 {
						rt.Fail("terminal %d: messages %v were not dispatched", icc, w)
					}
				}
			})
		}
		// an upload in encrypted packets
		add("upload", "upload", pick(tier, 1, 2), func() {
			files()
			e := start(go808.Options{PrivateKey: key(), AutoMergePacket: true})
			rt.Quiet(true)
			e.handleUploads()
			p := e.connect(13800138000)
			rt.Quiet(false)
			var loc []byte
			for _, s := range sampleBodies {
				if s.ID == idMedia {
					loc, _ = hex.DecodeString(s.Body)
					break
				}
			}
			loc = loc[:36]
			for i, data := range []string{"first part ~}", "second"} {
				p.serial++
				p.PeerSend(frame(hdr{ID: idMedia, Prop: 1 << 10, Icc: p.icc, Serial: p.serial, Pkt: true, Sum: 2, Seq: uint16(i + 1)},
					cipherBody(&key().PublicKey, append(append([]byte{}, loc...), data...))))
			}
			rt.Idle()
			us := uploads()
			if len(us) != 1 || us[0].Err != nil || us[0].Data != "first part ~}second" {
				rt.Fail("an upload in encrypted packets was dispatched as %+v", us)
			}
		})
		// the key of a session: every sequence of settings
		depth := pick(tier, 4, 5)
		keys := []*rsa.PublicKey{nil, &key().PublicKey, &key2().PublicKey, {N: big.NewInt(3), E: 3}}
		for first := 0; first < 8; first++ {
			first := first
			add("keys", fmt.Sprintf("keys-%d", first), 0, func() {
				e := start(go808.Options{PrivateKey: key()})
				rt.Quiet(true)
				defer rt.Quiet(false)
				if e.srv.GetPrivateKey() != key() {
					rt.Fail("the server does not return its private key")
				}
				_, s0 := e.session(13800138000)
				_, s1 := e.session(13900139000)
				ss := []*go808.Session{s0, s1}
				if s0.GetPublicKey() != nil || s1.GetPublicKey() != nil {
					rt.Fail("a new session has a public key")
				}
				cur := []*rsa.PublicKey{nil, nil}
				var rec func(d, op int)
				rec = func(d, op int) {
					ss[op/4].SetPublicKey(keys[op%4])
					cur[op/4] = keys[op%4]
					for i := range ss {
						if g := ss[i].GetPublicKey(); g != cur[i] {
							rt.Fail("session %d returns key %v, %v was set", i, g, cur[i])
						}
					}
					if d == depth {
						return
					}
					for o := 0; o < 8; o++ {
						old := append([]*rsa.PublicKey{}, cur...)
						rec(d+1, o)
						for i := range ss { // back to where this sequence was
							ss[i].SetPublicKey(old[i])
						}
						cur = old
					}
				}
				rec(1, first)
			})
		}
		// keys set and read concurrently
		add("keys", "keys-concurrent", pick(tier, 3, 6), func() {
			e := start(go808.Options{})
			_, s0 := e.session(13800138000)
			_, s1 := e.session(13900139000)
			k1, k2 := &key().PublicKey, &key2().PublicKey
			t1 := rt.Go("set1", func() {
				s0.SetPublicKey(k1)
				if g := s0.GetPublicKey(); g != k1 && g != k2 {
					rt.Fail("a key was lost: %v", g)
				}
			})
			t2 := rt.Go("set2", func() {
				s0.SetPublicKey(k2)
				if g := s0.GetPublicKey(); g != k1 && g != k2 {
					rt.Fail("a key was lost: %v", g)
				}
			})
			t3 := rt.Go("other", func() {
				if g := s1.GetPublicKey(); g != nil {
					rt.Fail("the key of another session is returned")
				}
				s1.SetPublicKey(k1)
				if g := s1.GetPublicKey(); g != k1 {
					rt.Fail("the key of another session is returned")
				}
			})
			joinAll(t1, t2, t3)
			if g := s0.GetPublicKey(); g != k1 && g != k2 {
				rt.Fail("a key was lost: %v", g)
			}
			if g := s1.GetPublicKey(); g != k1 {
				rt.Fail("the key of another session was changed")
			}
		})
		// sending on a session with a key: in clear or readable with the matching key
		for _, k := range []int{1, 2} {
			k := k
			add("sent", fmt.Sprintf("sent-%d", k), pick(tier, 2, 4), func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				priv := key()
				if k == 2 {
					priv = key2()
				}
				t1 := rt.Go("key", func() { s.SetPublicKey(&priv.PublicKey) })
				t2 := rt.Go("send", func() {
					for i := 0; i < 2; i++ {
						if _, err := s.Send(text(fmt.Sprintf("hello %d", i))); err != nil {
							rt.Fail("send on an open session fails: %v", err)
						}
					}
				})
				joinAll(t1, t2)
				ws := p.wire()
				if len(ws) != 2 {
					rt.Fail("%d messages on the wire, want 2", len(ws))
				}
				for i, w := range ws {
					var m protocol.Message
					if err := m.Decode(append([]byte{}, w.Raw...), priv); err != nil {
						rt.Fail("the terminal cannot read message %d: %v", i, err)
					}
					if b, ok := m.Body.(*protocol.T808_0x8300); !ok || b.Text != fmt.Sprintf("hello %d", i) {
						rt.Fail("the terminal reads message %d as %+v", i, m.Body)
					}
				}
			})
		}
		return out
	}
}

const (
	key2P = "f4f8525095a9f5f28f068d858c743886dfb91994e836f4ec2778e1e2d489d284771381130401d69eb88bb6268b877d2f83a87cf12a159ab6fc8af862150f943f"
	key2Q = "c8113c4ffcd05009bb486db67718fb079e4907cca7634b0e1dfd4b0743ddd789acb6234afe36452852dac0df31fcdb72b032ed28d778a76115ab076bffe52337"
)
