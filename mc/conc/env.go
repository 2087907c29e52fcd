package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/flt"
	"verifmc/rt"
)

// ---- reference framing (independent of the implementation) ----

type hdr struct {
	ID       uint16
	Prop     uint16 // flag bits only; the length is filled in
	Icc      uint64
	Serial   uint16
	Pkt      bool
	Sum, Seq uint16
}

func bcd(n uint64) []byte {
	out := make([]byte, 6)
	for i := 11; i >= 0; i-- {
		d := byte(n % 10)
		n /= 10
		if i%2 == 1 {
			out[i/2] |= d
		} else {
			out[i/2] |= d << 4
		}
	}
	return out
}

func u16(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }
func u32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func frame(h hdr, body []byte) []byte {
	prop := h.Prop&^uint16(0x3ff) | uint16(len(body)&0x3ff)
	if h.Pkt {
		prop |= 1 << 13
	}
	c := append(u16(h.ID), u16(prop)...)
	c = append(c, bcd(h.Icc)...)
	c = append(c, u16(h.Serial)...)
	if h.Pkt {
		c = append(append(c, u16(h.Sum)...), u16(h.Seq)...)
	}
	c = append(c, body...)
	sum := byte(0)
	for _, b := range c {
		sum ^= b
	}
	return wrap(append(c, sum))
}

func wrap(c []byte) []byte {
	out := []byte{0x7e}
	for _, b := range c {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, b)
		}
	}
	return append(out, 0x7e)
}

// wireMsg is a frame the server wrote, parsed by the reference.
type wireMsg struct {
	H    hdr
	Body []byte
	Raw  []byte
}

// parse splits a written byte stream into frames; an error means bytes were mixed, lost or
// malformed.
func parse(b []byte) ([]wireMsg, error) {
	var out []wireMsg
	for len(b) > 0 {
		if b[0] != 0x7e {
			return out, fmt.Errorf("byte %#x where a frame should start: %x", b[0], b)
		}
		e := bytes.IndexByte(b[1:], 0x7e)
		if e < 0 {
			return out, fmt.Errorf("incomplete frame %x", b)
		}
		raw := b[:e+2]
		b = b[e+2:]
		var c []byte
		for i := 1; i < len(raw)-1; i++ {
			if raw[i] == 0x7d {
				i++
				if i == len(raw)-1 || raw[i] != 1 && raw[i] != 2 {
					return out, fmt.Errorf("bad escape in %x", raw)
				}
				c = append(c, 0x7c+raw[i])
				continue
			}
			c = append(c, raw[i])
		}
		if len(c) < 13 {
			return out, fmt.Errorf("short frame %x", raw)
		}
		sum := byte(0)
		for _, x := range c[:len(c)-1] {
			sum ^= x
		}
		if sum != c[len(c)-1] {
			return out, fmt.Errorf("bad checksum in %x", raw)
		}
		c = c[:len(c)-1]
		h := hdr{ID: uint16(c[0])<<8 | uint16(c[1]), Prop: uint16(c[2])<<8 | uint16(c[3]), Serial: uint16(c[10])<<8 | uint16(c[11])}
		for _, x := range c[4:10] {
			h.Icc = h.Icc*100 + uint64(x>>4)*10 + uint64(x&15)
		}
		body := c[12:]
		if h.Prop&(1<<13) != 0 {
			if len(body) < 4 {
				return out, fmt.Errorf("short frame %x", raw)
			}
			h.Pkt = true
			body = body[4:]
		}
		if len(body) != int(h.Prop&0x3ff) {
			return out, fmt.Errorf("length mismatch in %x", raw)
		}
		out = append(out, wireMsg{H: h, Body: body, Raw: raw})
	}
	return out, nil
}

// ---- scenario environment ----

const port = 8808

type env struct {
	srv  *go808.Server
	runT *rt.Thread
	// events the harness handlers record, see rt.Log
}

type evHandle struct {
	Sess   *go808.Session
	ID     uint64
	Found  bool // the session could be looked up, and was this one
	H      protocol.Header
	Body   protocol.Entity
	Data   string
	End    bool
	Thread int
	Gen    int
}

type evClose struct {
	Sess *go808.Session
	ID   uint64
	Step int
}

type evCB struct {
	Tag    string
	Serial uint16
	Msg    protocol.MsgID
	Step   int
}

type evRet struct {
	Tag    string
	Serial uint16
	Err    error
	N      int
	Step   int
	Start  int
}

func newServer(o go808.Options) *env {
	s, err := go808.NewServer(o)
	if err != nil {
		rt.Fail("NewServer: %v", err)
	}
	return &env{srv: s}
}

// start creates a server whose close handler is recorded and runs it, all under the
// default schedule.
func start(o go808.Options) *env {
	rt.Quiet(true)
	if o.CloseHandler == nil {
		o.CloseHandler = func(s *go808.Session) {
			rt.Log(evClose{Sess: s, ID: s.ID(), Step: rt.Step()})
		}
	}
	e := newServer(o)
	e.run()
	rt.Idle()
	rt.Quiet(false)
	return e
}

func (e *env) run() *rt.Thread {
	e.runT = rt.Go("run", func() {
		err := e.srv.Run("tcp", port)
		rt.Log(evRet{Tag: "run", Err: err, Step: rt.Step()})
	})
	return e.runT
}

// handle registers a recording handler for the message IDs.
func (e *env) handle(ids ...uint16) {
	for _, id := range ids {
		e.handleFn(id, nil)
	}
}

func (e *env) handleFn(id uint16, f func(s *go808.Session, m *protocol.Message)) {
	srv := e.srv
	e.srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
		got, ok := srv.GetSession(s.ID())
		ev := evHandle{Sess: s, ID: s.ID(), Found: ok && got == s, H: m.Header, Body: m.Body, Thread: rt.CurID()}
		rt.Log(ev)
		if f != nil {
			f(s, m)
		}
		rt.Log(evHandle{Sess: s, H: m.Header, End: true, Thread: rt.CurID()})
	})
}

// peer is a terminal.
type peer struct {
	*rt.Conn
	icc    uint64
	serial uint16
}

// dial connects a terminal; with settle the session exists when it returns.
func dial(icc uint64) *peer {
	c := rt.Dial(port)
	if c == nil {
		return nil
	}
	return &peer{Conn: c, icc: icc}
}

func (e *env) connect(icc uint64) *peer {
	rt.Quiet(true)
	p := dial(icc)
	if p == nil {
		rt.Fail("cannot connect: nobody listens")
	}
	rt.Idle()
	rt.Quiet(false)
	return p
}

// session connects a terminal and returns its session, found through a first heartbeat.
func (e *env) session(icc uint64) (*peer, *go808.Session) {
	rt.Quiet(true)
	n := len(handled(0))
	e.handle(idHeartbeat)
	p := e.connect(icc)
	p.msg(idHeartbeat, nil)
	rt.Idle()
	hs := handled(0)
	if len(hs) != n+1 {
		rt.Fail("heartbeat of a new connection dispatched %d times", len(hs)-n)
	}
	rt.Quiet(false)
	return p, hs[n].Sess
}

const (
	idHeartbeat = 0x0002
	idLogout    = 0x0003
	idAuth      = 0x0102
	idLocation  = 0x0200
	idMedia     = 0x0801
	idUnknown   = 0x0fee
	idGeneral   = 0x8001
	idText      = 0x8300
)

// msg sends a message of the terminal and returns its serial number.
func (p *peer) msg(id uint16, body []byte) uint16 {
	p.serial++
	p.PeerSend(frame(hdr{ID: id, Icc: p.icc, Serial: p.serial}, body))
	return p.serial
}

func (p *peer) pkt(id uint16, sum, seq uint16, body []byte) uint16 {
	p.serial++
	p.PeerSend(frame(hdr{ID: id, Icc: p.icc, Serial: p.serial, Pkt: true, Sum: sum, Seq: seq}, body))
	return p.serial
}

// wire parses everything the server wrote to the terminal.
func (p *peer) wire() []wireMsg {
	ms, err := parse(p.Bytes())
	if err != nil && !p.Partial {
		rt.Fail("the bytes written to terminal %d are not a sequence of frames: %v", p.icc, err)
	}
	return ms
}

func handled(thread int) []evHandle {
	var out []evHandle
	for _, e := range rt.Events() {
		if h, ok := e.(evHandle); ok && !h.End {
			out = append(out, h)
		}
	}
	return out
}

func closed() []evClose {
	var out []evClose
	for _, e := range rt.Events() {
		if h, ok := e.(evClose); ok {
			out = append(out, h)
		}
	}
	return out
}

func cbs() []evCB {
	var out []evCB
	for _, e := range rt.Events() {
		if h, ok := e.(evCB); ok {
			out = append(out, h)
		}
	}
	return out
}

func rets(tag string) []evRet {
	var out []evRet
	for _, e := range rt.Events() {
		if h, ok := e.(evRet); ok && h.Tag == tag {
			out = append(out, h)
		}
	}
	return out
}

// general is the general reply the server must send for a message.
func general(serial, id uint16, result byte) []byte {
	return append(append(u16(serial), u16(id)...), result)
}

// replies lists the general replies among the frames.
func replies(ms []wireMsg) [][]byte {
	var out [][]byte
	for _, m := range ms {
		if m.H.ID == idGeneral {
			out = append(out, m.Body)
		}
	}
	return out
}

// joinAll lets everything run to idleness and reports user threads that never returned.
func joinAll(ts ...*rt.Thread) {
	rt.Idle()
	for _, t := range ts {
		if !t.Done() {
			rt.Fail("deadlock: %s never returns; %s", t.Name, rt.Blocked())
		}
	}
}

func text(s string) *protocol.T808_0x8300 { return &protocol.T808_0x8300{Flag: 1, Text: s} }

// ---- per-execution scratch storage ----

var tmpRoot string

func init() {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		tmpRoot = filepath.Join(d, "t")
		os.MkdirAll(tmpRoot, 0755)
		os.Setenv("TMPDIR", tmpRoot)
	}
}

var usesFiles bool

// beginExec and endExec bracket an execution.
func beginExec() {}

func endExec() string {
	flt.Off()
	rt.WriteHook = nil
	if usesFiles {
		clean()
	}
	usesFiles = false
	return ""
}

// files declares that the scenario stores uploads; they live in the worker's scratch folder.
func files() {
	if tmpRoot == "" || !strings.Contains(tmpRoot, "verif-") {
		panic("storage scenario without a scratch directory")
	}
	usesFiles = true
	clean()
	// every operation that changes a file is a scheduling point (where the build provides it)
	flt.OnFile(func(op, name string) {
		if rt.Active() && strings.HasPrefix(name, tmpRoot) {
			rt.Point("file "+op, nil)
		}
	})
}

func clean() {
	es, _ := os.ReadDir(tmpRoot)
	for _, e := range es {
		os.RemoveAll(filepath.Join(tmpRoot, e.Name()))
	}
}

func pick(tier string, q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}
