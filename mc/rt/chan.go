package rt

import "unsafe"

// vchan is the virtual state of a Go channel; the real channel is only its identity.
type vchan struct {
	p      unsafe.Pointer
	keep   interface{}
	cap    int
	head   int
	n      int
	buf    []interface{}
	closed bool
	slots  []byte // race detector addresses, one per buffer slot
	sync   byte
	sendN  int
}

// Op is one channel operation of a blocking statement.
type Op struct {
	c    *vchan // nil: nil channel
	send bool
	v    interface{}
}

func lookup(p unsafe.Pointer, keep interface{}, capacity int) *vchan {
	if p == nil {
		return nil
	}
	x := w
	for _, c := range x.chans {
		if c.p == p {
			return c
		}
	}
	n := capacity
	if n == 0 {
		n = 1
	}
	c := &vchan{p: p, keep: keep, cap: capacity, buf: make([]interface{}, n), slots: make([]byte, n)}
	x.chans = append(x.chans, c)
	return c
}

// ready tells whether the operation can proceed now for thread t.
func (o *Op) ready(t *Thread) bool {
	c := o.c
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if c.cap > 0 {
		if o.send {
			return c.n < c.cap
		}
		return c.n > 0
	}
	if !o.send && c.n > 0 {
		return true
	}
	p, _ := partner(c, !o.send, t)
	return p != nil
}

// partner finds the longest waiting thread with a pending opposite operation on c.
func partner(c *vchan, send bool, self *Thread) (*Thread, int) {
	x := w
	var best *Thread
	bi := 0
	for _, t := range x.live {
		if t == self || t.done || t.opDone || t.ops == nil {
			continue
		}
		if best != nil && t.opSeq > best.opSeq {
			continue
		}
		for j, o := range t.ops {
			if o.c == c && o.send == send {
				best, bi = t, j
				break
			}
		}
	}
	return best, bi
}

// perform executes a ready operation.
func (o *Op) perform(t *Thread) (interface{}, bool) {
	c := o.c
	if o.send {
		if c.closed {
			panic("send on closed channel")
		}
		if c.cap > 0 {
			i := (c.head + c.n) % c.cap
			Acquire(unsafe.Pointer(&c.slots[i]))
			ReleaseMerge(unsafe.Pointer(&c.slots[i]))
			c.buf[i] = o.v
			c.n++
			c.sendN++
			return nil, true
		}
		p, j := partner(c, false, t)
		ReleaseMerge(unsafe.Pointer(&p.xferA))
		Acquire(unsafe.Pointer(&p.xferB))
		p.opDone, p.opIdx, p.opVal, p.opOK = true, j, o.v, true
		c.sendN++
		return nil, true
	}
	if c.cap > 0 && c.n > 0 {
		i := c.head
		Acquire(unsafe.Pointer(&c.slots[i]))
		ReleaseMerge(unsafe.Pointer(&c.slots[i]))
		v := c.buf[i]
		c.buf[i] = nil
		c.head = (c.head + 1) % c.cap
		c.n--
		return v, true
	}
	if !c.closed && c.cap == 0 {
		p, j := partner(c, true, t)
		ReleaseMerge(unsafe.Pointer(&p.xferA))
		Acquire(unsafe.Pointer(&p.xferB))
		v := p.ops[j].v
		p.opDone, p.opIdx, p.opVal, p.opOK = true, j, nil, true
		return v, true
	}
	Acquire(unsafe.Pointer(&c.sync))
	return nil, false
}

// doOps executes one of the operations; -1 means the default case.
func doOps(what string, ops []*Op, hasDefault bool) (int, interface{}, bool) {
	x := w
	t := x.cur
	if hasDefault {
		Point(what, nil)
	} else {
		t.ops = ops
		t.opSeq = x.seq
		x.seq++
		t.opDone = false
		for _, o := range ops {
			if o.c != nil && o.c.cap == 0 {
				ReleaseMerge(unsafe.Pointer(&t.xferB))
				break
			}
		}
		Point(what, func() bool {
			if t.opDone {
				return true
			}
			for _, o := range ops {
				if o.ready(t) {
					return true
				}
			}
			return false
		})
		t.ops = nil
		if t.opDone {
			t.opDone = false
			Acquire(unsafe.Pointer(&t.xferA))
			v := t.opVal
			t.opVal = nil
			return t.opIdx, v, t.opOK
		}
	}
	var rdy [16]int
	n := 0
	for i, o := range ops {
		if n < len(rdy) && o.ready(t) {
			rdy[n] = i
			n++
		}
	}
	if n == 0 {
		return -1, nil, false
	}
	k := 0
	if n > 1 {
		k = Choose(n)
	}
	i := rdy[k]
	v, ok := ops[i].perform(t)
	return i, v, ok
}

// ChanSend, ChanRecv, ChanClose, ChanLen are the operations behind the instrumented code.
func ChanSend(p unsafe.Pointer, keep interface{}, capacity int, v interface{}) {
	doOps("send", []*Op{{c: lookup(p, keep, capacity), send: true, v: v}}, false)
}

func ChanRecv(p unsafe.Pointer, keep interface{}, capacity int) (interface{}, bool) {
	_, v, ok := doOps("receive", []*Op{{c: lookup(p, keep, capacity)}}, false)
	return v, ok
}

func ChanClose(p unsafe.Pointer, keep interface{}, capacity int) {
	if w.dying {
		return
	}
	Point("close", nil)
	c := lookup(p, keep, capacity)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	ReleaseMerge(unsafe.Pointer(&c.sync))
	c.closed = true
}

func ChanLen(p unsafe.Pointer, keep interface{}, capacity int) int {
	Point("len", nil)
	c := lookup(p, keep, capacity)
	if c == nil {
		return 0
	}
	return c.n
}

func NewOp(p unsafe.Pointer, keep interface{}, capacity int, send bool, v interface{}) *Op {
	return &Op{c: lookup(p, keep, capacity), send: send, v: v}
}

// Selected is the outcome of a select statement.
type Selected struct {
	I  int
	V  interface{}
	OK bool
}

func DoSelect(hasDefault bool, ops []*Op) *Selected {
	if w.dying {
		Point("select", func() bool { return false })
	}
	i, v, ok := doOps("select", ops, hasDefault)
	return &Selected{i, v, ok}
}

// trySend is used by timers: a non-blocking send without a scheduling point.
func trySend(c *vchan, v interface{}) {
	if c.closed {
		return
	}
	if c.cap > 0 && c.n < c.cap {
		i := (c.head + c.n) % c.cap
		c.buf[i] = v
		c.n++
	}
}
