package main

// A declarative description of the wire layout of every message body, with a reference
// encoder, a reference decoder and the value domain of every field. It is written from the
// field lists of JT/T 808 and does not share code with the implementation (except the
// GB18030 tables and the decimal type of third-party libraries).

import (
	"bytes"
	"compress/gzip"
	"crypto/rsa"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
	"golang.org/x/text/encoding/simplifiedchinese"
)

// ---------------------------------------------------------------- reference reader

type rd struct {
	b      []byte
	pos    int
	bad    bool // the layout says: refuse
	either bool // the layout does not decide (e.g. non-decimal BCD digits in a number)
}

func (r *rd) left() int { return len(r.b) - r.pos }
func (r *rd) take(n int) []byte {
	if r.bad || r.left() < n {
		r.bad = true
		return make([]byte, n)
	}
	p := r.b[r.pos : r.pos+n]
	r.pos += n
	return p
}
func (r *rd) u8() byte    { return r.take(1)[0] }
func (r *rd) u16() uint16 { p := r.take(2); return uint16(p[0])<<8 | uint16(p[1]) }
func (r *rd) u32() uint32 {
	p := r.take(4)
	return uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])
}
func (r *rd) rest() []byte { return r.take(r.left()) }

type wr struct{ bytes.Buffer }

func (w *wr) u8(b byte)    { w.WriteByte(b) }
func (w *wr) u16(n uint16) { w.Write([]byte{byte(n >> 8), byte(n)}) }
func (w *wr) u32(n uint32) { w.Write([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}) }
func (w *wr) fixed(b []byte, n int) {
	for i := 0; i < n; i++ {
		if i < len(b) {
			w.WriteByte(b[i])
		} else {
			w.WriteByte(0)
		}
	}
}

// ---------------------------------------------------------------- GB18030

func gbEnc(s string) []byte {
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

func gbDec(b []byte) string {
	s, err := simplifiedchinese.GB18030.NewDecoder().Bytes(b)
	if err != nil {
		panic(err)
	}
	return cutNul(string(s))
}

func cutNul(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return s[:i]
		}
	}
	return s
}

// ---------------------------------------------------------------- BCD

// digits of BCD bytes; ok=false if a nibble is not decimal
func nibbles(b []byte) (d []int, ok bool) {
	ok = true
	for _, x := range b {
		for _, n := range []byte{x >> 4, x & 15} {
			if n > 9 {
				ok = false
			}
			d = append(d, int(n))
		}
	}
	return
}

func num(d []int) int {
	n := 0
	for _, x := range d {
		n = n*10 + x
	}
	return n
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// zone is the local zone of the process, of no terminal in particular
var zone = time.FixedZone("vz", 5*3600+45*60)

// setLocal makes l the local zone, also for code that holds on to the value of time.Local.
func setLocal(l *time.Location) {
	time.Unix(0, 0).Local().Zone() // has the zone of the environment loaded before it is replaced
	*time.Local = *l
}

// summer is a zone an hour east of UTC, two from April to October of 2000 to 2037.
func summer() *time.Location {
	var w wr
	w.WriteString("TZif\x00")
	w.Write(make([]byte, 15))
	for _, n := range []uint32{0, 0, 0, 76, 2, 8} {
		w.u32(n)
	}
	for y := 2000; y < 2038; y++ {
		w.u32(uint32(time.Date(y, 4, 1, 1, 0, 0, 0, time.UTC).Unix()))
		w.u32(uint32(time.Date(y, 10, 25, 1, 0, 0, 0, time.UTC).Unix()))
	}
	for y := 2000; y < 2038; y++ {
		w.Write([]byte{1, 0})
	}
	w.u32(3600)
	w.Write([]byte{0, 0})
	w.u32(7200)
	w.Write([]byte{1, 4})
	w.WriteString("WIN\x00SUM\x00")
	l, err := time.LoadLocationFromTZData("summer", w.Bytes())
	if err != nil {
		panic(err)
	}
	for m := 1; m <= 12; m++ {
		want := 3600
		if m > 3 && m < 11 {
			want = 7200
		}
		if _, off := time.Date(2021, time.Month(m), 26, 0, 0, 0, 0, l).Zone(); off != want && m != 10 {
			panic("zone")
		}
	}
	return l
}

func (r *rd) time6() time.Time {
	d, ok := nibbles(r.take(6))
	if r.bad {
		return time.Time{}
	}
	y, mo, da, h, mi, s := 2000+num(d[0:2]), num(d[2:4]), num(d[4:6]), num(d[6:8]), num(d[8:10]), num(d[10:12])
	if !ok || mo < 1 || mo > 12 || da < 1 || da > daysIn(y, mo) || h > 23 || mi > 59 || s > 59 {
		r.bad = true
		return time.Time{}
	}
	return time.Date(y, time.Month(mo), da, h, mi, s, 0, time.Local)
}

func (r *rd) date4() time.Time {
	d, ok := nibbles(r.take(4))
	if r.bad {
		return time.Time{}
	}
	y, mo, da := num(d[0:4]), num(d[4:6]), num(d[6:8])
	if !ok || mo < 1 || mo > 12 || da < 1 || da > daysIn(y, mo) {
		r.bad = true
		return time.Time{}
	}
	if y < 1000 {
		r.either = true
	}
	return time.Date(y, time.Month(mo), da, 0, 0, 0, 0, time.Local)
}

func (w *wr) time6(t time.Time) {
	t = t.In(time.Local)
	for _, n := range []int{t.Year() % 100, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second()} {
		w.u8(byte(n/10)<<4 | byte(n%10))
	}
}

// ---------------------------------------------------------------- leaves and nodes

// A leaf is one independently variable part of a message value. Full enumerates its whole
// bounded domain, small a handful of discriminating values.
type leaf struct {
	name     string
	n        int
	set      func(root reflect.Value, i int)
	smallN   int
	setSmall func(root reflect.Value, i int)
}

type access func(root reflect.Value) reflect.Value // root struct -> container struct

type node interface {
	enc(v reflect.Value, w *wr)
	dec(r *rd, v reflect.Value)
	norm(v reflect.Value) // what the wire format itself normalises (hemisphere bits, ...)
	fix(v reflect.Value)  // makes a generated value representable
	leaves(prefix string, a access, deep bool) []leaf
}

type base struct{}

func (base) norm(reflect.Value) {}
func (base) fix(reflect.Value)  {}

// sub-structure helper
func encAll(ns []node, v reflect.Value, w *wr) {
	for _, n := range ns {
		n.enc(v, w)
	}
}
func decAll(ns []node, r *rd, v reflect.Value) {
	for _, n := range ns {
		if r.bad {
			return
		}
		n.dec(r, v)
	}
}

// ---- integers

type intNode struct {
	base
	f string
	w int
}

func U8(f string) node  { return intNode{f: f, w: 1} }
func U16(f string) node { return intNode{f: f, w: 2} }
func U32(f string) node { return intNode{f: f, w: 4} }

func (n intNode) enc(v reflect.Value, w *wr) {
	x := v.FieldByName(n.f).Uint()
	for i := n.w - 1; i >= 0; i-- {
		w.u8(byte(x >> (8 * i)))
	}
}
func (n intNode) dec(r *rd, v reflect.Value) {
	var x uint64
	for _, b := range r.take(n.w) {
		x = x<<8 | uint64(b)
	}
	v.FieldByName(n.f).SetUint(x)
}

var u32dom = func() []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(x uint64) {
		x &= 0xffffffff
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for pos := 0; pos < 4; pos++ {
		for b := 0; b < 256; b++ {
			add(uint64(b) << (8 * pos))
			add(0x01020304&^(0xff<<(8*pos)) | uint64(b)<<(8*pos))
			add(0xffffffff&^(0xff<<(8*pos)) | uint64(b)<<(8*pos))
		}
	}
	for k := 0; k < 32; k++ {
		for d := -2; d <= 2; d++ {
			add(uint64(int64(1)<<k + int64(d)))
		}
	}
	return out
}()

var u16bound = func() []uint64 {
	var out []uint64
	for b := uint64(0); b < 256; b++ {
		out = append(out, b, b<<8, 0x0102&^0xff|b, b<<8|2)
	}
	return out
}()

var smallU = map[int][]uint64{
	1: {0x01, 0x7e, 0x00, 0xff, 0x7d, 0x80},
	2: {0x0102, 0x7e7d, 0x0000, 0xffff, 0x8001, 0x00ff},
	4: {0x01020304, 0x7e7d7c7b, 0x00000000, 0xffffffff, 0x80000001, 0x00ff00ff},
}

func (n intNode) leaves(p string, a access, deep bool) []leaf {
	var dom []uint64
	cnt := 0
	switch n.w {
	case 1:
		cnt = 256
	case 2:
		cnt = 65536
		if !deep {
			dom, cnt = u16bound, len(u16bound)
		}
	case 4:
		dom, cnt = u32dom, len(u32dom)
	}
	sm := smallU[n.w]
	return []leaf{{p + n.f, cnt, func(root reflect.Value, i int) {
		x := uint64(i)
		if dom != nil {
			x = dom[i]
		}
		a(root).FieldByName(n.f).SetUint(x)
	}, len(sm), func(root reflect.Value, i int) { a(root).FieldByName(n.f).SetUint(sm[i%len(sm)]) }}}
}

// ---- byte arrays and byte slices to the end of the body

type arrNode struct {
	base
	f string
	n int
}

func Arr(f string, n int) node { return arrNode{f: f, n: n} }
func (n arrNode) enc(v reflect.Value, w *wr) {
	for i := 0; i < n.n; i++ {
		w.u8(byte(v.FieldByName(n.f).Index(i).Uint()))
	}
}
func (n arrNode) dec(r *rd, v reflect.Value) {
	for i, b := range r.take(n.n) {
		v.FieldByName(n.f).Index(i).SetUint(uint64(b))
	}
}
func (n arrNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, i int) {
		f := a(root).FieldByName(n.f)
		for k := 0; k < n.n; k++ {
			f.Index(k).SetUint(uint64(byte(i/256*(k+1)*37 + k + 1)))
		}
		f.Index(i / 256 % n.n).SetUint(uint64(byte(i)))
	}
	return []leaf{{p + n.f, 256 * n.n, set, 4, func(root reflect.Value, i int) { set(root, i*259+i) }}}
}

type restNode struct {
	base
	f string
}

func Rest(f string) node { return restNode{f: f} }
func (n restNode) enc(v reflect.Value, w *wr) {
	w.Write(v.FieldByName(n.f).Bytes())
}
func (n restNode) dec(r *rd, v reflect.Value) {
	v.FieldByName(n.f).SetBytes(append([]byte{}, r.rest()...))
}
func pattern(k, l int) []byte {
	out := make([]byte, l)
	for i := range out {
		switch k % 4 {
		case 0:
			out[i] = byte(i*7 + i/256 + 1)
		case 1:
			out[i] = 0
		case 2:
			out[i] = 0x7e - byte(i%2)
		case 3:
			out[i] = 0xff
		}
	}
	return out
}
func (n restNode) leaves(p string, a access, deep bool) []leaf {
	return []leaf{{p + n.f, 256 + 1000*2, func(root reflect.Value, i int) {
		f := a(root).FieldByName(n.f)
		if i < 256 {
			f.SetBytes([]byte{byte(i)})
		} else {
			f.SetBytes(pattern((i-256)/1000*2, (i-256)%1000))
		}
	}, 6, func(root reflect.Value, i int) {
		a(root).FieldByName(n.f).SetBytes([][]byte{{1, 2, 3}, {}, {0}, {0x7e, 0x7d, 1, 2}, {0, 0, 0xff}, pattern(0, 300)}[i])
	}}}
}

// ---- strings

type strKind int

const (
	fixRaw strKind = iota // BYTE[n], cut and zero padded, raw bytes
	fixGB                 // BYTE[n], GB18030
	restGB                // STRING to the end of the body
	len8GB                // BYTE length + STRING
	len16GB               // WORD length + STRING
	len8Raw               // BYTE length + raw bytes
)

type strNode struct {
	base
	f    string
	kind strKind
	n    int // width, or longest length that keeps the body in bounds
}

func FixRaw(f string, n int) node   { return strNode{f: f, kind: fixRaw, n: n} }
func FixGB(f string, n int) node    { return strNode{f: f, kind: fixGB, n: n} }
func RestGB(f string, max int) node { return strNode{f: f, kind: restGB, n: max} }
func L8GB(f string) node            { return strNode{f: f, kind: len8GB, n: 255} }
func L16GB(f string, max int) node  { return strNode{f: f, kind: len16GB, n: max} }
func L8Raw(f string) node           { return strNode{f: f, kind: len8Raw, n: 255} }

func (n strNode) raw() bool { return n.kind == fixRaw || n.kind == len8Raw }
func (n strNode) wire(s string) []byte {
	if n.raw() {
		return []byte(s)
	}
	return gbEnc(s)
}
func (n strNode) text(b []byte) string {
	if n.raw() {
		return cutNul(string(b))
	}
	return gbDec(b)
}
func (n strNode) enc(v reflect.Value, w *wr) {
	b := n.wire(v.FieldByName(n.f).String())
	switch n.kind {
	case fixRaw, fixGB:
		w.fixed(b, n.n)
	case restGB:
		w.Write(b)
	case len8GB, len8Raw:
		if len(b) > 255 {
			panic("reference: string too long")
		}
		w.u8(byte(len(b)))
		w.Write(b)
	case len16GB:
		w.u16(uint16(len(b)))
		w.Write(b)
	}
}
func (n strNode) dec(r *rd, v reflect.Value) {
	var b []byte
	switch n.kind {
	case fixRaw, fixGB:
		b = r.take(n.n)
	case restGB:
		b = r.rest()
	case len8GB, len8Raw:
		b = r.take(int(r.u8()))
	case len16GB:
		b = r.take(int(r.u16()))
	}
	if r.bad {
		return
	}
	v.FieldByName(n.f).SetString(n.text(b))
}

// text of exactly l encoded bytes, in flavour k
func sampleText(k, l int, raw bool) string {
	ascii := "Ab3-xYz90~ !"
	two := []rune("京粤浙津冀晋蒙辽吉黑") // 2 bytes each
	four := []rune{0x20087, 0x9fb4 + 0, 0x1f600, 0x0e01, 0xe7}
	out := []rune{}
	n := 0
	for n < l {
		var c rune
		switch k % 4 {
		case 0:
			c = rune(ascii[(n+k)%len(ascii)])
		case 1:
			c = two[(n/2)%len(two)]
		case 2:
			c = four[(n/4)%len(four)]
		case 3:
			if n%3 == 0 {
				c = two[n%len(two)]
			} else {
				c = rune(ascii[n%len(ascii)])
			}
		}
		w := len(string(c))
		if !raw {
			w = len(gbEnc(string(c)))
		}
		if n+w > l {
			c, w = 'q', 1
		}
		out = append(out, c)
		n += w
	}
	return string(out)
}

func (n strNode) leaves(p string, a access, deep bool) []leaf {
	lens := n.n + 1
	sm := []string{"A1", "", sampleText(0, n.n, n.raw()), sampleText(1, min(n.n, 8), n.raw()), sampleText(3, min(n.n, 7), n.raw()), sampleText(2, min(n.n, 5), n.raw())}
	return []leaf{{p + n.f, lens * 4, func(root reflect.Value, i int) {
		a(root).FieldByName(n.f).SetString(sampleText(i/lens, i%lens, n.raw()))
	}, len(sm), func(root reflect.Value, i int) {
		a(root).FieldByName(n.f).SetString(sm[i%len(sm)])
	}}}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- times

type timeNode struct {
	base
	f    string
	date bool
}

func Time6(f string) node { return timeNode{f: f} }
func Date4(f string) node { return timeNode{f: f, date: true} }
func (n timeNode) enc(v reflect.Value, w *wr) {
	t := v.FieldByName(n.f).Interface().(time.Time)
	if !n.date {
		w.time6(t)
		return
	}
	for _, x := range []int{t.Year() / 100, t.Year() % 100, int(t.Month()), t.Day()} {
		w.u8(byte(x/10)<<4 | byte(x%10))
	}
}
func (n timeNode) dec(r *rd, v reflect.Value) {
	var t time.Time
	if n.date {
		t = r.date4()
	} else {
		t = r.time6()
	}
	v.FieldByName(n.f).Set(reflect.ValueOf(t))
}
func timeAt(i int) time.Time {
	if i < 36525 {
		return time.Date(2000, 1, 1+i, 12, 34, 56, 0, time.Local)
	}
	i -= 36525
	return time.Date(2020, 2, 29, 0, 0, i, 0, time.Local)
}

var timeSmall = []time.Time{
	time.Date(2021, 3, 4, 5, 6, 7, 0, zone), time.Date(2000, 1, 1, 0, 0, 0, 0, zone), time.Date(2099, 12, 31, 23, 59, 59, 0, zone),
	time.Date(2022, 12, 31, 20, 30, 40, 0, time.UTC), time.Date(2019, 7, 1, 3, 0, 1, 0, time.FixedZone("other", -7*3600)),
	time.Date(2020, 2, 29, 10, 20, 30, 0, zone), time.Date(2009, 9, 9, 9, 9, 9, 0, zone), time.Date(2010, 10, 10, 0, 0, 59, 0, zone),
}

func (n timeNode) leaves(p string, a access, deep bool) []leaf {
	cnt := 36525 + 86400
	if !deep {
		cnt = 36525
	}
	if n.date {
		cnt = 36525
	}
	set := func(root reflect.Value, t time.Time) {
		if n.date {
			t = t.In(time.Local)
			t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.Local)
		}
		a(root).FieldByName(n.f).Set(reflect.ValueOf(t))
	}
	return []leaf{{p + n.f, cnt, func(root reflect.Value, i int) { set(root, timeAt(i)) },
		len(timeSmall), func(root reflect.Value, i int) { set(root, timeSmall[i%len(timeSmall)]) }}}
}

// ---- coordinates: a group of latitudes and longitudes whose hemisphere is in an attribute

var million = decimal.New(1000000, 0)

func geoMag(d decimal.Decimal) uint32 {
	return uint32(d.Abs().Mul(million).IntPart())
}
func geoVal(u uint32, neg bool) decimal.Decimal {
	v := decimal.New(int64(u), -6)
	if neg {
		v = v.Neg()
	}
	return v
}

type hemi struct {
	attr     string
	southBit uint
	westBit  uint
	lats     func(v reflect.Value) []reflect.Value
	lngs     func(v reflect.Value) []reflect.Value
}

func fieldsOf(names ...string) func(v reflect.Value) []reflect.Value {
	return func(v reflect.Value) []reflect.Value {
		var out []reflect.Value
		for _, n := range names {
			out = append(out, v.FieldByName(n))
		}
		return out
	}
}

func anyNeg(vs []reflect.Value) (neg, pos bool) {
	for _, v := range vs {
		s := v.Interface().(decimal.Decimal).Sign()
		neg = neg || s < 0
		pos = pos || s > 0
	}
	return
}

func (h hemi) fixV(v reflect.Value) {
	for i, vs := range [][]reflect.Value{h.lats(v), h.lngs(v)} {
		bit := h.southBit
		if i == 1 {
			bit = h.westBit
		}
		neg, pos := anyNeg(vs)
		at := v.FieldByName(h.attr)
		if neg {
			for _, x := range vs {
				x.Set(reflect.ValueOf(x.Interface().(decimal.Decimal).Abs().Neg()))
			}
		} else if pos {
			at.SetUint(at.Uint() &^ (1 << bit))
		}
	}
}
func (h hemi) normV(v reflect.Value) {
	at := v.FieldByName(h.attr)
	if neg, _ := anyNeg(h.lats(v)); neg {
		at.SetUint(at.Uint() | 1<<h.southBit)
	}
	if neg, _ := anyNeg(h.lngs(v)); neg {
		at.SetUint(at.Uint() | 1<<h.westBit)
	}
}
func (h hemi) bits(v reflect.Value) (south, west bool) {
	x := v.FieldByName(h.attr).Uint()
	return x>>h.southBit&1 == 1, x>>h.westBit&1 == 1
}

// attrNode writes the attribute with the hemisphere bits implied by the coordinates.
type attrNode struct {
	base
	h hemi
	w int
}

func (n attrNode) enc(v reflect.Value, w *wr) {
	x := v.FieldByName(n.h.attr).Uint()
	if neg, _ := anyNeg(n.h.lats(v)); neg {
		x |= 1 << n.h.southBit
	}
	if neg, _ := anyNeg(n.h.lngs(v)); neg {
		x |= 1 << n.h.westBit
	}
	for i := n.w - 1; i >= 0; i-- {
		w.u8(byte(x >> (8 * i)))
	}
}
func (n attrNode) dec(r *rd, v reflect.Value)  { intNode{f: n.h.attr, w: n.w}.dec(r, v) }
func (n attrNode) norm(v reflect.Value)        { n.h.normV(v) }
func (n attrNode) fix(v reflect.Value)         { n.h.fixV(v) }
func (n attrNode) leaves(p string, a access, deep bool) []leaf {
	ls := intNode{f: n.h.attr, w: n.w}.leaves(p, a, deep)
	flip := func(which int) leaf {
		set := func(root reflect.Value, i int) {
			v := a(root)
			vs := n.h.lats(v)
			bit := n.h.southBit
			if which == 1 {
				vs, bit = n.h.lngs(v), n.h.westBit
			}
			for _, x := range vs {
				d := x.Interface().(decimal.Decimal).Abs()
				if i >= 1 {
					d = d.Neg()
				}
				x.Set(reflect.ValueOf(d))
			}
			at := v.FieldByName(n.h.attr)
			if i == 2 {
				at.SetUint(at.Uint() | 1<<bit)
			} else {
				at.SetUint(at.Uint() &^ (1 << bit))
			}
		}
		return leaf{fmt.Sprintf("%shemisphere%d", p, which), 3, set, 3, set}
	}
	return append(ls, flip(0), flip(1))
}

// geoNode is one coordinate on the wire: the magnitude.
type geoNode struct {
	base
	f   string
	h   *hemi // nil: sign applied by an enclosing custom node
	lng bool
}

var geoDom = func() []uint32 {
	out := []uint32{}
	for i := 0; i <= 720; i++ {
		out = append(out, uint32(i)*250000)
	}
	for i := uint32(0); i <= 300; i++ {
		out = append(out, i, 89999900+i, 179999900+i, 4294967295-i)
	}
	for _, x := range u32dom {
		out = append(out, uint32(x))
	}
	return out
}()

func (n geoNode) enc(v reflect.Value, w *wr) {
	w.u32(geoMag(v.FieldByName(n.f).Interface().(decimal.Decimal)))
}
func (n geoNode) dec(r *rd, v reflect.Value) {
	u := r.u32()
	neg := false
	if n.h != nil {
		s, w := n.h.bits(v)
		neg = s
		if n.lng {
			neg = w
		}
	}
	v.FieldByName(n.f).Set(reflect.ValueOf(geoVal(u, neg)))
}
func (n geoNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, u uint32) {
		f := a(root).FieldByName(n.f)
		neg := f.Interface().(decimal.Decimal).Sign() < 0
		f.Set(reflect.ValueOf(geoVal(u, neg)))
	}
	sm := []uint32{23117001, 0, 1, 90000000, 4294967295, 117999999}
	return []leaf{{p + n.f, len(geoDom), func(root reflect.Value, i int) { set(root, geoDom[i]) },
		len(sm), func(root reflect.Value, i int) { set(root, sm[i%len(sm)]) }}}
}

// ---- optional group, present when a bit of an (already decoded) attribute is set

type optNode struct {
	f   string // attribute field
	bit uint
	ns  []node
}

func (n optNode) on(v reflect.Value) bool { return v.FieldByName(n.f).Uint()>>n.bit&1 == 1 }
func (n optNode) enc(v reflect.Value, w *wr) {
	if n.on(v) {
		encAll(n.ns, v, w)
	}
}
func (n optNode) dec(r *rd, v reflect.Value) {
	if n.on(v) {
		decAll(n.ns, r, v)
	}
}
func (n optNode) norm(v reflect.Value) {
	if !n.on(v) {
		zero := reflect.New(v.Type()).Elem()
		for _, s := range n.ns {
			var f string
			switch s := s.(type) {
			case intNode:
				f = s.f
			case timeNode:
				f = s.f
			default:
				panic("optNode: unsupported member")
			}
			v.FieldByName(f).Set(zero.FieldByName(f))
		}
	}
}
func (n optNode) fix(v reflect.Value) {}
func (n optNode) leaves(p string, a access, deep bool) []leaf {
	var out []leaf
	for _, s := range n.ns {
		for _, l := range s.leaves(p, a, deep) {
			l := l
			on := func(root reflect.Value) {
				at := a(root).FieldByName(n.f)
				at.SetUint(at.Uint() | 1<<n.bit)
			}
			set, sset := l.set, l.setSmall
			l.set = func(root reflect.Value, i int) { on(root); set(root, i) }
			l.setSmall = func(root reflect.Value, i int) { sset(root, i) }
			out = append(out, l)
		}
	}
	return out
}

// ---- nested structure in a field

type structNode struct {
	f  string
	ns []node
	// size>0: the nested structure gets exactly this many bytes
	size int
}

func (n structNode) enc(v reflect.Value, w *wr) { encAll(n.ns, v.FieldByName(n.f), w) }
func (n structNode) dec(r *rd, v reflect.Value) {
	if n.size > 0 {
		sub := rd{b: r.take(n.size)}
		if r.bad {
			return
		}
		decAll(n.ns, &sub, v.FieldByName(n.f))
		r.bad, r.either = r.bad || sub.bad, r.either || sub.either
		return
	}
	decAll(n.ns, r, v.FieldByName(n.f))
}
func (n structNode) norm(v reflect.Value) {
	for _, s := range n.ns {
		s.norm(v.FieldByName(n.f))
	}
}
func (n structNode) fix(v reflect.Value) {
	for _, s := range n.ns {
		s.fix(v.FieldByName(n.f))
	}
}
func (n structNode) leaves(p string, a access, deep bool) []leaf {
	var out []leaf
	b := func(root reflect.Value) reflect.Value { return a(root).FieldByName(n.f) }
	for _, s := range n.ns {
		out = append(out, s.leaves(p+n.f+".", b, false)...)
	}
	return out
}

// ---- lists

type listKind int

const (
	cnt8    listKind = iota // BYTE count
	cnt16                   // WORD count
	toEnd                   // no count: items until the end of the body
	optCnt8                 // BYTE count, absent for the empty list
)

type listNode struct {
	f     string
	kind  listKind
	ns    []node // item layout; nil: plain integers of width w
	w     int
	max   int // longest list that keeps the body within 1023 bytes with small items
	lenOf int // 2: each item is preceded by its WORD length
	// a field written between count and items (0x0704 puts Type there)
	mid []node
}

func (n listNode) items(v reflect.Value) reflect.Value { return v.FieldByName(n.f) }
func (n listNode) encItem(e reflect.Value, w *wr) {
	if n.ns == nil {
		x := e.Uint()
		for i := n.w - 1; i >= 0; i-- {
			w.u8(byte(x >> (8 * i)))
		}
		return
	}
	if n.lenOf == 2 {
		var sub wr
		encAll(n.ns, e, &sub)
		w.u16(uint16(sub.Len()))
		w.Write(sub.Bytes())
		return
	}
	encAll(n.ns, e, w)
}
func (n listNode) enc(v reflect.Value, w *wr) {
	s := n.items(v)
	switch n.kind {
	case cnt8, optCnt8:
		if s.Len() > 255 {
			panic("reference: list too long")
		}
		if n.kind == optCnt8 && s.Len() == 0 {
			return
		}
		w.u8(byte(s.Len()))
	case cnt16:
		w.u16(uint16(s.Len()))
	}
	encAll(n.mid, v, w)
	for i := 0; i < s.Len(); i++ {
		n.encItem(s.Index(i), w)
	}
}
func (n listNode) dec(r *rd, v reflect.Value) {
	count := 0
	switch n.kind {
	case cnt8:
		count = int(r.u8())
	case optCnt8:
		if r.left() == 0 {
			return
		}
		count = int(r.u8())
	case cnt16:
		count = int(r.u16())
	case toEnd:
		count = 1 << 30
	}
	decAll(n.mid, r, v)
	s := n.items(v)
	for i := 0; i < count && !r.bad; i++ {
		if n.kind == toEnd && r.left() == 0 {
			break
		}
		e := reflect.New(s.Type().Elem()).Elem()
		if n.ns == nil {
			var x uint64
			for _, b := range r.take(n.w) {
				x = x<<8 | uint64(b)
			}
			e.SetUint(x)
		} else if n.lenOf == 2 {
			sub := rd{b: r.take(int(r.u16()))}
			if r.bad {
				return
			}
			decAll(n.ns, &sub, e)
			r.bad, r.either = r.bad || sub.bad, r.either || sub.either
		} else {
			decAll(n.ns, r, e)
		}
		if !r.bad {
			s.Set(reflect.Append(s, e))
		}
	}
}
func (n listNode) norm(v reflect.Value) {
	for _, m := range n.mid {
		m.norm(v)
	}
	for i := 0; i < n.items(v).Len(); i++ {
		for _, s := range n.ns {
			s.norm(n.items(v).Index(i))
		}
	}
}
func (n listNode) fix(v reflect.Value) {
	for i := 0; i < n.items(v).Len(); i++ {
		for _, s := range n.ns {
			s.fix(n.items(v).Index(i))
		}
	}
}
func (n listNode) fill(v reflect.Value, l, variant int) {
	s := n.items(v)
	out := reflect.MakeSlice(s.Type(), l, l)
	for i := 0; i < l; i++ {
		if n.ns == nil {
			out.Index(i).SetUint((uint64(i+1)*0x01010203 + uint64(variant)*0x7e7d) & (1<<(8*n.w) - 1))
			continue
		}
		k := i + variant
		for _, m := range n.ns {
			for _, lf := range m.leaves("", func(root reflect.Value) reflect.Value { return root }, false) {
				// keep long lists small: only short values
				idx := k % lf.smallN
				if l > 3 && lf.smallN == 6 {
					idx = k % 2
				}
				lf.setSmall(out.Index(i), idx)
				k++
			}
		}
	}
	s.Set(out)
}
func (n listNode) leaves(p string, a access, deep bool) []leaf {
	var out []leaf
	for _, m := range n.mid {
		out = append(out, m.leaves(p, a, deep)...)
	}
	lens := n.max + 1
	out = append(out, leaf{p + "len(" + n.f + ")", lens * 3, func(root reflect.Value, i int) {
		n.fill(a(root), i%lens, i/lens)
	}, 5, func(root reflect.Value, i int) {
		n.fill(a(root), min(n.max, []int{2, 0, 1, 3, 3}[i]), i)
	}})
	// lists too long for one message, which the body codecs carry all the same
	var long []int
	for _, l := range []int{n.max + 1, 2*n.max - 1, 2 * n.max, 64, 65, 100, 128, 129, 200, 254, 255, 256, 257, 300, 512, 1000} {
		if l > n.max && (l <= 255 || n.kind == cnt16 || n.kind == toEnd) {
			long = append(long, l)
		}
	}
	if len(long) > 0 {
		out = append(out, leaf{p + "long(" + n.f + ")", len(long), func(root reflect.Value, i int) {
			n.fill(a(root), long[i], i)
		}, 1, func(reflect.Value, int) {}})
	}
	// every leaf of an item, in the first and the last of three items
	for _, pos := range []int{0, 2} {
		pos := pos
		if pos >= n.max {
			continue
		}
		if n.ns == nil {
			in := intNode{w: n.w, f: "x"}
			for _, l := range in.leaves("", nil, false) {
				dom := u32dom
				if n.w == 2 {
					dom = u16bound
				}
				sm := smallU[n.w]
				set := func(root reflect.Value, x uint64) {
					if n.items(a(root)).Len() < 3 {
						n.fill(a(root), 3, 0)
					}
					n.items(a(root)).Index(pos).SetUint(x)
				}
				_ = l
				out = append(out, leaf{fmt.Sprintf("%s%s[%d]", p, n.f, pos), len(dom), func(root reflect.Value, i int) { set(root, dom[i]) },
					len(sm), func(root reflect.Value, i int) { set(root, sm[i]) }})
			}
			continue
		}
		b := func(root reflect.Value) reflect.Value {
			if n.items(a(root)).Len() <= pos {
				n.fill(a(root), min(3, n.max), 0)
			}
			return n.items(a(root)).Index(pos)
		}
		for _, m := range n.ns {
			out = append(out, m.leaves(fmt.Sprintf("%s%s[%d].", p, n.f, pos), b, false)...)
		}
	}
	return out
}

// ---- special fields

// terminal parameters: []*protocol.Param
type paramsNode struct{ base }

func (paramsNode) enc(v reflect.Value, w *wr) {
	ps := v.FieldByName("Params").Interface().([]*protocol.Param)
	w.u8(byte(len(ps)))
	for _, p := range ps {
		b, _ := p.GetBytes()
		w.u32(p.ID())
		w.u8(byte(len(b)))
		w.Write(b)
	}
}
func (paramsNode) dec(r *rd, v reflect.Value) {
	count := int(r.u8())
	var ps []*protocol.Param
	for i := 0; i < count && !r.bad; i++ {
		id := r.u32()
		b := r.take(int(r.u8()))
		if !r.bad {
			ps = append(ps, new(protocol.Param).SetBytes(id, b))
		}
	}
	v.FieldByName("Params").Set(reflect.ValueOf(ps))
}
func mkParams(l, variant, vlen int) []*protocol.Param {
	ps := []*protocol.Param{}
	for i := 0; i < l; i++ {
		n := vlen
		if vlen < 0 {
			n = (i + variant) % 6
		}
		ps = append(ps, new(protocol.Param).SetBytes(uint32(i*0x01010101+variant), pattern(i+variant, n)))
	}
	return ps
}
func (paramsNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, ps []*protocol.Param) { a(root).FieldByName("Params").Set(reflect.ValueOf(ps)) }
	return []leaf{
		{p + "Params#", 101 * 3, func(root reflect.Value, i int) { set(root, mkParams(i%101, i/101, -1)) },
			5, func(root reflect.Value, i int) { set(root, mkParams([]int{2, 0, 1, 3, 4}[i], i, -1)) }},
		{p + "Params#empty", 204, func(root reflect.Value, i int) { set(root, mkParams(i, 0, 0)) }, 1, func(root reflect.Value, i int) {}},
		{p + "Params.len", 256 * 4, func(root reflect.Value, i int) {
			ps := mkParams(3, 0, -1)
			b := pattern(i/256, i%256)
			ps[1] = new(protocol.Param).SetBytes(0x12345678, b)
			set(root, ps)
		}, 1, func(root reflect.Value, i int) {}},
		{p + "Params.id", len(u32dom), func(root reflect.Value, i int) {
			ps := mkParams(2, 0, -1)
			ps[0] = new(protocol.Param).SetBytes(uint32(u32dom[i]), []byte{1, 2})
			set(root, ps)
		}, 1, func(root reflect.Value, i int) {}},
	}
}

// SIM number: BCD[10]
type simNode struct{ base }

func (simNode) enc(v reflect.Value, w *wr) {
	s := v.FieldByName("Sim").String()
	for len(s) < 20 {
		s = "0" + s
	}
	for i := 0; i < 20; i += 2 {
		w.u8((s[i]-'0')<<4 | (s[i+1] - '0'))
	}
}
func (simNode) dec(r *rd, v reflect.Value) {
	d, ok := nibbles(r.take(10))
	if !ok {
		r.either = true
	}
	s := ""
	for _, x := range d {
		s += string(rune('0' + x))
	}
	for len(s) > 0 && s[0] == '0' {
		s = s[1:]
	}
	v.FieldByName("Sim").SetString(s)
}
func (simNode) leaves(p string, a access, deep bool) []leaf {
	mk := func(i int) string {
		l := i % 21
		out := []byte{}
		for k := 0; k < l; k++ {
			switch i / 21 {
			case 0:
				out = append(out, byte('1'+k%9))
			case 1:
				out = append(out, "90"[k%2])
			case 2:
				if k == 0 {
					out = append(out, '1')
				} else {
					out = append(out, '0')
				}
			default:
				out = append(out, '9')
			}
		}
		return string(out)
	}
	return []leaf{{p + "Sim", 84, func(root reflect.Value, i int) { a(root).FieldByName("Sim").SetString(mk(i)) },
		4, func(root reflect.Value, i int) { a(root).FieldByName("Sim").SetString(mk([]int{11, 20, 41, 5}[i])) }}}
}

// time of day with milliseconds: BCD[5] hh mm ss mmmm
type clockNode struct{ base }

func (clockNode) enc(v reflect.Value, w *wr) {
	d := time.Duration(v.FieldByName("ReceiveTime").Int())
	ms := int(d / time.Millisecond)
	h, m, s, ms := ms/3600000, ms/60000%60, ms/1000%60, ms%1000
	for _, x := range []int{h, m, s, ms / 100, ms % 100} {
		w.u8(byte(x/10)<<4 | byte(x%10))
	}
}
func (clockNode) dec(r *rd, v reflect.Value) {
	d, ok := nibbles(r.take(5))
	if r.bad {
		return
	}
	if !ok {
		r.either = true
	}
	x := time.Duration(num(d[0:2]))*time.Hour + time.Duration(num(d[2:4]))*time.Minute +
		time.Duration(num(d[4:6]))*time.Second + time.Duration(num(d[6:10]))*time.Millisecond
	v.FieldByName("ReceiveTime").SetInt(int64(x))
}
func (clockNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, d time.Duration) { a(root).FieldByName("ReceiveTime").SetInt(int64(d)) }
	return []leaf{{p + "ReceiveTime", 86400 + 1000, func(root reflect.Value, i int) {
		if i < 86400 {
			set(root, time.Duration(i)*time.Second+time.Duration(i%1000)*time.Millisecond)
		} else {
			set(root, 11*time.Hour+time.Duration(i-86400)*time.Millisecond)
		}
	}, 5, func(root reflect.Value, i int) {
		set(root, []time.Duration{13*time.Hour + 14*time.Minute + 15*time.Second + 678*time.Millisecond, 0, 24*time.Hour - time.Millisecond, time.Millisecond, 10 * time.Hour}[i])
	}}}
}

// multimedia data: the rest of the body, as a reader
type packetNode struct{ base }

func (packetNode) enc(v reflect.Value, w *wr) { w.Write(readerBytes(v.FieldByName("Packet"))) }
func (packetNode) dec(r *rd, v reflect.Value) {
	v.FieldByName("Packet").Set(reflect.ValueOf(bytes.NewReader(append([]byte{}, r.rest()...))))
}
func (packetNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, b []byte) {
		a(root).FieldByName("Packet").Set(reflect.ValueOf(bytes.NewReader(b)))
	}
	return []leaf{{p + "Packet", 980 * 2, func(root reflect.Value, i int) { set(root, pattern(i/980*2, i%980)) },
		3, func(root reflect.Value, i int) { set(root, pattern(0, []int{3, 0, 200}[i])) }}}
}

func readerBytes(v reflect.Value) []byte {
	if v.IsNil() {
		return nil
	}
	r, ok := v.Interface().(*bytes.Reader)
	if ok {
		b := make([]byte, r.Size())
		n, _ := r.ReadAt(b, 0)
		return b[int(r.Size())-min(int(r.Size()), r.Len()) : n]
	}
	b, _ := io.ReadAll(v.Interface().(io.Reader))
	return b
}

// compressed data: DWORD length + gzip stream
type gzipNode struct{ base }

func gz(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}
func (gzipNode) enc(v reflect.Value, w *wr) {
	c := gz(v.FieldByName("Uncompressed").Bytes())
	w.u32(uint32(len(c)))
	w.Write(c)
}
func (gzipNode) dec(r *rd, v reflect.Value) {
	n := r.u32()
	if r.bad || int64(n) > int64(r.left()) {
		r.bad = true
		return
	}
	z, err := gzip.NewReader(bytes.NewReader(r.take(int(n))))
	if err != nil {
		r.bad = true
		return
	}
	b, err := io.ReadAll(z)
	if err != nil {
		r.bad = true
		return
	}
	v.FieldByName("Uncompressed").SetBytes(b)
}
func (gzipNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, b []byte) { a(root).FieldByName("Uncompressed").SetBytes(b) }
	return []leaf{{p + "Uncompressed", 256 + 900 + 200, func(root reflect.Value, i int) {
		switch {
		case i < 256:
			set(root, []byte{byte(i)})
		case i < 256+900:
			set(root, pattern(0, i-256))
		default:
			set(root, pattern(1, (i-256-900)*500)) // long, highly compressible
		}
	}, 4, func(root reflect.Value, i int) { set(root, pattern(i, []int{10, 0, 255, 600}[i])) }}}
}

// RSA public key: DWORD exponent + BYTE[128] modulus
type keyNode struct{ base }

func (keyNode) enc(v reflect.Value, w *wr) {
	k := v.FieldByName("PublicKey").Interface().(*rsa.PublicKey)
	w.u32(uint32(k.E))
	w.Write(k.N.FillBytes(make([]byte, 128)))
}
func (keyNode) dec(r *rd, v reflect.Value) {
	e := r.u32()
	n := r.take(128)
	if r.bad {
		return
	}
	v.FieldByName("PublicKey").Set(reflect.ValueOf(&rsa.PublicKey{E: int(e), N: new(big.Int).SetBytes(n)}))
}
func (keyNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, e uint32, b []byte) {
		a(root).FieldByName("PublicKey").Set(reflect.ValueOf(&rsa.PublicKey{E: int(e), N: new(big.Int).SetBytes(b)}))
	}
	mod := func(pos int, x byte) []byte {
		b := pattern(0, 128)
		b[0] = 0xc3
		b[pos] = x
		if b[0] == 0 {
			b[0] = 1
		}
		return b
	}
	return []leaf{
		{p + "E", len(u32dom), func(root reflect.Value, i int) { set(root, uint32(u32dom[i]), mod(1, 9)) },
			3, func(root reflect.Value, i int) { set(root, []uint32{65537, 3, 0xffffffff}[i], mod(i, 0x7e)) }},
		{p + "N", 128 * 256, func(root reflect.Value, i int) { set(root, 65537, mod(i/256, byte(i))) }, 1, func(root reflect.Value, i int) {}},
	}
}

// location extras to the end of the location
type extrasNode struct{ base }

func (extrasNode) enc(v reflect.Value, w *wr) {
	for _, e := range v.FieldByName("Extras").Interface().([]extra.Entity) {
		b := refExtraData(e)
		w.u8(e.ID())
		w.u8(byte(len(b)))
		w.Write(b)
	}
}
func (extrasNode) dec(r *rd, v reflect.Value) {
	var out []extra.Entity
	for r.left() >= 2 && !r.bad {
		id := r.u8()
		b := r.take(int(r.u8()))
		if r.bad {
			return
		}
		e, known, ok := refExtra(id, b)
		if !known {
			continue
		}
		if !ok {
			r.bad = true
			return
		}
		out = append(out, e)
	}
	r.rest() // a lone trailing byte is ignored like other trailing bytes
	v.FieldByName("Extras").Set(reflect.ValueOf(out))
}
func (extrasNode) leaves(p string, a access, deep bool) []leaf {
	set := func(root reflect.Value, es []extra.Entity) { a(root).FieldByName("Extras").Set(reflect.ValueOf(es)) }
	dom := extraDomain()
	return []leaf{
		{p + "Extras(1)", len(dom), func(root reflect.Value, i int) { set(root, []extra.Entity{dom[i]}) },
			5, func(root reflect.Value, i int) { set(root, extraList([]int{0, 2, 12, 1, 5}[i], i)) }},
		{p + "Extras(n)", 101, func(root reflect.Value, i int) { set(root, extraList(i, i)) }, 1, func(root reflect.Value, i int) {}},
	}
}

// route section points (0x8606): sub-groups carried by pointers and flagged by attribute bits
type pointGroup struct {
	bit    uint
	fields []string
	widths []int
}

var pointGroups = []pointGroup{{0, []string{"TimeTooLong", "TimeTooShort"}, []int{2, 2}}, {1, []string{"MaxSpeed", "OverSpeedDuration"}, []int{2, 1}}}

func (g pointGroup) on(v reflect.Value) bool {
	for _, f := range g.fields {
		if v.FieldByName(f).IsNil() {
			return false
		}
	}
	return true
}

type pointAttrNode struct {
	base
	h hemi
}

func (n pointAttrNode) val(v reflect.Value) byte {
	x := v.FieldByName("Attribute").Uint()
	for _, g := range pointGroups {
		x &^= 1 << g.bit
		if g.on(v) {
			x |= 1 << g.bit
		}
	}
	if neg, _ := anyNeg(n.h.lats(v)); neg {
		x |= 1 << n.h.southBit
	}
	if neg, _ := anyNeg(n.h.lngs(v)); neg {
		x |= 1 << n.h.westBit
	}
	return byte(x)
}
func (n pointAttrNode) enc(v reflect.Value, w *wr) { w.u8(n.val(v)) }
func (n pointAttrNode) dec(r *rd, v reflect.Value) {
	v.FieldByName("Attribute").SetUint(uint64(r.u8()))
	s, w := n.h.bits(v)
	for i, f := range []string{"Lat", "Lng"} {
		if (i == 0 && s) || (i == 1 && w) {
			x := v.FieldByName(f)
			x.Set(reflect.ValueOf(x.Interface().(decimal.Decimal).Neg()))
		}
	}
}
func (n pointAttrNode) norm(v reflect.Value) { v.FieldByName("Attribute").SetUint(uint64(n.val(v))) }
func (n pointAttrNode) fix(v reflect.Value)  { n.h.fixV(v) }
func (n pointAttrNode) leaves(p string, a access, deep bool) []leaf {
	return attrNode{h: n.h, w: 1}.leaves(p, a, deep)
}

type pointOptNode struct {
	base
	g pointGroup
}

func (n pointOptNode) enc(v reflect.Value, w *wr) {
	if !n.g.on(v) {
		return
	}
	for i, f := range n.g.fields {
		x := v.FieldByName(f).Elem().Uint()
		for k := n.g.widths[i] - 1; k >= 0; k-- {
			w.u8(byte(x >> (8 * k)))
		}
	}
}
func (n pointOptNode) dec(r *rd, v reflect.Value) {
	if v.FieldByName("Attribute").Uint()>>n.g.bit&1 == 0 {
		return
	}
	for i, f := range n.g.fields {
		var x uint64
		for _, b := range r.take(n.g.widths[i]) {
			x = x<<8 | uint64(b)
		}
		p := reflect.New(v.FieldByName(f).Type().Elem())
		p.Elem().SetUint(x)
		v.FieldByName(f).Set(p)
	}
}
func (n pointOptNode) leaves(p string, a access, deep bool) []leaf {
	put := func(root reflect.Value, vals ...uint64) {
		v := a(root)
		for i, f := range n.g.fields {
			if vals == nil {
				v.FieldByName(f).Set(reflect.Zero(v.FieldByName(f).Type()))
				continue
			}
			p := reflect.New(v.FieldByName(f).Type().Elem())
			p.Elem().SetUint(vals[i])
			v.FieldByName(f).Set(p)
		}
	}
	var out []leaf
	for i, f := range n.g.fields {
		i := i
		dom := u16bound
		if n.g.widths[i] == 1 {
			dom = u16bound[:0:0]
			for k := uint64(0); k < 256; k++ {
				dom = append(dom, k)
			}
		}
		other := uint64(0x5a)
		out = append(out, leaf{p + f, len(dom), func(root reflect.Value, k int) {
			vals := []uint64{other, other}
			vals[i] = dom[k]
			put(root, vals...)
		}, 1, func(root reflect.Value, k int) {}})
	}
	sm := [][]uint64{nil, {0x0102, 0x7e}, {0, 0}}
	return append(out, leaf{fmt.Sprintf("%sgroup%d", p, n.g.bit), 3, func(root reflect.Value, i int) { put(root, sm[i]...) },
		3, func(root reflect.Value, i int) { put(root, sm[i%3]...) }})
}
