package main

// Reference model of the JT/T 808 frame, written from the protocol description and
// independent of the implementation's code.

import (
	"bytes"
	"errors"
	"fmt"
)

type refHeader struct {
	MsgID    uint16
	Prop     uint16
	Icc      uint64
	Serial   uint16
	HasPkt   bool
	Sum, Seq uint16
}

func bcdDigits(n uint64, digits int) []byte {
	out := make([]byte, digits/2)
	for i := digits - 1; i >= 0; i-- {
		d := byte(n % 10)
		n /= 10
		if i%2 == 1 {
			out[i/2] |= d
		} else {
			out[i/2] |= d << 4
		}
	}
	return out
}

func (h refHeader) bytes() []byte {
	out := []byte{byte(h.MsgID >> 8), byte(h.MsgID), byte(h.Prop >> 8), byte(h.Prop)}
	out = append(out, bcdDigits(h.Icc, 12)...)
	out = append(out, byte(h.Serial>>8), byte(h.Serial))
	if h.HasPkt {
		out = append(out, byte(h.Sum>>8), byte(h.Sum), byte(h.Seq>>8), byte(h.Seq))
	}
	return out
}

// refFrame frames raw header+body bytes: checksum, escaping, delimiters.
func refFrame(content []byte) []byte {
	sum := byte(0)
	for _, b := range content {
		sum ^= b
	}
	return refWrap(append(append([]byte{}, content...), sum))
}

// refWrap escapes and delimits content that already ends in a checksum byte.
func refWrap(content []byte) []byte {
	out := make([]byte, 0, len(content)+8)
	out = append(out, 0x7e)
	for _, b := range content {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 0x02)
		case 0x7d:
			out = append(out, 0x7d, 0x01)
		default:
			out = append(out, b)
		}
	}
	return append(out, 0x7e)
}

func refEncodeFrame(h refHeader, body []byte) []byte {
	h.Prop = h.Prop&^0x3ff | uint16(len(body))
	if h.HasPkt {
		h.Prop |= 1 << 13
	}
	return refFrame(append(h.bytes(), body...))
}

var errRef = errors.New("refused by reference")

// refUnframe parses a delimited frame. Interior delimiter bytes are data for the plain
// decoder only if they could not be produced by the stream splitter; the reference treats
// them as ordinary bytes, as an unescaped byte value cannot be told from data by layout.
func refUnframe(f []byte) (h refHeader, body []byte, err error) {
	if len(f) < 3 || f[0] != 0x7e || f[len(f)-1] != 0x7e {
		return h, nil, errRef
	}
	in := f[1 : len(f)-1]
	var c []byte
	for i := 0; i < len(in); i++ {
		if in[i] != 0x7d {
			c = append(c, in[i])
			continue
		}
		if i+1 >= len(in) {
			return h, nil, errRef
		}
		i++
		switch in[i] {
		case 0x01:
			c = append(c, 0x7d)
		case 0x02:
			c = append(c, 0x7e)
		default:
			return h, nil, errRef
		}
	}
	if len(c) < 13 {
		return h, nil, errRef
	}
	sum := byte(0)
	for _, b := range c {
		sum ^= b
	}
	if sum != 0 { // xor over content and checksum byte
		return h, nil, errRef
	}
	c = c[:len(c)-1]
	h.MsgID = uint16(c[0])<<8 | uint16(c[1])
	h.Prop = uint16(c[2])<<8 | uint16(c[3])
	for _, b := range c[4:10] {
		if b>>4 > 9 || b&15 > 9 {
			return h, nil, errRef
		}
		h.Icc = h.Icc*100 + uint64(b>>4)*10 + uint64(b&15)
	}
	h.Serial = uint16(c[10])<<8 | uint16(c[11])
	c = c[12:]
	if h.Prop&(1<<13) != 0 {
		if len(c) < 4 {
			return h, nil, errRef
		}
		h.HasPkt = true
		h.Sum = uint16(c[0])<<8 | uint16(c[1])
		h.Seq = uint16(c[2])<<8 | uint16(c[3])
		c = c[4:]
	}
	return h, c, nil
}

func hexs(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x...(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("differ at byte %d (got %d bytes %s, want %d bytes %s)", i, len(got), hexs(got), len(want), hexs(want))
}
