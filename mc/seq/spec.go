package main

import (
	"bytes"
	"crypto/rsa"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
)

type spec struct {
	id  uint16
	typ reflect.Type
	ns  []node
	min int // bodies shorter than this are refused although the layout would allow them
}

var statusHemi = hemi{"Status", 2, 3, fieldsOf("Lat"), fieldsOf("Lng")}
var circleHemi = hemi{"Attribute", 6, 7, fieldsOf("Lat"), fieldsOf("Lng")}
var rectHemi = hemi{"Attribute", 6, 7, fieldsOf("LeftTopLat", "RightBottomLat"), fieldsOf("LeftTopLon", "RightBottomLon")}
var pointHemi = hemi{"Attribute", 2, 3, fieldsOf("Lat"), fieldsOf("Lng")}

func vertexFields(name string) func(v reflect.Value) []reflect.Value {
	return func(v reflect.Value) []reflect.Value {
		var out []reflect.Value
		s := v.FieldByName("Vertexes")
		for i := 0; i < s.Len(); i++ {
			out = append(out, s.Index(i).FieldByName(name))
		}
		return out
	}
}

var polyHemi = hemi{"Attribute", 6, 7, vertexFields("Lat"), vertexFields("Lng")}

type vertexesNode struct{ listNode }

func (n vertexesNode) dec(r *rd, v reflect.Value) {
	n.listNode.dec(r, v)
	s, w := polyHemi.bits(v)
	for i, vs := range [][]reflect.Value{polyHemi.lats(v), polyHemi.lngs(v)} {
		if (i == 0 && s) || (i == 1 && w) {
			for _, x := range vs {
				x.Set(reflect.ValueOf(x.Interface().(decimal.Decimal).Neg()))
			}
		}
	}
}

func locBase() []node {
	return []node{U32("Alarm"), attrNode{h: statusHemi, w: 4}, geoNode{f: "Lat", h: &statusHemi}, geoNode{f: "Lng", h: &statusHemi, lng: true},
		U16("Altitude"), U16("Speed"), U16("Direction"), Time6("Time")}
}
func loc() []node { return append(locBase(), extrasNode{}) }

func timed() []node { return []node{Time6("StartTime"), Time6("EndTime"), U16("MaxSpeed"), U8("Duration")} }

func ids(f string) node { return listNode{f: f, kind: cnt8, w: 4, max: 255} }

func sp(id uint16, proto interface{}, ns ...node) *spec {
	return &spec{id: id, typ: reflect.TypeOf(proto), ns: ns}
}

// specs is the wire layout of every supported message type (JT/T 808-2011/2013).
var specs = []*spec{
	sp(0x0001, protocol.T808_0x0001{}, U16("ReplyMsgSerialNo"), U16("ReplyMsgID"), U8("Result")),
	sp(0x0002, protocol.T808_0x0002{}),
	sp(0x0003, protocol.T808_0x0003{}),
	sp(0x0100, protocol.T808_0x0100{}, U16("ProvinceID"), U16("CityID"), FixRaw("ManufactureID", 5), FixRaw("Model", 20), FixRaw("TerminalID", 7), U8("PlateColor"), RestGB("LicenseNo", 900)),
	{0x0102, reflect.TypeOf(protocol.T808_0x0102{}), []node{RestGB("AuthKey", 1000)}, 1},
	sp(0x0104, protocol.T808_0x0104{}, U16("ReplyMsgSerialNo"), paramsNode{}),
	sp(0x0107, protocol.T808_0x0107{}, U16("TerminalType"), FixRaw("ManufactureID", 5), FixRaw("Model", 20), FixRaw("TerminalID", 7), simNode{}, L8Raw("HardwareVersion"), L8Raw("SoftwareVersion"), U8("GNSSProperty"), U8("COMMProperty")),
	sp(0x0108, protocol.T808_0x0108{}, U8("Type"), U8("Result")),
	sp(0x0200, protocol.T808_0x0200{}, loc()...),
	sp(0x0201, protocol.T808_0x0201{}, U16("ReplyMsgSerialNo"), structNode{f: "Result", ns: loc()}),
	sp(0x0301, protocol.T808_0x0301{}, U8("EventID")),
	sp(0x0302, protocol.T808_0x0302{}, U16("ReplyMsgSerialNo"), U8("AnswerID")),
	sp(0x0303, protocol.T808_0x0303{}, U8("Type"), U8("Flag")),
	sp(0x0500, protocol.T808_0x0500{}, U16("ReplyMsgSerialNo"), structNode{f: "Result", ns: loc()}),
	sp(0x0700, protocol.T808_0x0700{}, U16("ReplyMsgSerialNo"), U8("Cmd"), Rest("Data")),
	sp(0x0701, protocol.T808_0x0701{}, U32("Size"), Rest("Content")),
	sp(0x0702, protocol.T808_0x0702{}, U8("State"), Time6("Time"), U8("ICCardResult"), L8GB("DriverName"), FixGB("Number", 20), L8GB("CompanyName"), Date4("ExpiryDate")),
	sp(0x0704, protocol.T808_0x0704{}, listNode{f: "Items", kind: cnt16, ns: loc(), lenOf: 2, max: 30, mid: []node{U8("Type")}}),
	sp(0x0705, protocol.T808_0x0705{}, &canNode{}),
	sp(0x0800, protocol.T808_0x0800{}, U32("MediaID"), U8("Type"), U8("Coding"), U8("Event"), U8("ChannelID")),
	sp(0x0801, protocol.T808_0x0801{}, U32("MediaID"), U8("Type"), U8("Coding"), U8("Event"), U8("ChannelID"), structNode{f: "Location", ns: locBase(), size: 28}, packetNode{}),
	sp(0x0802, protocol.T808_0x0802{}, U16("ReplyMsgSerialNo"), listNode{f: "Items", kind: cnt16, max: 29,
		ns: []node{U32("MediaID"), U8("Type"), U8("ChannelID"), U8("Event"), structNode{f: "Location", ns: locBase(), size: 28}}}),
	sp(0x0805, protocol.T808_0x0805{}, U16("ReplyMsgSerialNo"), U8("Result"), listNode{f: "MediaIDs", kind: cnt16, w: 4, max: 254}),
	sp(0x0900, protocol.T808_0x0900{}, U8("Type"), Rest("Data")),
	sp(0x0901, protocol.T808_0x0901{}, gzipNode{}),
	sp(0x0a00, protocol.T808_0x0A00{}, keyNode{}),
	sp(0x8001, protocol.T808_0x8001{}, U16("ReplyMsgSerialNo"), U16("ReplyMsgID"), U8("Result")),
	sp(0x8003, protocol.T808_0x8003{}, U16("MsgSerialNo"), listNode{f: "PacketIDs", kind: cnt8, w: 2, max: 255}),
	sp(0x8100, protocol.T808_0x8100{}, U16("MsgSerialNo"), U8("Result"), RestGB("AuthKey", 1000)),
	sp(0x8103, protocol.T808_0x8103{}, paramsNode{}),
	sp(0x8104, protocol.T808_0x8104{}),
	sp(0x8105, protocol.T808_0x8105{}, U8("Cmd"), RestGB("Data", 1000)),
	sp(0x8106, protocol.T808_0x8106{}, ids("Params")),
	sp(0x8107, protocol.T808_0x8107{}),
	sp(0x8108, protocol.T808_0x8108{}, U8("Type"), FixRaw("ManufactureID", 5), L8GB("Version"), U32("Size"), Rest("Data")),
	sp(0x8201, protocol.T808_0x8201{}),
	sp(0x8202, protocol.T808_0x8202{}, U16("Interval"), U32("Expire")),
	sp(0x8203, protocol.T808_0x8203{}, U16("MsgSerialNo"), U32("Type")),
	sp(0x8300, protocol.T808_0x8300{}, U8("Flag"), RestGB("Text", 1000)),
	sp(0x8301, protocol.T808_0x8301{}, U8("Type"), listNode{f: "Events", kind: cnt8, max: 120, ns: []node{U8("ID"), L8GB("Content")}}),
	sp(0x8302, protocol.T808_0x8302{}, U8("Flag"), L8GB("Question"), listNode{f: "CandidateAnswers", kind: toEnd, max: 120, ns: []node{U8("ID"), L8GB("Content")}}),
	sp(0x8303, protocol.T808_0x8303{}, U8("Type"), listNode{f: "Items", kind: cnt8, max: 120, ns: []node{L16GB("Name", 900)}}),
	sp(0x8304, protocol.T808_0x8304{}, U8("Type"), L16GB("Content", 1000)),
	sp(0x8400, protocol.T808_0x8400{}, U8("Flag"), RestGB("Number", 1000)),
	sp(0x8401, protocol.T808_0x8401{}, U8("Type"), listNode{f: "Contacts", kind: cnt8, max: 120, ns: []node{U8("Flag"), L8GB("Number"), L8GB("Contact")}}),
	sp(0x8500, protocol.T808_0x8500{}, U8("Flag")),
	sp(0x8600, protocol.T808_0x8600{}, U8("Action"), listNode{f: "Items", kind: cnt8, max: 30, ns: []node{U32("ID"), attrNode{h: circleHemi, w: 2},
		geoNode{f: "Lat", h: &circleHemi}, geoNode{f: "Lng", h: &circleHemi, lng: true}, U32("Radius"), optNode{"Attribute", 0, timed()}}}),
	sp(0x8601, protocol.T808_0x8601{}, ids("IDs")),
	sp(0x8602, protocol.T808_0x8602{}, U8("Action"), listNode{f: "Items", kind: cnt8, max: 27, ns: []node{U32("ID"), attrNode{h: rectHemi, w: 2},
		geoNode{f: "LeftTopLat", h: &rectHemi}, geoNode{f: "LeftTopLon", h: &rectHemi, lng: true},
		geoNode{f: "RightBottomLat", h: &rectHemi}, geoNode{f: "RightBottomLon", h: &rectHemi, lng: true}, optNode{"Attribute", 0, timed()}}}),
	sp(0x8603, protocol.T808_0x8603{}, ids("IDs")),
	sp(0x8604, protocol.T808_0x8604{}, U32("ID"), attrNode{h: polyHemi, w: 2}, optNode{"Attribute", 0, timed()},
		vertexesNode{listNode{f: "Vertexes", kind: cnt16, max: 124, ns: []node{geoNode{f: "Lat"}, geoNode{f: "Lng"}}}}),
	sp(0x8605, protocol.T808_0x8605{}, ids("IDs")),
	sp(0x8606, protocol.T808_0x8606{}, U32("ID"), U16("Attribute"), Time6("StartTime"), Time6("EndTime"), listNode{f: "Points", kind: cnt16, max: 38,
		ns: []node{U32("ID"), U32("SectionID"), geoNode{f: "Lat"}, geoNode{f: "Lng"}, U8("Width"), pointAttrNode{h: pointHemi}, pointOptNode{g: pointGroups[0]}, pointOptNode{g: pointGroups[1]}}}),
	sp(0x8607, protocol.T808_0x8607{}, ids("IDs")),
	sp(0x8700, protocol.T808_0x8700{}, U8("Cmd"), Rest("Data")),
	sp(0x8701, protocol.T808_0x8701{}, U8("Cmd"), Rest("Data")),
	sp(0x8702, protocol.T808_0x8702{}),
	sp(0x8800, protocol.T808_0x8800{}, U32("MediaID"), listNode{f: "RetryIDs", kind: optCnt8, w: 2, max: 255}),
	sp(0x8801, protocol.T808_0x8801{}, U8("ChannelID"), U16("Cmd"), U16("Duration"), U8("Save"), U8("Resolution"), U8("Quality"), U8("Lighting"), U8("Contrast"), U8("Saturability"), U8("Chroma")),
	sp(0x8802, protocol.T808_0x8802{}, U8("Type"), U8("ChannelID"), U8("Event"), Time6("StartTime"), Time6("EndTime")),
	sp(0x8803, protocol.T808_0x8803{}, U8("Type"), U8("ChannelID"), U8("Event"), Time6("StartTime"), Time6("EndTime"), U8("RemoveFlag")),
	sp(0x8804, protocol.T808_0x8804{}, U8("Cmd"), U16("Duration"), U8("Save"), U8("AudioSampleRate")),
	sp(0x8805, protocol.T808_0x8805{}, U32("MediaID"), U8("RemoveFlag")),
	sp(0x8900, protocol.T808_0x8900{}, U8("Type"), Rest("Data")),
	sp(0x8a00, protocol.T808_0x8A00{}, keyNode{}),
}

// 0x0705: WORD count, BCD[5] time, items
type canNode struct {
	base
}

var canList = listNode{f: "Items", kind: cnt16, max: 84, ns: []node{Arr("ID", 4), Arr("Data", 8)}, mid: []node{clockNode{}}}

func (*canNode) enc(v reflect.Value, w *wr) { canList.enc(v, w) }
func (*canNode) dec(r *rd, v reflect.Value) { canList.dec(r, v) }
func (*canNode) leaves(p string, a access, deep bool) []leaf {
	return canList.leaves(p, a, deep)
}

func specByID(id uint16) *spec {
	for _, s := range specs {
		if s.id == id {
			return s
		}
	}
	return nil
}

func (s *spec) fresh() protocol.Entity { return reflect.New(s.typ).Interface().(protocol.Entity) }
func (s *spec) leaves() []leaf {
	var out []leaf
	for _, n := range s.ns {
		out = append(out, n.leaves("", func(r reflect.Value) reflect.Value { return r }, true)...)
	}
	return out
}
func (s *spec) encode(e protocol.Entity) []byte {
	var w wr
	encAll(s.ns, reflect.ValueOf(e).Elem(), &w)
	return w.Bytes()
}
func (s *spec) norm(e protocol.Entity) {
	for _, n := range s.ns {
		n.norm(reflect.ValueOf(e).Elem())
	}
}
func (s *spec) fix(e protocol.Entity) {
	for _, n := range s.ns {
		n.fix(reflect.ValueOf(e).Elem())
	}
}

type verdict int

const (
	accept verdict = iota
	refuse
	undecided
)

// decode is the reference decoder: the value the layout assigns to the bytes, or refuse.
func (s *spec) decode(b []byte) (protocol.Entity, verdict) {
	if len(b) < s.min {
		return nil, refuse
	}
	e := s.fresh()
	r := &rd{b: b}
	decAll(s.ns, r, reflect.ValueOf(e).Elem())
	if r.bad {
		if r.either {
			return nil, undecided
		}
		return nil, refuse
	}
	if r.either {
		return nil, undecided
	}
	return e, accept
}

// base values: every leaf gets its k-th small value (rotated), so that neighbouring fields differ
func (s *spec) baseValue(k int) protocol.Entity {
	e := s.fresh()
	v := reflect.ValueOf(e).Elem()
	for j, l := range s.leaves() {
		i := 0
		if k > 0 {
			i = (k*3 + j) % l.smallN
		}
		l.setSmall(v, i)
	}
	s.fix(e)
	return e
}

// ---------------------------------------------------------------- equality of values

var (
	tTime    = reflect.TypeOf(time.Time{})
	tDecimal = reflect.TypeOf(decimal.Decimal{})
	tParam   = reflect.TypeOf(&protocol.Param{})
	tExtra   = reflect.TypeOf((*extra.Entity)(nil)).Elem()
	tReader  = reflect.TypeOf((*io.Reader)(nil)).Elem()
	tKey     = reflect.TypeOf(&rsa.PublicKey{})
)

// diffVal returns "" if a and b denote the same message value.
func diffVal(path string, a, b reflect.Value) string {
	switch a.Type() {
	case tTime:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Sprintf("%s: got %v, want %v", path, x, y)
		}
		return ""
	case tDecimal:
		x, y := a.Interface().(decimal.Decimal), b.Interface().(decimal.Decimal)
		if !x.Equal(y) {
			return fmt.Sprintf("%s: got %v, want %v", path, x, y)
		}
		return ""
	case tParam:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil parameter"
			}
			return ""
		}
		x, y := a.Interface().(*protocol.Param), b.Interface().(*protocol.Param)
		xb, _ := x.GetBytes()
		yb, _ := y.GetBytes()
		if x.ID() != y.ID() || !bytes.Equal(xb, yb) {
			return fmt.Sprintf("%s: got %x=%x, want %x=%x", path, x.ID(), xb, y.ID(), yb)
		}
		return ""
	case tKey:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil key"
			}
			return ""
		}
		x, y := a.Interface().(*rsa.PublicKey), b.Interface().(*rsa.PublicKey)
		if x.E != y.E || x.N.Cmp(y.N) != 0 {
			return fmt.Sprintf("%s: key differs: got E=%d N=%x, want E=%d N=%x", path, x.E, x.N, y.E, y.N)
		}
		return ""
	case tExtra:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil extra"
			}
			return ""
		}
		x, y := a.Interface().(extra.Entity), b.Interface().(extra.Entity)
		if x.ID() != y.ID() || !reflect.DeepEqual(x.Value(), y.Value()) || reflect.TypeOf(x) != reflect.TypeOf(y) {
			return fmt.Sprintf("%s: got extra %#x %#v, want %#x %#v", path, x.ID(), x.Value(), y.ID(), y.Value())
		}
		return ""
	case tReader:
		x, y := readerBytes(a), readerBytes(b)
		if !bytes.Equal(x, y) {
			return fmt.Sprintf("%s: packet %s", path, diffBytes(x, y))
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue // not part of the value a user sees
			}
			if d := diffVal(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: got %d elements, want %d", path, a.Len(), b.Len())
		}
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return path + ": " + diffBytes(a.Bytes(), b.Bytes())
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffVal(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: got nil=%v, want nil=%v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diffVal(path, a.Elem(), b.Elem())
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: got %q, want %q", path, a.String(), b.String())
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: got %#x, want %#x", path, a.Uint(), b.Uint())
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: got %d, want %d", path, a.Int(), b.Int())
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: got %v, want %v", path, a.Bool(), b.Bool())
		}
		return ""
	}
	return fmt.Sprintf("%s: cannot compare %s", path, a.Type())
}

func diffEntity(got, want protocol.Entity) string {
	if got == nil || reflect.ValueOf(got).IsNil() {
		return "no body"
	}
	a, b := reflect.ValueOf(got), reflect.ValueOf(want)
	if a.Type() != b.Type() {
		return fmt.Sprintf("got a %s, want a %s", a.Type(), b.Type())
	}
	return diffVal(a.Elem().Type().Name(), a.Elem(), b.Elem())
}

func showEntity(e protocol.Entity) string {
	s := fmt.Sprintf("%+v", reflect.ValueOf(e).Elem().Interface())
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// ---------------------------------------------------------------- extras

func be32(n uint32) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], n); return b[:] }
func be16(n uint16) []byte { return []byte{byte(n >> 8), byte(n)} }

// refExtraData is the wire form of an extra's value.
func refExtraData(e extra.Entity) []byte {
	switch v := e.Value().(type) {
	case uint32:
		return be32(v)
	case uint16:
		return be16(v)
	case byte:
		return []byte{v}
	case extra.Extra_0x11_Value:
		if v.Type == 0 || v.AreaID == nil {
			return []byte{v.Type}
		}
		return append([]byte{v.Type}, be32(*v.AreaID)...)
	case extra.Extra_0x12_Value:
		return append(append([]byte{v.Type}, be32(v.AreaID)...), v.Direction)
	case extra.Extra_0x13_Value:
		return append(append(be32(v.RoadID), be16(v.Duration)...), v.Result)
	}
	panic(fmt.Sprintf("unknown extra value %T", e.Value()))
}

// refExtra is the reference decoding of one extra item.
func refExtra(id byte, b []byte) (e extra.Entity, known, ok bool) {
	u32 := func() uint32 { return binary.BigEndian.Uint32(b) }
	u16 := func() uint16 { return binary.BigEndian.Uint16(b) }
	known = true
	switch id {
	case 0x01, 0x25, 0x2b:
		if ok = len(b) == 4; ok {
			switch id {
			case 0x01:
				e = extra.NewExtra_0x01(u32())
			case 0x25:
				e = extra.NewExtra_0x25(u32())
			default:
				e = extra.NewExtra_0x2B(u32())
			}
		}
	case 0x02, 0x03, 0x04, 0x2a:
		if ok = len(b) == 2; ok {
			switch id {
			case 0x02:
				e = extra.NewExtra_0x02(u16())
			case 0x03:
				e = extra.NewExtra_0x03(u16())
			case 0x04:
				e = extra.NewExtra_0x04(u16())
			default:
				e = extra.NewExtra_0x2A(u16())
			}
		}
	case 0x30:
		if ok = len(b) == 1; ok {
			e = extra.NewExtra_0x30(b[0])
		}
	case 0x31:
		if ok = len(b) == 1; ok {
			e = extra.NewExtra_0x31(b[0])
		}
	case 0x11:
		if len(b) == 1 && b[0] == 0 {
			ok = true
			e = extra.NewExtra_0x11(extra.Extra_0x11_Value{})
		} else if len(b) == 5 && b[0] != 0 {
			ok = true
			a := binary.BigEndian.Uint32(b[1:])
			e = extra.NewExtra_0x11(extra.Extra_0x11_Value{Type: b[0], AreaID: &a})
		}
	case 0x12:
		if ok = len(b) == 6; ok {
			e = extra.NewExtra_0x12(extra.Extra_0x12_Value{Type: b[0], AreaID: binary.BigEndian.Uint32(b[1:5]), Direction: b[5]})
		}
	case 0x13:
		if ok = len(b) == 7; ok {
			e = extra.NewExtra_0x13(extra.Extra_0x13_Value{RoadID: binary.BigEndian.Uint32(b[:4]), Duration: binary.BigEndian.Uint16(b[4:6]), Result: b[6]})
		}
	default:
		known = false
	}
	return
}

var extraSizes = map[byte]int{0x01: 4, 0x02: 2, 0x03: 2, 0x04: 2, 0x11: 5, 0x12: 6, 0x13: 7, 0x25: 4, 0x2a: 2, 0x2b: 4, 0x30: 1, 0x31: 1}
var extraIDs = []byte{0x01, 0x02, 0x03, 0x04, 0x11, 0x12, 0x13, 0x25, 0x2a, 0x2b, 0x30, 0x31}

var extraDomCache []extra.Entity

// extraDomain: every extra type, every value of every byte position over three backgrounds.
func extraDomain() []extra.Entity {
	if extraDomCache != nil {
		return extraDomCache
	}
	for _, id := range extraIDs {
		n := extraSizes[id]
		for pos := 0; pos < n; pos++ {
			for _, bg := range []byte{0x00, 0x5a, 0xff} {
				for x := 0; x < 256; x++ {
					b := bytes.Repeat([]byte{bg}, n)
					for i := range b {
						b[i] += byte(i)
					}
					b[pos] = byte(x)
					if id == 0x11 && b[0] == 0 {
						b = b[:1]
					}
					e, _, ok := refExtra(id, b)
					if !ok {
						panic("extraDomain")
					}
					extraDomCache = append(extraDomCache, e)
				}
			}
		}
	}
	return extraDomCache
}

// extraList: l items cycling through all types
func extraList(l, variant int) []extra.Entity {
	d := extraDomain()
	out := []extra.Entity{}
	for i := 0; i < l; i++ {
		out = append(out, d[((i+variant)*7919+variant*131)%len(d)])
	}
	return out
}
