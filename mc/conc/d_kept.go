package main

import (
	"encoding/hex"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// deepText writes down everything an entity shows; readers are read to their end.
func deepText(v reflect.Value, depth int) string {
	if !v.IsValid() || depth > 20 {
		return "-"
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			return fmt.Sprint(x.UnixNano())
		case io.Reader:
			if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
				if v.IsNil() {
					return "nil"
				}
			}
			b, err := io.ReadAll(x)
			return fmt.Sprintf("reader(%x %v)", b, err)
		case fmt.Stringer:
			if v.Kind() == reflect.Struct {
				return x.String()
			}
		case protocol.Param:
			return fmt.Sprintf("param(%d %+v)", x.ID(), x)
		}
	}
	var b strings.Builder
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + deepText(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":" + deepText(v.Field(i), depth+1) + ";")
		}
		return "{" + b.String() + "}"
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b.WriteString(deepText(v.Index(i), depth+1) + ",")
		}
		return "[" + b.String() + "]"
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			es = append(es, deepText(k, depth+1)+"="+deepText(v.MapIndex(k), depth+1))
		}
		sort.Strings(es)
		return fmt.Sprint(es)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.Kind().String()
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return "?"
}

// A message that was handed to a handler stays as it is, whatever is received afterwards.
func init() {
	plain := props["C12"]
	props["C12"] = func(tier string) []Scen {
		out := plain(tier)
		type sample struct {
			id   uint16
			body []byte
		}
		var all []sample
		for _, s := range sampleBodies {
			b, err := hex.DecodeString(s.Body)
			if err == nil && len(b) < 900 && s.ID != idHeartbeat {
				all = append(all, sample{s.ID, b})
			}
		}
		for i := range all {
			for _, merge := range []bool{false, true} {
				i, merge := i, merge
				out = append(out, Scen{Fam: "kept", Name: fmt.Sprintf("kept-%d-%v", i, merge), Bound: 0, Run: func() {
					files()
					m := all[i]
					rt.Quiet(true)
					e := start(go808.Options{AutoMergePacket: merge})
					var kept []*protocol.Message
					var first uint64
					var texts []string
					looked := 0
					for _, s := range all {
						e.srv.AddHandler(protocol.MsgID(s.id), func(ss *go808.Session, m *protocol.Message) {
							if kept == nil {
								first = ss.ID()
							}
							if ss.ID() == first {
								kept = append(kept, m)
							}
						})
					}
					// looks at message k where messages of that session are handled
					look := func(k int) {
						texts = append(texts, deepText(reflect.ValueOf(kept[k].Header), 0)+deepText(reflect.ValueOf(kept[k].Body), 0))
					}
					e.srv.AddHandler(idHeartbeat, func(ss *go808.Session, m *protocol.Message) {
						if ss.ID() == first && len(kept) > looked {
							look(looked)
							looked++
						}
					})
					p, q := e.connect(13800138000), e.connect(13900139000)
					send := func(p *peer, m sample) {
						p.PeerSend(frame(hdr{ID: m.id, Icc: 13800138000, Serial: 7}, m.body))
						rt.Idle()
					}
					// what it is
					send(p, m)
					if len(kept) != 1 {
						return // not a message of this build
					}
					send(p, sample{idHeartbeat, nil})
					// and what it still is after others
					send(p, m)
					send(p, m)
					for k := 1; k <= 12; k++ {
						o := all[(i+k*7)%len(all)]
						send(p, o)
						send(q, o)
					}
					filled := make([]byte, 900)
					for j := range filled {
						filled[j] = 0x55
					}
					send(p, sample{idAuth, filled})
					send(q, sample{0x0900, filled})
					send(p, sample{idHeartbeat, nil})
					send(p, sample{idHeartbeat, nil})
					if len(texts) != 3 {
						rt.Fail("%d of 3 heartbeats are handled", len(texts))
					}
					for _, got := range texts[1:] {
						if want := texts[0]; got != want {
							rt.Fail("a message %04x kept by its handler has changed after later messages:\n%.300s\ninstead of\n%.300s", m.id, got, want)
						}
					}
					rt.Quiet(false)
				}})
			}
		}
		return out
	}
}
