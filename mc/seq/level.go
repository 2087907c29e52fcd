package main

// C25: the log level changes nothing (the part without a server).

import (
	"fmt"
	"strings"

	"gitee.com/coco/go808"
	log "github.com/sirupsen/logrus"
	"verifmc/hk"
)

func init() { props["C25"] = c25 }

var levels = map[go808.Level]log.Level{
	go808.PanicLevel: log.PanicLevel, go808.FatalLevel: log.FatalLevel, go808.ErrorLevel: log.ErrorLevel,
	go808.WarnLevel: log.WarnLevel, go808.InfoLevel: log.InfoLevel, go808.DebugLevel: log.DebugLevel, go808.TraceLevel: log.TraceLevel,
}

func c25(r *hk.Run) {
	defer log.SetLevel(log.PanicLevel)
	f := r.Family("set-level")
	var names []string
	for _, n := range []string{"", "x", "none", "off", "all", "verbose", "0", "6", "-1", "trace debug", "log", "Trace Level", "跟踪", "\x00"} {
		names = append(names, n)
	}
	for l := range levels {
		for i := 0; i < len(l); i++ {
			names = append(names, string(l[:i]+l[i+1:]), string(l[:i]), string(l[:i]+"_"+l[i:]))
		}
	}
	for a, want := range levels {
		a, want := a, want
		f.Case(func() string { return fmt.Sprintf("level %q", a) }, func() error {
			r.Ops(1)
			r.State([]byte(a))
			if err := go808.SetLogLevel(a); err != nil || log.GetLevel() != want {
				return fmt.Errorf("SetLogLevel: %v, level %v", err, log.GetLevel())
			}
			for _, n := range names {
				if _, ok := levels[go808.Level(strings.ToLower(n))]; ok {
					continue
				}
				r.Ops(1)
				r.State([]byte(a), []byte(n))
				if err := go808.SetLogLevel(go808.Level(n)); err == nil || log.GetLevel() != want {
					return fmt.Errorf("SetLogLevel(%q) after %q: %v, level %v", n, a, err, log.GetLevel())
				}
			}
			for b, lb := range levels {
				r.Ops(2)
				if err := go808.SetLogLevel(b); err != nil || log.GetLevel() != lb {
					return fmt.Errorf("SetLogLevel(%q): %v, level %v", b, err, log.GetLevel())
				}
				if err := go808.SetLogLevel(a); err != nil || log.GetLevel() != want {
					return fmt.Errorf("SetLogLevel(%q) after %q: %v, level %v", a, b, err, log.GetLevel())
				}
			}
			return nil
		})
	}
	// the codec at every level: single frames, pairs with a damaged frame between, and cuts
	var corpus [][]byte
	for _, x := range frameCorpus(true) {
		if h, _, err := refUnframe(x); err == nil && h.Prop&(1<<10) == 0 { // marked as encrypted: left open
			corpus = append(corpus, x)
		}
	}
	for lv := log.FatalLevel; lv <= log.TraceLevel; lv++ {
		lv := lv
		f := r.Family("codec/" + lv.String())
		for i := range corpus {
			i := i
			bad := append([]byte{}, corpus[i]...)
			bad[len(bad)-2] ^= 1
			for k, fs := range [][][]byte{{corpus[i]}, {corpus[i], corpus[(i+1)%len(corpus)]}, {corpus[i], bad, corpus[i]}, {corpus[(i+5)%len(corpus)], {0x7e, 0x7e}, corpus[i]}} {
				k := k
				var sf []sframe
				var all []byte
				for _, x := range fs {
					sf = append(sf, mkSFrame(x))
					all = append(all, x...)
				}
				step := 1
				if lv != log.TraceLevel && !r.Thorough() {
					step = 7
				}
				for cut := 0; cut < len(all); cut += step {
					cut := cut
					f.Case(func() string { return fmt.Sprintf("%s: corpus %d stream %d cut at %d", lv, i, k, cut) }, func() error {
						log.SetLevel(lv)
						defer log.SetLevel(log.PanicLevel)
						r.State([]byte(fmt.Sprint(lv, i, k, cut)))
						return streamCase(r, sf, cutAt(all, cut), false, false)
					})
				}
			}
		}
	}
}
