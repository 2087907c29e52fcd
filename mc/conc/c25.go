package main

// C25: the log level changes nothing. Scenarios of the other properties, with their oracles,
// at the log levels an application can choose; everywhere else the log is off.

import (
	"fmt"

	log "github.com/sirupsen/logrus"
)

func init() { props["C25"] = c25 }

// recorded are the scenarios that fail with the log off as well: known findings of their own
// property, which judges them.
var recorded = map[string]bool{
	"C12 burst-unknown-30": true, "C12 burst-unknown-100": true, "C17 burst-30": true, "C17 burst-100": true,
}

func c25(tier string) []Scen {
	var out []Scen
	for _, p := range []string{"C08", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C20", "C21"} {
		var all []Scen
		for _, s := range props[p]("quick") {
			if !recorded[p+" "+s.Name] {
				all = append(all, s)
			}
		}
		for li, lv := range []log.Level{log.TraceLevel, log.DebugLevel, log.InfoLevel, log.WarnLevel, log.ErrorLevel, log.FatalLevel} {
			max := pick(tier, 100, 400)
			if lv == log.TraceLevel { // the default, and the one that logs everything
				max = pick(tier, 2000, 20000)
			}
			stride := (len(all) + max - 1) / max
			for i := li % stride; i < len(all); i += stride {
				s := all[i]
				s.Desc = s.Name + " at log level " + lv.String()
				s.Fam = lv.String() + "/" + p
				s.Name = fmt.Sprintf("%s-%d-%s", p, i, lv)
				s.Level = lv
				b := 0
				if len(all) < 600 && s.Bound > 0 && (tier == "thorough" || lv == log.TraceLevel && len(all) < 150) {
					b = 1
				}
				s.Bound = b
				out = append(out, s)
			}
		}
	}
	return out
}
