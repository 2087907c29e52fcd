package main

// DUMP prints sample bodies of every message type, made by the reference encoder, as the
// source of ../conc/samples.go.

import (
	"fmt"
	"os"

	"verifmc/hk"
)

func init() {
	props["DUMP"] = func(r *hk.Run) {
		fmt.Fprint(hk.Stdout, "package main\n\n// Made by seq -prop DUMP: bodies of every message type, by the reference encoder.\nvar sampleBodies = []struct {\n\tID   uint16\n\tBody string\n}{\n")
		for _, s := range specs {
			seen := map[string]bool{}
			for k := 0; k < 40 && len(seen) < 3; k++ {
				b := s.encode(s.baseValue(k))
				if len(b) > 300 || seen[string(b)] {
					continue
				}
				if _, v := s.decode(b); v != accept {
					continue
				}
				seen[string(b)] = true
				fmt.Fprintf(hk.Stdout, "\t{0x%04x, \"%x\"},\n", s.id, b)
			}
		}
		fmt.Fprint(hk.Stdout, "}\n")
		os.Exit(0)
	}
}
