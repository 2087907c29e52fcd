package main

import (
	"fmt"

	"verifmc/rt"
)

// The scenarios of the server also run late in the life of a process, when the sessions carry
// other identifications than 1, 2, 3. Every property's scenarios are sampled at a fixed stride
// over their list for each first identification (default schedule).
const sessionCounter = "github.com/funny/link.globalSessionId"

var laterIDs = []uint64{8, 9, 14, 15, 31, 34, 35, 61, 98, 99, 126, 127, 254, 255, 998, 999, 9999, 32767, 65534, 65535, 99999, 1<<24 - 1,
	1<<31 - 1, 1<<32 - 2, 1<<32 - 1, 1<<32 + 8, 1<<53 - 1, 1 << 53, 1<<63 - 2, 1<<63 - 1, 1<<64 - 4}

func init() {
	for _, p := range []string{"C11", "C12", "C13", "C14", "C15", "C17", "C20", "C21", "C26"} {
		plain := props[p]
		n := map[string]int{"C20": 60, "C26": 60}[p]
		if n == 0 {
			n = 100
		}
		props[p] = func(tier string) []Scen {
			out := plain(tier)
			per := pick(tier, n, 10*n)
			base := out
			stride := len(base)/per + 1
			for ii, id := range laterIDs {
				for k := (ii * 7) % stride; k < len(base); k += stride {
					s, id := base[k], id
					run := s.Run
					s.Fam, s.Name, s.Bound = "later", fmt.Sprintf("later%d-%d", id, k), 0
					s.Run = func() {
						rt.SetUint(sessionCounter, id)
						run()
					}
					out = append(out, s)
				}
			}
			return out
		}
	}
}
