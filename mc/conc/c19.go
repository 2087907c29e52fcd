package main

import (
	"fmt"
	"math"

	"gitee.com/coco/go808"
	"verifmc/rt"
)

type evFire struct {
	Key string
	At  int64
}

func fires() []evFire {
	var out []evFire
	for _, e := range rt.Events() {
		if f, ok := e.(evFire); ok {
			out = append(out, f)
		}
	}
	return out
}

// ctimer is a countdown timer with a model beside it.
type ctimer struct {
	t     *go808.CountdownTimer
	k     int64
	armed map[string]arming
	seen  int
}

type arming struct{ at, k int64 }

func newTimer(k int64, cb func(c *ctimer, key string)) *ctimer {
	c := &ctimer{k: k, armed: map[string]arming{}}
	c.t = go808.NewCountdownTimer(k, func(key string) {
		rt.Log(evFire{key, rt.ElapsedNs()})
		if cb != nil {
			cb(c, key)
		}
	})
	rt.Idle()
	return c
}

// sync takes the firings so far into account: each must belong to an arming that is due,
// and no arming may be overdue.
func (c *ctimer) sync() {
	fs := fires()
	for ; c.seen < len(fs); c.seen++ {
		f := fs[c.seen]
		a, ok := c.armed[f.Key]
		if !ok {
			rt.Fail("key %q fired at %.2f s without being armed", f.Key, sec(f.At))
		}
		if f.At < a.at+(a.k-1)*1e9 {
			rt.Fail("key %q armed for %d s at %.2f s fired at %.2f s", f.Key, a.k, sec(a.at), sec(f.At))
		}
		if f.At > a.at+(a.k+2)*1e9 {
			rt.Fail("key %q armed for %d s at %.2f s fired only at %.2f s", f.Key, a.k, sec(a.at), sec(f.At))
		}
		delete(c.armed, f.Key)
	}
	now := rt.ElapsedNs()
	for key, a := range c.armed {
		if now > a.at+(a.k+2)*1e9 {
			rt.Fail("key %q armed for %d s at %.2f s has not fired at %.2f s", key, a.k, sec(a.at), sec(now))
		}
	}
}

func (c *ctimer) update(key string) {
	c.t.Update(key)
	c.armed[key] = arming{rt.ElapsedNs(), c.k}
}

func (c *ctimer) remove(key string) {
	c.t.Remove(key)
	delete(c.armed, key)
}

func (c *ctimer) set(k int64) {
	c.t.SetExpiration(k)
	if k > 0 {
		c.k = k
	}
}

func (c *ctimer) wait(d int64) {
	for d > 0 {
		s := d
		if s > half {
			s = half
		}
		rt.Advance(s)
		c.sync()
		d -= s
	}
}

// finish lets everything expire.
func (c *ctimer) finish() {
	max := c.k
	for _, a := range c.armed {
		if a.k > max {
			max = a.k
		}
	}
	c.wait((max + 3) * 1e9)
	if len(c.armed) != 0 {
		rt.Fail("keys never fired: %v", c.armed)
	}
	c.wait((max + 3) * 1e9) // and nothing fires again
}

func init() {
	props["C19"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run, Horizon: 300000})
		}
		letter := func(c *ctimer, l rune) {
			switch l {
			case 'a', 'b', 'c':
				c.update(string(l))
			case 'A', 'B', 'C':
				c.remove(string(l + 32))
			case '1', '2', '3', '4':
				c.set(int64(l - '0'))
			case '0':
				c.set(0)
			case '-':
				c.set(-7)
			case '.':
				c.wait(half)
			case ',':
				c.wait(1e9)
			case ';':
				c.wait(3e9)
			}
		}
		hist := func(w string, k, phase int64) func() {
			return func() {
				rt.Quiet(true)
				c := newTimer(k, nil)
				rt.Advance(phase)
				for _, l := range w {
					letter(c, l)
				}
				c.finish()
				rt.Quiet(false)
			}
		}
		for gi, g := range []struct {
			alpha string
			n     int
		}{{"aA.,;", pick(tier, 7, 8)}, {"abAB,.", pick(tier, 6, 7)}, {"ab13,;", pick(tier, 6, 7)}, {"aA0-2;", pick(tier, 6, 7)}, {"abcABC,", pick(tier, 5, 6)}} {
			for i, w := range words(g.alpha, g.n) {
				k := int64(1 + i%3)
				phase := []int64{0, 25e7, 5e8, 75e7}[i/3%4]
				add("histories", fmt.Sprintf("h%d-%s", gi, w), 0, hist(w, k, phase))
			}
		}
		// the queue: every order of expiries, then one key removed or re-armed
		n := 5
		for pi, perm := range perms(n) {
			for op := 0; op <= 2*n; op++ {
				perm, op := perm, op
				add("queue", fmt.Sprintf("queue-%d-%d", pi, op), 0, func() {
					rt.Quiet(true)
					c := newTimer(1, nil)
					for i, d := range perm {
						c.set(int64(d + 1))
						c.update(fmt.Sprint("key", i))
					}
					if op < n {
						c.remove(fmt.Sprint("key", op))
					} else if op < 2*n {
						c.set(3)
						c.update(fmt.Sprint("key", op-n))
					}
					c.remove("unknown")
					c.finish()
					rt.Quiet(false)
				})
			}
		}
		// periods as long as they can be
		for ki, k := range []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, math.MaxInt64 - 1e9, math.MaxInt64 - 1, math.MaxInt64} {
			for v := 0; v < 4; v++ {
				k, v := k, v
				add("long-periods", fmt.Sprintf("long-%d-%d", ki, v), 0, func() {
					rt.Quiet(true)
					fired := func() (out string) {
						for _, f := range fires() {
							out += f.Key
						}
						return
					}
					c := newTimer(3, nil)
					if v%2 == 1 {
						c = newTimer(k, nil)
					}
					c.t.SetExpiration(2)
					c.t.Update("a")
					c.t.SetExpiration(k)
					c.t.Update("b")
					if v >= 2 {
						c.t.Update("c")
					}
					rt.Advance(10e9)
					if fired() != "a" {
						rt.Fail("keys armed for 2 s, %d s and %d s; after 10 s those fired are %q", k, k, fired())
					}
					c.t.SetExpiration(2)
					c.t.Update("b")
					c.t.Update("d")
					rt.Advance(10e9)
					if f := fired(); f != "abd" && f != "adb" {
						rt.Fail("re-arming a key that had been armed for %d s to 2 s: after 10 s those fired are %q", k, f)
					}
					c.t.Remove("c")
					rt.Advance(10e9)
					if len(fired()) != 3 {
						rt.Fail("fired in the end: %q", fired())
					}
					rt.Quiet(false)
				})
			}
		}
		// many keys
		for _, m := range []int{8, 9, 33} {
			for v := 0; v < 4; v++ {
				m, v := m, v
				add("many-keys", fmt.Sprintf("many-%d-%d", m, v), 0, func() {
					rt.Quiet(true)
					c := newTimer(5, nil)
					for i := 0; i < m; i++ {
						c.set(int64(1 + i*7%11))
						c.update(fmt.Sprint(i * 5 % m))
					}
					for i := 0; i < m; i += v + 1 {
						switch v {
						case 1:
							c.remove(fmt.Sprint(i))
						case 2:
							c.update(fmt.Sprint(i))
						case 3:
							c.wait(half)
							c.remove(fmt.Sprint(i))
							c.update(fmt.Sprint(m - i))
						}
					}
					c.finish()
					rt.Quiet(false)
				})
			}
		}
		for _, k := range []int64{60, 3600} {
			k := k
			add("long", fmt.Sprintf("long-%d", k), 0, func() {
				rt.Quiet(true)
				c := newTimer(k, nil)
				c.update("")
				c.wait(k * 5e8)
				c.update("键")
				c.finish()
				rt.Quiet(false)
			})
		}
		// concurrent operations: k seconds later the key fires as often as some order of the
		// operations says
		ops := []string{"ua", "ra", "ub", "rb", "set", "tick"}
		var combos [][]string
		for i := range ops {
			for j := i; j < len(ops); j++ {
				combos = append(combos, []string{ops[i], ops[j]})
				for l := j; l < len(ops); l++ {
					combos = append(combos, []string{ops[i], ops[j], ops[l]})
				}
			}
		}
		for ci, combo := range combos {
			for pre := 0; pre < 4; pre++ {
				combo, pre := combo, pre
				cnt := map[string]int{}
				for _, o := range combo {
					cnt[o]++
				}
				if cnt["tick"] > 1 || cnt["set"] > 1 {
					continue
				}
				b := pick(tier, 4, 5)
				if len(combo) == 3 {
					b = pick(tier, 3, 4)
				}
				add("concurrent", fmt.Sprintf("conc-%d-%d", ci, pre), b, func() {
					rt.Quiet(true)
					c := newTimer(2, nil)
					if pre&1 != 0 {
						c.update("a")
					}
					if pre&2 != 0 {
						c.update("b")
					}
					c.t.Update("z")
					rt.Advance(1500e6)
					rt.Quiet(false)
					var ts []*rt.Thread
					tick := false
					for _, o := range combo {
						o := o
						if o == "tick" {
							tick = true
							continue
						}
						ts = append(ts, rt.Go(o, func() {
							switch o {
							case "ua":
								c.t.Update("a")
							case "ra":
								c.t.Remove("a")
							case "ub":
								c.t.Update("b")
							case "rb":
								c.t.Remove("b")
							case "set":
								c.t.SetExpiration(4)
							}
						}))
					}
					t1 := rt.ElapsedNs()
					if tick { // the tick at which a and b, armed before, are due
						rt.Jump(15e8)
					}
					joinAll(ts...)
					rt.Quiet(true)
					now := rt.ElapsedNs()
					early := map[string]int{}
					for _, f := range fires() {
						early[f.Key]++
					}
					rt.Advance(10e9)
					total := map[string]int{}
					for _, f := range fires() {
						total[f.Key]++
						if f.Key != "a" && f.Key != "b" && f.Key != "z" {
							rt.Fail("unknown key %q fired", f.Key)
						}
						if cnt["u"+f.Key] > 0 && !tick && (f.At < t1+1e9 || f.At > now+6e9) {
							rt.Fail("key %q armed at %.2f s fired at %.2f s", f.Key, sec(t1), sec(f.At))
						}
					}
					if total["z"] != 1 {
						rt.Fail("an uninvolved key fired %d times", total["z"])
					}
					for i, key := range []string{"a", "b"} {
						u, r := cnt["u"+key], cnt["r"+key]
						armed := pre&(1<<i) != 0
						late := total[key] - early[key]
						if late > 1 || early[key] > 1 {
							rt.Fail("key %q fired %d times, then %d times", key, early[key], late)
						}
						if early[key] == 1 && !tick {
							rt.Fail("key %q fired early", key)
						}
						if early[key] == 1 && !armed && now < t1+1e9 {
							rt.Fail("key %q fired at once", key)
						}
						switch {
						case u == 0 && r == 0:
							if want := b2i(armed); total[key] != want {
								rt.Fail("key %q fired %d times instead of %d", key, total[key], want)
							}
						case u > 0 && r == 0: // the last arming fires, the earlier one may have before
							if late != 1 && !(tick && early[key] == 1) {
								rt.Fail("key %q was armed and did not fire", key)
							}
						case u == 0 && r > 0:
							if late != 0 {
								rt.Fail("key %q fired after it was removed", key)
							}
						}
					}
					rt.Quiet(false)
				})
			}
		}
		// callbacks that use the timer
		for _, k := range []string{"rearm", "rearm-other", "remove-self", "remove-other", "set", "slow"} {
			k := k
			add("callbacks", "callback-"+k, 2, func() {
				rearmed := 0
				var tm *go808.CountdownTimer
				c := newTimer(2, func(c *ctimer, key string) {
					switch k {
					case "rearm":
						if rearmed < 3 && key == "a" {
							rearmed++
							tm.Update("a")
						}
					case "rearm-other":
						if key == "a" {
							tm.Update("c")
						}
					case "remove-self":
						tm.Remove(key)
					case "remove-other":
						if key == "a" {
							tm.Remove("d")
						}
					case "set":
						tm.SetExpiration(3)
					}
				})
				tm = c.t
				rt.Quiet(true)
				tm.Update("a")
				tm.Update("b")
				rt.Advance(half)
				if k == "remove-other" {
					rt.Advance(1e9)
					tm.Update("d")
				}
				rt.Quiet(false)
				rt.Advance(20e9)
				n := map[string]int{}
				last := int64(-1)
				for _, f := range fires() {
					n[f.Key]++
					if f.Key == "a" {
						if last >= 0 && (f.At-last < 1e9 || f.At-last > 4e9) {
							rt.Fail("a key re-armed in its callback fired after %.2f s", sec(f.At-last))
						}
						last = f.At
					}
				}
				want := map[string]int{"a": 1, "b": 1}
				switch k {
				case "rearm":
					want["a"] = 4
				case "rearm-other":
					want["c"] = 1
				}
				for _, key := range []string{"a", "b", "c", "d"} {
					if n[key] != want[key] {
						rt.Fail("key %q fired %d times instead of %d", key, n[key], want[key])
					}
				}
			})
		}
		add("callbacks", "callback-nil", 1, func() {
			t := go808.NewCountdownTimer(1, nil)
			t.Update("a")
			rt.Advance(4e9)
			t.Update("a")
			t.Remove("a")
			rt.Advance(4e9)
		})
		// two timers do not influence each other
		add("two-timers", "two-timers", 2, func() {
			a := go808.NewCountdownTimer(2, func(k string) { rt.Log(evFire{"A" + k, rt.ElapsedNs()}) })
			b := go808.NewCountdownTimer(5, func(k string) { rt.Log(evFire{"B" + k, rt.ElapsedNs()}) })
			t1 := rt.Go("a", func() { a.Update("x"); a.Update("y"); a.Remove("y") })
			t2 := rt.Go("b", func() { b.Update("x"); b.Update("y") })
			joinAll(t1, t2)
			rt.Advance(10e9)
			n := map[string]int{}
			for _, f := range fires() {
				n[f.Key]++
				lo, hi := int64(1e9), int64(4e9)
				if f.Key[0] == 'B' {
					lo, hi = 4e9, 7e9
				}
				if f.At < lo || f.At > hi {
					rt.Fail("key %q fired at %.2f s", f.Key, sec(f.At))
				}
			}
			if n["Ax"] != 1 || n["Ay"] != 0 || n["Bx"] != 1 || n["By"] != 1 {
				rt.Fail("fired: %v", n)
			}
		})
		return out
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
