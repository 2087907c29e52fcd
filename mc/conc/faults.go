package main

// Faults (C18) and crashes (C27) at every system call the server makes for its uploads.

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"

	"gitee.com/coco/go808"
	"verifmc/flt"
	"verifmc/rt"
)

const maxSteps = 60 // more than any operation makes; a scenario whose step is not reached checks the plain run

func sendBeat(p *peer, n int) {
	k := len(handled(0))
	for i := 0; i < n; i++ {
		p.msg(idHeartbeat, nil)
	}
	rt.Idle()
	if got := len(handled(0)) - k; got != n {
		rt.Fail("%d of %d heartbeats are handled", got, n)
	}
}

func init() {
	data := func(seq uint16) string { return fmt.Sprintf("<%d>", seq) + strings.Repeat("d", int(seq)*7) }
	whole := func(sum uint16) string {
		s := ""
		for i := uint16(1); i <= sum; i++ {
			s += data(i)
		}
		return s
	}
	orders := map[uint16][][]uint16{1: {{1}}, 2: {{1, 2}, {2, 1}}, 3: {{1, 2, 3}, {3, 1, 2}}}

	plain := props["C18"]
	props["C18"] = func(tier string) []Scen {
		out := plain(tier)
		if !flt.Available {
			return out
		}
		type kind struct {
			name      string
			kind, cut int
			errno     syscall.Errno
			reads     bool
		}
		kinds := []kind{{"once", flt.Once, 0, syscall.EIO, false}, {"full", flt.Stay, 0, syscall.ENOSPC, false}, {"short", flt.Short, 1, 0, false}, {"reads", flt.Once, 0, syscall.EMFILE, true}}
		for _, sum := range []uint16{1, 2, 3} {
			for oi, order := range orders[sum] {
				for vi := range order {
					for _, k := range kinds {
						for at := 1; at <= maxSteps; at++ {
							sum, order, vi, k, at := sum, order, vi, k, at
							out = append(out, Scen{Fam: "every-step/" + k.name, Name: fmt.Sprintf("step-%s-%d-%d-%d-%d", k.name, sum, oi, vi, at), Bound: pick(tier, 1, 2), Run: func() {
								files()
								e := start(go808.Options{AutoMergePacket: true})
								e.handleUploads()
								p, s := e.session(13800138000)
								want := whole(sum)
								acked := map[uint16]bool{}
								send := func(i int, seq uint16) {
									ru, rr := len(uploads()), len(replies(p.wire()))
									if i == vi {
										flt.On(k.kind, at, k.cut, k.errno, k.reads)
									}
									no := p.pkt(idMedia, sum, seq, media(7, data(seq)))
									rt.Idle()
									flt.Off()
									rs, us := replies(p.wire())[rr:], uploads()[ru:]
									if p.ServerClosed() {
										rt.Fail("the connection was closed by a storage fault")
									}
									if len(rs) != 1 || !bytes.Equal(rs[0][:4], general(no, idMedia, 0)[:4]) || rs[0][4] > 1 {
										rt.Fail("packet %d is answered with %x", no, rs)
									}
									if rs[0][4] == 0 {
										acked[seq] = true
									} else {
										if len(us) > 0 {
											rt.Fail("a packet that was refused completes an upload")
										}
										if i != vi || !flt.Hit() {
											rt.Fail("a packet is refused although storage works")
										}
									}
									if len(us) > 1 {
										rt.Fail("delivered %d times", len(us))
									}
									for _, u := range us {
										if len(acked) != int(sum) {
											rt.Fail("an upload is delivered, but only the packets %v are stored", acked)
										}
										if u.Err != nil && i == vi && flt.Hit() && strings.HasPrefix(want, u.Data) {
											continue // the handler itself met the fault, and knows
										}
										if u.Err != nil || u.Data != want {
											rt.Fail("delivered as %q (%v) instead of %q", u.Data, u.Err, want)
										}
									}
								}
								for i, seq := range order {
									send(i, seq)
								}
								hit := flt.Hit()
								if !hit && len(uploads()) != 1 {
									rt.Fail("delivered %d times without a fault", len(uploads()))
								}
								sendBeat(p, 2)
								if len(uploads()) == 0 {
									for _, seq := range order {
										if !acked[seq] {
											send(-1, seq)
										}
									}
									for _, seq := range order {
										if len(uploads()) == 0 {
											send(-1, seq)
										}
									}
									if len(uploads()) != 1 {
										rt.Fail("after sending everything again the upload is delivered %d times", len(uploads()))
									}
								}
								alive(p, s)
							}})
						}
					}
				}
			}
		}
		return out
	}

	props["C27"] = func(tier string) []Scen {
		var out []Scen
		for _, sum := range []uint16{1, 2, 3} {
			for oi, order := range orders[sum] {
				for vi := range order {
					for _, cut := range []int{0, 1, 1 << 30} {
						for _, before := range []string{"none", "same", "done"} {
							for at := 1; at <= maxSteps; at++ {
								if at > 20 && cut > 0 {
									break
								}
								sum, order, vi, cut, before, at := sum, order, vi, cut, before, at
								add := func(bound int) {
									out = append(out, Scen{Fam: "crash/" + before, Name: fmt.Sprintf("crash-%s-%d-%d-%d-%d-%d", before, sum, oi, vi, cut%1000, at), Bound: bound, Run: func() {
										files()
										e := start(go808.Options{AutoMergePacket: true})
										e.handleUploads()
										p, _ := e.session(13800138000)
										want := whole(sum)
										rt.Quiet(true)
										switch before {
										case "same": // every packet but the last once before
											for _, seq := range order[:len(order)-1] {
												p.pkt(idMedia, sum, seq, media(7, data(seq)))
											}
										case "done": // another upload of the same name before
											for _, seq := range order {
												p.pkt(idMedia, sum, seq, media(7, "old"+data(seq)+"old"))
											}
										}
										rt.Idle()
										rt.Quiet(false)
										r0, u0 := len(replies(p.wire())), len(uploads())
										acked := map[uint16]bool{}
										if before == "same" {
											for _, seq := range order[:len(order)-1] {
												acked[seq] = true
											}
										}
										rt.WriteHook = flt.Dead
										for i, seq := range order {
											if i == vi {
												flt.On(flt.Crash, at, cut, syscall.EIO, false)
											}
											no := p.pkt(idMedia, sum, seq, media(7, data(seq)))
											rt.Idle()
											for _, r := range replies(p.wire())[r0:] {
												if bytes.Equal(r[:4], general(no, idMedia, 0)[:4]) {
													if r[4] != 0 {
														rt.Fail("a packet is refused although storage works")
													}
													acked[seq] = true
												}
											}
											if flt.Dead() {
												break
											}
											flt.Off()
											if !acked[seq] {
												rt.Fail("packet %d is not acknowledged", seq)
											}
										}
										dead := flt.Dead()
										early := uploads()[u0:]
										// the rest of the process goes without leaving a trace
										rt.Quiet(true)
										e.srv.Stop()
										p.PeerReset()
										rt.Idle()
										flt.Off()
										rt.WriteHook = nil
										u1 := len(uploads())
										if !dead {
											if len(early) != 1 || early[0].Data != want {
												rt.Fail("without a crash: delivered %v", early)
											}
											return
										}
										rt.AcquireEnded()
										reset() // a new process
										e = start(go808.Options{AutoMergePacket: true})
										e.handleUploads()
										q, z := e.session(13800138000)
										rt.Quiet(true)
										missing := false
										for _, seq := range order {
											if !acked[seq] {
												missing = true
												q.pkt(idMedia, sum, seq, media(7, data(seq)))
												rt.Idle()
											}
										}
										us := uploads()[u1:]
										// once the last packet is stored the upload is being merged and handed over;
										// a crash then may lose it, and it has to be sent again as a whole
										if missing && len(us) != 1 && vi < len(order)-1 {
											rt.Fail("packets %v were acknowledged before the crash and the others sent again, but the upload is delivered %d times", acked, len(us))
										}
										if len(us) == 0 {
											for i := 0; i < 2 && len(uploads()) == u1; i++ {
												for _, seq := range order {
													if len(uploads()) == u1 {
														q.pkt(idMedia, sum, seq, media(7, data(seq)))
														rt.Idle()
													}
												}
											}
										}
										us = uploads()[u1:]
										for _, u := range us {
											if u.Err != nil || u.Data != want {
												rt.Fail("after the crash the upload is delivered as %q (%v) instead of %q", u.Data, u.Err, want)
											}
										}
										if len(us) != 1 {
											rt.Fail("after the crash the upload is delivered %d times", len(us))
										}
										rt.Quiet(false)
										alive(q, z)
									}})
								}
								b := 0
								if at <= 10 && cut == 0 {
									b = pick(tier, 3, 4)
								}
								add(b)
							}
						}
					}
				}
			}
		}
		// restarts between packets, several of them
		for _, sum := range []uint16{2, 3, 4} {
			for _, rev := range []bool{false, true} {
				for mask := 1; mask < 1<<(sum-1); mask++ {
					sum, rev, mask := sum, rev, mask
					out = append(out, Scen{Fam: "restart", Name: fmt.Sprintf("restart-%d-%v-%b", sum, rev, mask), Bound: pick(tier, 2, 3), Run: func() {
						files()
						e := start(go808.Options{AutoMergePacket: true})
						e.handleUploads()
						p, s := e.session(13800138000)
						for i := uint16(0); i < sum; i++ {
							seq := i + 1
							if rev {
								seq = sum - i
							}
							n := len(replies(p.wire()))
							p.pkt(idMedia, sum, seq, media(7, data(seq)))
							rt.Idle()
							if rs := replies(p.wire())[n:]; len(rs) != 1 || rs[0][4] != 0 {
								rt.Fail("packet %d is answered with %x", seq, rs)
							}
							if i < sum-1 && mask&(1<<i) != 0 {
								if len(uploads()) != 0 {
									rt.Fail("delivered before it was complete")
								}
								rt.Quiet(true)
								e.srv.Stop()
								rt.Idle()
								rt.AcquireEnded()
								reset()
								e = start(go808.Options{AutoMergePacket: true})
								e.handleUploads()
								p, s = e.session(13800138000)
								rt.Quiet(false)
							}
						}
						if us := uploads(); len(us) != 1 || us[0].Err != nil || us[0].Data != whole(sum) {
							rt.Fail("delivered as %v instead of once as %q", us, whole(sum))
						}
						alive(p, s)
					}})
				}
			}
		}
		return out
	}
}
