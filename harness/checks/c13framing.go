package checks

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"verif/ck"
	"verif/ini"
)

// c13Framing sends well-formed requests whose additional headers, data and
// padding look like other requests, cut into TCP segments at any place. Each
// request must be answered as what it is and no embedded one may be executed.
func c13Framing(r *ck.Run, i int) {
	rng := r.Rng("framing", i)
	cas := fmt.Sprint("framing-", i)
	ch := start(r, cas, spec1(Dev{ID: 1, Name: "f", Size: 1 << 20, Shift: 9}), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	m := NewModel(1 << 20)
	pat := fill(rng, 1<<20)
	ch.Poke("f", 0, pat)
	m.Write(0, pat)
	o := ini.LoginOpts{Addr: ch.Spec.Addr(), Initiator: "iqn.2020-01.verif:framing", Target: TN(0), ISID: [6]byte{0x80, 5, 5, 5, 5, byte(i)}, CmdSN: uint32(rng.Intn(4)) * 0x55555555}
	c, err := dialRaw(o)
	if err != nil {
		dead(r, ch, cas, "dial")
		return
	}
	defer c.close()
	c.nc.(*net.TCPConn).SetNoDelay(true)
	forged := func(n int) []byte { // n bytes that are full of requests writing where nothing else does
		unit := make([]byte, 0, 560)
		p := c.scsi(ini.LUN(0), ini.RW(ini.WRITE10, 1000+uint64(rng.Intn(100)), 1, 0), 0xa0, 512, fill(rng, 512))
		p.H[0] |= 0x40
		c.itt--
		unit = append(unit, p.Bytes()...)
		var b []byte
		if rng.Intn(2) == 0 {
			b = append(b, make([]byte, 4*rng.Intn(3))...)
		}
		if k := n - 560; k > 0 && rng.Intn(3) > 0 {
			b = append(b, make([]byte, 4*rng.Intn(k/4+1))...)
		}
		for len(b) < n {
			b = append(b, unit...)
		}
		return b[:n]
	}
	ahs := func() []byte {
		n := 0
		switch rng.Intn(5) {
		case 0:
			n = 1 + rng.Intn(255)
		case 1:
			n = []int{63, 64, 65, 127, 128, 129, 192, 254, 255}[rng.Intn(9)]
		case 2:
			n = 1 + rng.Intn(12)
		}
		return forged(4 * n)
	}
	var sent []string
	send := func(ps ...*ini.PDU) { // cut at any place
		var b []byte
		for _, p := range ps {
			sent = append(sent, short(p.String(), 160)+fmt.Sprintf(" ahs=%d data=%d", len(p.AHS), len(p.Data)))
			x := p.Bytes()
			for k := len(p.Data); k%4 != 0; k++ { // what the padding holds does not matter
				x[len(x)-4+k%4] = byte(rng.Intn(256))
			}
			b = append(b, x...)
		}
		for len(b) > 0 {
			n := len(b)
			switch rng.Intn(4) {
			case 0:
				n = 1 + rng.Intn(n)
			case 1:
				n = 1 + rng.Intn(min64i(n, 60))
			}
			if _, err := c.nc.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
			if len(b) > 0 && rng.Intn(3) == 0 {
				time.Sleep(time.Duration(rng.Intn(800)) * time.Microsecond)
			}
		}
	}
	// the login, its keys spread over requests
	kv := []ini.KV{{K: "InitiatorName", V: o.Initiator}, {K: "TargetName", V: TN(0)}, {K: "SessionType", V: "Normal"}, {K: "AuthMethod", V: "None"}}
	lg := func(csg, nsg byte, kv []ini.KV) bool {
		p := ini.LoginPDU(&c.o, csg, nsg, true, c.itt, kv)
		p.AHS = ahs()
		send(p)
		a, err := c.recv(ini.Watchdog)
		if err != nil || a.Op() != ini.OpLoginResp || a.H[36] != 0 || a.H[1]&0x80 == 0 {
			if !dead(r, ch, cas, "login with additional headers") {
				r.Violate("framing-login", cas, tail(sent, 6), "a login request with %d bytes of additional headers was not answered with its success (%v, %v)", len(p.AHS), a, err)
			}
			return false
		}
		c.stat = a.U32(24) + 1
		c.o.ExpStatSN = c.stat
		return true
	}
	if !lg(0, 1, kv) || !lg(1, 3, []ini.KV{{K: "HeaderDigest", V: "None"}, {K: "MaxRecvDataSegmentLength", V: "65536"}, {K: "ImmediateData", V: "Yes"}}) {
		return
	}
	L := ini.LUN(0)
	next := func() { c.o.CmdSN++ }
	for k := 0; k < r.Q(60, 160); k++ {
		what := ""
		var ps []*ini.PDU
		var want func(a *ini.PDU) string
		p := (*ini.PDU)(nil)
		l, n := uint64(rng.Intn(900)), 1+rng.Intn(16)
		status := func(a *ini.PDU, st byte) string {
			if a.Op() != ini.OpResp || a.H[2] != 0 || a.H[3] != st {
				return "another answer"
			}
			return ""
		}
		switch rng.Intn(8) {
		case 0:
			what = "ping"
			d := fill(rng, rng.Intn(400))
			if rng.Intn(2) == 0 {
				d = forged(4*rng.Intn(300) + rng.Intn(4))
			}
			p = c.req(ini.OpNop, 0, [8]byte{}, 0xffffffff, d)
			if rng.Intn(2) == 0 {
				p.H[0] |= 0x40
			}
			want = func(a *ini.PDU) string {
				if a.Op() != ini.OpNopIn || !bytes.Equal(a.Data, d) {
					return fmt.Sprintf("not the %d bytes of the ping", len(d))
				}
				return ""
			}
		case 1:
			what = "read"
			p = c.scsi(L, ini.RW(ini.READ10, l, uint32(n), 0), 0x40, uint32(n)*512, nil)
			want = func(a *ini.PDU) string {
				var got []byte
				for a.Op() == ini.OpDataIn {
					got = append(got, a.Data...)
					if a.H[1]&1 != 0 {
						break
					}
					var err error
					if a, err = c.recv(ini.Watchdog); err != nil {
						return fmt.Sprint(err)
					}
				}
				if !bytes.Equal(got, m.Read(int64(l)*512, n*512)) {
					return "other data"
				}
				if a.Op() == ini.OpResp {
					return status(a, 0)
				}
				return ""
			}
		case 2, 3:
			what = "write"
			d := forged(n * 512)
			if rng.Intn(2) == 0 {
				d = fill(rng, n*512)
			}
			p = c.scsi(L, ini.RW([]byte{ini.WRITE10, ini.WRITE12, ini.WRITE16}[rng.Intn(3)], l, uint32(n), 0), 0x20, uint32(n)*512, d)
			im := len(d)
			if rng.Intn(2) == 0 { // only part of it with the command
				im = rng.Intn(len(d) + 1)
				p.Data = d[:im]
			}
			want = func(a *ini.PDU) string {
				for a.Op() == ini.OpR2T {
					off, ln := a.U32(40), a.U32(44)
					if uint64(off)+uint64(ln) > uint64(len(d)) {
						return "an R2T beyond the transfer"
					}
					var out []*ini.PDU
					for x, sn := off, uint32(0); x < off+ln; sn++ {
						y := ln + off - x
						if rng.Intn(2) == 0 {
							y = 1 + uint32(rng.Intn(int(y)))
						}
						if y > 65536 {
							y = 65536
						}
						q := &ini.PDU{Data: d[x : x+y], AHS: ahs()}
						q.H[0] = ini.OpDataOut
						if x+y == off+ln {
							q.H[1] = 0x80
						}
						copy(q.H[8:16], L[:])
						q.Put32(16, p.ITT())
						q.Put32(20, a.U32(20))
						q.Put32(28, c.stat)
						q.Put32(36, sn)
						q.Put32(40, x)
						out = append(out, q)
						x += y
					}
					send(out...)
					var err error
					if a, err = c.recv(ini.Watchdog); err != nil {
						return fmt.Sprint(err)
					}
				}
				m.Write(int64(l)*512, d)
				return status(a, 0)
			}
		case 4:
			what = "task management"
			p = c.req(ini.OpTMF, 1, L, 0xdeadbeef, nil)
			p.H[0] |= 0x40
			p.Put32(32, c.o.CmdSN-1)
			want = func(a *ini.PDU) string {
				if a.Op() != ini.OpTMFResp {
					return "another answer"
				}
				return ""
			}
		case 5:
			what = "text"
			p = c.req(ini.OpText, 0, [8]byte{}, 0xffffffff, []byte("SendTargets="+TN(0)+"\x00"))
			want = func(a *ini.PDU) string {
				if a.Op() != ini.OpTextResp || !bytes.Contains(a.Data, []byte("TargetName="+TN(0))) {
					return "another answer"
				}
				return ""
			}
		case 6:
			what = "command without data"
			p = c.scsi(L, make([]byte, 16), 0, 0, nil)
			want = func(a *ini.PDU) string { return status(a, 0) }
		default:
			what = "refused write"
			d := forged(n * 512)
			p = c.scsi(L, ini.RW(ini.WRITE10, 2049, uint32(n), 0), 0x20, uint32(n)*512, d)
			want = func(a *ini.PDU) string { return status(a, 2) }
		}
		p.AHS = ahs()
		itt := p.ITT()
		if p.H[0]&0x40 == 0 {
			next()
		}
		ps = append(ps, p)
		send(ps...)
		a, err := c.recv(ini.Watchdog)
		how := fmt.Sprintf("%s with %d bytes of additional headers and %d of data", what, len(p.AHS), len(p.Data))
		if err != nil {
			if !dead(r, ch, cas, how) {
				if err == errQuiet && progress(ch, 5) == nil {
					r.Violate("framing-stuck", cas, tail(sent, 8), "a well-formed %s was never answered", how)
				} else {
					r.Violate("framing-closed", cas, tail(sent, 8), "a well-formed %s cost the connection: %v", how, err)
				}
			}
			return
		}
		c.stat = a.U32(24)
		why := ""
		if a.ITT() != itt {
			why = fmt.Sprintf("an answer for tag %x", a.ITT())
		} else {
			why = want(a)
		}
		c.stat++
		if why != "" {
			r.Violate("framing-answer", cas, map[string]interface{}{"sent": tail(sent, 8), "log": tail(c.log, 8)}, "a well-formed %s got %s: %s", how, a, why)
			return
		}
		r.Eval(fmt.Sprint("framing ", what, len(p.AHS)/256, len(p.AHS) > 0, len(p.Data)%4))
		r.Add("framing_requests", 1)
		if k == 3 && i < 2 {
			r.Sample(map[string]interface{}{"framing": tail(sent, 4)})
		}
	}
	if off, why := compareMedium(ch, "f", m); why != "" {
		r.Violate("framing-executed", cas, tail(sent, 10), "byte %d of the medium %s: only the content of additional headers, data or padding looks like a request for it", off, why)
	}
	dead(r, ch, cas, "requests that look like others")
}

func min64i(a, b int) int {
	if a < b {
		return a
	}
	return b
}
