package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C13"] = Check{Run: c13, Level: "exploration", Min: 600} }

// hconn is a hostile connection: what it sends is arbitrary, what it receives is collected.
type hconn struct {
	nc   net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	in   []*ini.PDU
	end  error
	sent []string
	pcap []byte // the last bytes sent
}

func newH(nc net.Conn, reading bool) *hconn {
	h := &hconn{nc: nc}
	h.cond = sync.NewCond(&h.mu)
	if reading {
		go h.read()
	}
	return h
}
func (h *hconn) read() {
	for {
		p, err := ini.ReadPDU(h.nc)
		h.mu.Lock()
		if err != nil {
			h.end = err
			h.cond.Broadcast()
			h.mu.Unlock()
			return
		}
		h.in = append(h.in, p)
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

// find waits for a PDU; closed tells the connection ended first.
func (h *hconn) find(match func(p *ini.PDU) bool, d time.Duration) (got *ini.PDU, closed bool) {
	dl := time.Now().Add(d)
	t := time.AfterFunc(d, func() { h.mu.Lock(); h.cond.Broadcast(); h.mu.Unlock() })
	defer t.Stop()
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		for _, p := range h.in {
			if match(p) {
				return p, false
			}
		}
		if h.end != nil {
			return nil, true
		}
		if time.Now().After(dl) {
			return nil, false
		}
		h.cond.Wait()
	}
}
func (h *hconn) write(b []byte) {
	h.nc.SetWriteDeadline(time.Now().Add(30 * time.Second))
	h.nc.Write(b)
	h.pcap = append(h.pcap, b...)
	if len(h.pcap) > 4096 {
		h.pcap = h.pcap[len(h.pcap)-4096:]
	}
}
func (h *hconn) pdu(p *ini.PDU) {
	h.sent = append(h.sent, short(p.String(), 200))
	h.write(p.Bytes())
}

func c13(r *ck.Run) {
	r.Rule("episodes of hostile connections of ten kinds (noise, logins cut at every offset, mutated login PDUs and texts, endless continuation, framed PDUs with mutated headers and stray Data-Out/SNACK/TMF/text, corrupted parameter lists, unframed cuts and insertions after login, oversized data and header segments, floods nobody reads, texts without end, huge announced lengths) in parallel with a victim session that compares everything it reads; afterwards fresh logins, the victim's medium, the bytes no hostile command addressed, and the process; a hostile connection whose framing is intact is asked for a ping and a command: it must answer or be closed. Well-formed logins, pings, reads, writes, texts and task management whose additional headers (0 to 255 words), data and padding hold forged requests, cut into TCP segments anywhere: each is answered as itself and no forged request is executed. Non-trivial: the hostile bytes were sent; distinct by (kind, mutation, what the target did)")
	r.Assume("a connection whose framing was destroyed may wait for the bytes its last header announced")
	n := r.Q(84, 400)
	r.Each(n, 7, func(i int) { c13Episode(r, i) })
	r.Each(r.Q(21, 160), 7, func(i int) { c13Framing(r, i) })
	r.Each(r.Q(2, 4), 2, func(i int) { c13Memory(r, i) })
}

func c13Spec() tgt.Spec {
	sp := spec1(Dev{ID: 1, Name: "v", Size: 1 << 20, Shift: 9}, Dev{ID: 2, Name: "h", Size: 1 << 20, Shift: 9})
	sp.Config.ISCSITargets[TN(0)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 1}}
	sp.Config.ISCSITargets[TN(1)] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 2}}
	return sp
}

const c13Free = 64 // blocks of h that hostile commands address

func c13Episode(r *ck.Run, i int) {
	rng := r.Rng("ep", i)
	cas := fmt.Sprint(i)
	ch := start(r, cas, c13Spec(), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	mh := NewModel(1 << 20)
	pat := fill(rng, 1<<20)
	ch.Poke("h", 0, pat)
	mh.Write(0, pat)
	// the victim
	v := login(r, ch, cas, ini.LoginOpts{ISID: [6]byte{0x80, 1, 3, byte(i >> 8), byte(i), 1}})
	if v == nil {
		return
	}
	defer v.Close()
	mv := NewModel(1 << 20)
	var stop int32
	vops := int64(0)
	vdone := make(chan bool)
	vr := r.Rng("victim", i)
	go func() {
		defer close(vdone)
		for atomic.LoadInt32(&stop) == 0 {
			n := 1 + vr.Intn(64)
			l := vr.Intn(2048 - n)
			d := fill(vr, n*512)
			t, ok := v.cmd(ini.WriteCmd(ini.LUN(0), ini.WRITE10, uint64(l), uint32(n), d, 0), "victim's WRITE(10)")
			if !ok {
				return
			}
			if t.Status != 0 {
				r.Violate("victim-write-failed", cas, tail(v.Trace(), 10), "a write of a session that did nothing wrong ended with %s", t.Outcome())
				return
			}
			mv.Write(int64(l)*512, d)
			n = 1 + vr.Intn(64)
			l = vr.Intn(2048 - n)
			t, ok = v.cmd(ini.ReadCmd(ini.LUN(0), ini.READ10, uint64(l), uint32(n), 512, 0), "victim's READ(10)")
			if !ok {
				return
			}
			if t.Status != 0 || diffAt(t.Data, mv.Read(int64(l)*512, n*512)) >= 0 {
				r.Violate("victim-read-wrong", cas, tail(v.Trace(), 10), "a read of a session that did nothing wrong ended with %s and %d bytes that are not what it wrote", t.Outcome(), len(t.Data))
				return
			}
			atomic.AddInt64(&vops, 2)
		}
	}()
	framed := i%2 == 0 // only then what hostile commands address is known
	var last []string
	for k := 0; k < r.Q(26, 40); k++ {
		var kind, did string
		var h *hconn
		if framed {
			kind = []string{"pdus", "params", "login-pdu", "text"}[rng.Intn(4)]
		} else {
			kind = []string{"noise", "login-cut", "unframed", "oversize", "flood", "login-pdu"}[rng.Intn(6)]
		}
		h, did = c13Hostile(r, ch, rng, cas, kind, k+i*100)
		if h != nil {
			last = tail(h.sent, 30)
			go func() { time.Sleep(time.Duration(k%3) * 100 * time.Millisecond); h.nc.Close() }()
		}
		r.Eval(kind + did)
		if k < 2 && i < 4 && h != nil {
			r.Sample(map[string]interface{}{"kind": kind, "sent": tail(h.sent, 4), "did": did, "victim_ops": atomic.LoadInt64(&vops)})
		}
		if ch.Crashed(0) {
			dead(r, ch, cas, fmt.Sprintf("hostile connection (%s): %s", kind, strings.Join(last, " ; ")))
			atomic.StoreInt32(&stop, 1)
			return
		}
	}
	atomic.StoreInt32(&stop, 1)
	<-vdone
	r.Add("victim_ops", vops)
	if v.bad {
		return
	}
	if dead(r, ch, cas, "hostile connections, the last: "+strings.Join(last, " ; ")) {
		return
	}
	for _, tn := range []string{TN(0), TN(1), ""} {
		s := login(r, ch, cas, ini.LoginOpts{Target: tn, Discovery: tn == "", Initiator: "iqn.2020-01.verif:after", ISID: [6]byte{0x80, 7, 7, 7, 7, 7}})
		if s == nil {
			return
		}
		s.Close()
	}
	if off, why := compareMedium(ch, "v", mv); why != "" {
		r.Violate("victim-medium", cas, nil, "byte %d of the medium of a target no hostile session was logged in to %s", off, why)
	}
	if framed {
		lo := int64(c13Free * 512)
		got := ch.Peek("h", lo, int(1<<20-lo))
		if d := diffAt(got, pat[lo:]); d >= 0 {
			r.Violate("wild-write", cas, nil, "byte %d of the medium changed although every write sent addressed blocks below %d", lo+int64(d), c13Free)
		}
	}
}

// c13Hostile runs one hostile connection and tells what became of it.
func c13Hostile(r *ck.Run, ch *tgt.Child, rng *rand.Rand, cas, kind string, k int) (*hconn, string) {
	o := ini.LoginOpts{Addr: ch.Spec.Addr(), Target: TN(1), Initiator: fmt.Sprintf("iqn.2020-01.verif:h%d", rng.Intn(3)), ISID: [6]byte{0x80, 6, byte(k >> 16), byte(k >> 8), byte(k), 2}, CmdSN: rng.Uint32()}
	loginKV := append([]ini.KV{{K: "InitiatorName", V: o.Initiator}, {K: "TargetName", V: o.Target}, {K: "SessionType", V: "Normal"}}, ini.DefaultKeys(&o)...)
	dial := func(reading bool) *hconn {
		nc, err := ini.Dial(o)
		if err != nil {
			if !dead(r, ch, cas, "connect") {
				r.Violate("no-connect", cas, nil, "the target does not accept a connection: %v", err)
			}
			return nil
		}
		return newH(nc, reading)
	}
	raw := func(reading bool) *hconn { // logged in
		o.Raw = true
		c, err := ini.Login(o)
		if err != nil {
			if !dead(r, ch, cas, "login") {
				r.Violate("login-failed", cas, nil, "a well-formed login failed after hostile connections: %v", err)
			}
			return nil
		}
		return newH(c.NC, reading)
	}
	did := ""
	switch kind {
	case "noise":
		h := dial(true)
		if h == nil {
			return nil, "no"
		}
		n := []int{1, 47, 48, 49, 96, 500, 4096, 70000}[rng.Intn(8)]
		b := fill(rng, n)
		switch rng.Intn(4) {
		case 0:
			b = bytes.Repeat([]byte{0}, n)
		case 1:
			b = bytes.Repeat([]byte{0xff}, n)
		case 2:
			if n >= 48 {
				b[0] = []byte{0x43, 0x03, 0x01, 0x41, 0x40, 0x05}[rng.Intn(6)]
				b[4], b[5], b[6] = byte(rng.Intn(2)*rng.Intn(256)), 0, byte(rng.Intn(3))
			}
		}
		h.write(b)
		return h, fmt.Sprint(n, b[0]&0x3f)
	case "login-cut":
		h := dial(true)
		if h == nil {
			return nil, "no"
		}
		b := ini.LoginPDU(&o, 1, 3, true, 1, loginKV).Bytes()
		cut := rng.Intn(len(b))
		h.write(b[:cut])
		if rng.Intn(2) == 0 {
			h.nc.(*net.TCPConn).CloseWrite()
		} else if rng.Intn(2) == 0 {
			h.nc.(*net.TCPConn).SetLinger(0)
		}
		return h, fmt.Sprint(cut / 16)
	case "login-pdu":
		h := dial(true)
		if h == nil {
			return nil, "no"
		}
		for j, n := 0, 1+rng.Intn(4); j < n; j++ {
			p := ini.LoginPDU(&o, byte(rng.Intn(2)), []byte{1, 3}[rng.Intn(2)], rng.Intn(2) == 0, uint32(rng.Intn(3)), loginKV)
			m := ""
			switch c := rng.Intn(8); c {
			case 0, 1:
				m = "text"
				p.Data = badText(rng, loginKV)
			case 2:
				m = "cont"
				p.H[1] = p.H[1]&0x0f | 0x40
				p.Data = p.Data[:rng.Intn(len(p.Data)+1)]
			case 3:
				m = "ahs"
				p.AHS = fill(rng, 4*(1+rng.Intn(255)))
			case 4:
				m = "empty"
				p.Data = nil
			default:
				m = "hdr"
				for x, y := 0, 1+rng.Intn(4); x < y; x++ {
					q := rng.Intn(48)
					if q >= 4 && q <= 7 {
						continue
					}
					if rng.Intn(2) == 0 {
						p.H[q] ^= 1 << uint(rng.Intn(8))
					} else {
						p.H[q] = byte(rng.Intn(256))
					}
				}
			}
			did += m + ","
			h.mu.Lock()
			had := len(h.in)
			h.mu.Unlock()
			op := p.Op()
			h.pdu(p)
			if len(p.Data) > 65536 || op != ini.OpLogin {
				break
			}
			// a login request is answered, or the connection ends
			idx := 0
			got, closed := h.find(func(*ini.PDU) bool { idx++; return idx > had }, ini.Watchdog)
			if got == nil && !closed {
				if dead(r, ch, cas, "hostile login: "+strings.Join(tail(h.sent, 5), " ; ")) {
					return h, did
				}
				if progress(ch, 5) == nil {
					r.Violate("login-stuck", cas, h.sent, "a framed login request got neither an answer nor a close: %s", h.sent[len(h.sent)-1])
				}
				return h, did
			}
			if closed {
				return h, did + "closed"
			}
			if got.Op() == ini.OpLoginResp && (got.H[36] != 0 || got.H[1]&0x83 == 0x83) {
				return h, did + fmt.Sprint(got.H[36])
			}
		}
		return h, did
	case "text", "pdus", "params":
		if kind == "text" && rng.Intn(2) == 0 {
			o.Discovery = true
		}
		h := raw(true)
		if h == nil {
			return nil, "no"
		}
		sn := o.CmdSN
		var tags []uint32
		for j, n := 0, 3+rng.Intn(20); j < n; j++ {
			var p *ini.PDU
			m := ""
			switch kind {
			case "text":
				p, m = c13Text(rng)
			case "params":
				p, m = c13Params(rng)
			default:
				p, m = c13PDU(rng, tags)
			}
			if rng.Intn(3) > 0 {
				p.Put32(24, sn)
				if p.H[0]&0x40 == 0 && p.Op() != ini.OpDataOut && p.Op() != ini.OpSNACK {
					sn++
				}
			}
			if p.Op() == ini.OpCmd {
				tags = append(tags, p.ITT())
			}
			did = m
			h.pdu(p)
			if p.Op() == ini.OpDataOut && rng.Intn(4) > 0 {
				break // may well end the connection
			}
		}
		// is it still usable?
		ping := &ini.PDU{}
		ping.H[0], ping.H[1] = ini.OpNop|0x40, 0x80
		ping.Put32(16, 0xabcd0001)
		ping.Put32(20, 0xffffffff)
		ping.Put32(24, sn)
		h.pdu(ping)
		pong, closed := h.find(func(p *ini.PDU) bool { return p.Op() == ini.OpNopIn && p.ITT() == 0xabcd0001 }, ini.Watchdog)
		if closed {
			return h, kind + did + "-closed"
		}
		if pong == nil {
			if !dead(r, ch, cas, "hostile: "+strings.Join(tail(h.sent, 8), " ; ")) && progress(ch, 20) == nil {
				r.Violate("stuck:"+did, cas, h.sent, "after framed hostile PDUs (the last: %s) the connection neither answers a ping nor is closed", strings.Join(tail(h.sent, 3), " ; "))
			}
			return h, "stuck"
		}
		if o.Discovery {
			return h, kind + did + "-alive"
		}
		tur := &ini.PDU{}
		tur.H[0], tur.H[1] = ini.OpCmd, 0x80
		tur.Put32(16, 0xabcd0002)
		tur.Put32(24, pong.U32(28))
		h.pdu(tur)
		got, closed := h.find(func(p *ini.PDU) bool { return p.ITT() == 0xabcd0002 && p.Op() == ini.OpResp }, ini.Watchdog)
		if got == nil && !closed {
			if !dead(r, ch, cas, "hostile: "+strings.Join(tail(h.sent, 8), " ; ")) && progress(ch, 20) == nil {
				r.Violate("stuck-cmd:"+did, cas, h.sent, "after framed hostile PDUs (%s) a TEST UNIT READY with the expected CmdSN is neither answered nor is the connection closed", strings.Join(tail(h.sent, 4), " ; "))
			}
			return h, "stuck"
		}
		return h, kind + did + "-alive"
	case "unframed":
		h := raw(true)
		if h == nil {
			return nil, "no"
		}
		var b []byte
		for j, n := 0, 1+rng.Intn(6); j < n; j++ {
			p, m := c13PDU(rng, nil)
			did = m
			p.Put32(24, o.CmdSN+uint32(j))
			b = append(b, p.Bytes()...)
		}
		switch rng.Intn(4) {
		case 0:
			b = b[:rng.Intn(len(b))]
			did += "cut"
		case 1:
			at := rng.Intn(len(b))
			b = append(append(append([]byte{}, b[:at]...), fill(rng, 1+rng.Intn(5))...), b[at:]...)
			did += "ins"
		case 2:
			at := rng.Intn(len(b))
			b = append(append([]byte{}, b[:at]...), b[min64(int64(len(b)), int64(at+1+rng.Intn(6))):]...)
			did += "del"
		case 3:
			for x := 0; x < 4; x++ {
				b[4+rng.Intn(4)] = byte(rng.Intn(256)) // lengths
			}
			did += "len"
		}
		h.write(b)
		if rng.Intn(3) == 0 {
			h.nc.(*net.TCPConn).SetLinger(0)
			h.nc.Close()
		}
		return h, did
	case "oversize":
		h := raw(true)
		if h == nil {
			return nil, "no"
		}
		p, m := c13PDU(rng, nil)
		p.Put32(24, o.CmdSN)
		b := p.Bytes()[:48]
		n := []int{65537, 65540, 262144, 1 << 20, 1<<24 - 1}[rng.Intn(5)]
		b[5], b[6], b[7] = byte(n>>16), byte(n>>8), byte(n)
		if rng.Intn(3) == 0 {
			b[4] = 255
		}
		h.write(b)
		send := int(min64(int64(n), int64(rng.Intn(300000))))
		h.write(bytes.Repeat([]byte{0x41}, send))
		return h, fmt.Sprint(m, n)
	case "flood":
		h := raw(false) // nobody reads
		if h == nil {
			return nil, "no"
		}
		go func() {
			var b []byte
			for j := 0; j < 120; j++ {
				c := &ini.PDU{}
				c.H[0], c.H[1] = ini.OpCmd, 0xc0
				c.Put32(16, uint32(j+1))
				c.Put32(20, 512*1024)
				c.Put32(24, o.CmdSN+uint32(j))
				copy(c.H[32:], ini.RW(ini.READ10, uint64(j%1000), 1024, 0))
				b = append(b, c.Bytes()...)
			}
			h.nc.SetWriteDeadline(time.Now().Add(5 * time.Second))
			h.nc.Write(b)
		}()
		time.Sleep(30 * time.Millisecond)
		if rng.Intn(2) == 0 {
			h.nc.(*net.TCPConn).SetLinger(0)
		}
		return h, "flood"
	}
	return nil, ""
}

// badText is a login or text data segment that is not what it should be.
func badText(rng *rand.Rand, kv []ini.KV) []byte {
	b := ini.EncodeKV(kv)
	switch rng.Intn(12) {
	case 0:
		return []byte(strings.ReplaceAll(string(b), "=", ""))
	case 1:
		return bytes.ReplaceAll(b, []byte{0}, nil)
	case 2:
		return fill(rng, 1+rng.Intn(2000))
	case 3:
		return bytes.Repeat([]byte{0}, 1+rng.Intn(4000))
	case 4:
		return []byte(strings.Repeat("=", 1+rng.Intn(3000)))
	case 5:
		return append([]byte("MaxRecvDataSegmentLength="+strings.Repeat("9", 1+rng.Intn(400))+"\x00"), b...)
	case 6:
		return append(b, []byte("MaxBurstLength=-1\x00FirstBurstLength=0x\x00ErrorRecoveryLevel=\x00MaxConnections==\x00HeaderDigest=,,,\x00")...)
	case 7:
		var x []byte
		for i := 0; i < 800; i++ {
			x = append(x, fmt.Sprintf("X-k%d=%d\x00", i, i)...)
		}
		return append(b, x...)
	case 8:
		return append(b, bytes.Repeat([]byte("TargetName="+TN(1)+"\x00"), 50)...)
	case 9:
		return b[:rng.Intn(len(b))]
	case 10:
		for x := 0; x < 10; x++ {
			b[rng.Intn(len(b))] = byte(rng.Intn(256))
		}
		return b
	}
	return append([]byte("TargetName="+strings.Repeat("a", 1000+rng.Intn(50000))+"\x00"), b...)
}

func c13Text(rng *rand.Rand) (*ini.PDU, string) {
	p := &ini.PDU{}
	p.H[0], p.H[1] = ini.OpText|byte(rng.Intn(2))<<6, []byte{0x80, 0x00, 0x40, 0xc0}[rng.Intn(4)]
	p.Put32(16, rng.Uint32())
	p.Put32(20, []uint32{0xffffffff, 0xffffffff, 0, 1, rng.Uint32()}[rng.Intn(5)])
	p.Put32(24, rng.Uint32())
	m := "send"
	switch rng.Intn(4) {
	case 0:
		p.Data = []byte("SendTargets=" + []string{"All", "", TN(0), strings.Repeat("x", 30000), "\xff", "All\x00SendTargets=All"}[rng.Intn(6)] + "\x00")
	case 1:
		m = "bad"
		p.Data = badText(rng, []ini.KV{{K: "SendTargets", V: "All"}})
	case 2:
		m = "empty"
	case 3:
		m = "big"
		p.Data = bytes.Repeat([]byte("SendTargets=All\x00"), 1+rng.Intn(4000))
	}
	return p, m
}

// c13PDU is any PDU with a header that may be anything, except that writes only address the first blocks.
func c13PDU(rng *rand.Rand, tags []uint32) (*ini.PDU, string) {
	p := &ini.PDU{}
	rng.Read(p.H[:])
	p.H[4], p.H[5], p.H[6], p.H[7] = 0, 0, 0, 0
	if rng.Intn(2) == 0 {
		for j := 8; j < 16; j++ {
			p.H[j] = 0
		}
	}
	if len(tags) > 0 && rng.Intn(2) == 0 {
		p.Put32(16, tags[rng.Intn(len(tags))])
	}
	ops := []byte{ini.OpNop, ini.OpCmd, ini.OpCmd, ini.OpCmd, ini.OpTMF, ini.OpLogin, ini.OpText, ini.OpDataOut, ini.OpSNACK, 0x1c, 0x1d, 0x3f, 0x20, 0x25, byte(rng.Intn(64))}
	op := ops[rng.Intn(len(ops))]
	if op == ini.OpLogout {
		op = ini.OpNop
	}
	imm := byte(0)
	if rng.Intn(3) == 0 {
		imm = 0x40
	}
	p.H[0] = op | imm
	m := fmt.Sprintf("op%02x", op)
	switch rng.Intn(4) {
	case 0:
		p.Data = fill(rng, rng.Intn(700))
	case 1:
		p.AHS = fill(rng, 4*rng.Intn([]int{20, 256}[rng.Intn(2)]))
	}
	if rng.Intn(2) == 0 {
		p.H[1] |= 0x80
	}
	switch op {
	case ini.OpCmd:
		m += c13CDB(rng, p)
	case ini.OpTMF:
		if len(tags) > 0 {
			p.Put32(20, tags[rng.Intn(len(tags))])
		}
		m += fmt.Sprint(p.H[1] & 0x7f % 12)
	case ini.OpDataOut:
		if rng.Intn(2) == 0 {
			p.Put32(40, 0)
		}
	}
	return p, m
}

// c13CDB puts a CDB in: random for anything that does not write, otherwise one that addresses the first blocks.
func c13CDB(rng *rand.Rand, p *ini.PDU) string {
	cdb := p.H[32:48]
	op := cdb[0]
	if rng.Intn(2) == 0 {
		known := []byte{ini.TUR, ini.REQSENSE, ini.INQUIRY, ini.MODESEL6, ini.RESERVE6, ini.RELEASE6, ini.MODESNS6, ini.READCAP10, ini.READ10, ini.WRITE10, ini.VERIFY10, ini.SYNC10, ini.WRSAME10, ini.UNMAP,
			ini.MODESEL10, ini.MODESNS10, ini.PRIN, ini.PROUT, ini.READ16, ini.WRITE16, ini.ORWRITE, ini.WRVER16, ini.VERIFY16, ini.SAI16, ini.RPTLUNS, ini.MAINTIN, ini.READ6, ini.WRITE6, ini.CAW}
		op = known[rng.Intn(len(known))]
		cdb[0] = op
	}
	edtl := []uint32{0, 1, 511, 512, 4096, 65536, 0x7fffffff, 0xffffffff, rng.Uint32()}[rng.Intn(9)]
	p.Put32(20, edtl)
	switch op {
	case ini.WRITE6, ini.WRITE10, ini.WRITE12, ini.WRITE16, ini.WRVER10, ini.WRVER12, ini.WRVER16, ini.ORWRITE, ini.WRSAME10, ini.WRSAME16, ini.CAW:
		l := rng.Intn(c13Free)
		n := 1 + rng.Intn(c13Free-l)
		copy(cdb, make([]byte, 16))
		fl := byte(rng.Intn(256))
		if op == ini.WRSAME10 || op == ini.WRSAME16 {
			fl &= 0xf0
		}
		copy(cdb, ini.RW(op, uint64(l), uint32(n), fl))
	case ini.UNMAP: // the list decides
	case ini.READ6, ini.READ10, ini.READ12, ini.READ16, ini.VERIFY10, ini.VERIFY12, ini.VERIFY16, ini.PREFETCH, ini.PREFETCH16, ini.SYNC10, ini.SYNC16:
		if rng.Intn(2) == 0 {
			copy(cdb, ini.RW(op, uint64(rng.Intn(2100)), uint32(rng.Intn(300)), byte(rng.Intn(256))))
		}
	}
	return fmt.Sprintf("-%02x", op)
}

// c13Params is a command with a parameter list that is cut, too long or corrupted.
func c13Params(rng *rand.Rand) (*ini.PDU, string) {
	p := &ini.PDU{}
	p.H[0], p.H[1] = ini.OpCmd, 0xa0
	p.Put32(16, rng.Uint32())
	cdb := p.H[32:48]
	var list []byte
	n := rng.Intn(64)
	m := ""
	switch rng.Intn(6) {
	case 0, 1:
		m = "prout"
		list = make([]byte, 24)
		if rng.Intn(2) == 0 {
			list = make([]byte, 24+rng.Intn(60))
		}
		for x := 0; x < 6; x++ {
			list[rng.Intn(len(list))] = byte(rng.Intn(256))
		}
		cdb[0], cdb[1], cdb[2] = ini.PROUT, byte(rng.Intn(9)), byte(rng.Intn(256))
		if rng.Intn(3) == 0 && len(list) > 24 { // REGISTER AND MOVE with a made-up length
			cdb[1] = 7
			binary.BigEndian.PutUint32(list[20:], rng.Uint32()>>uint(rng.Intn(32)))
		}
		n = len(list)
		if rng.Intn(2) == 0 {
			n = rng.Intn(100)
		}
		binary.BigEndian.PutUint32(cdb[5:], uint32(n))
	case 2:
		m = "unmap"
		list = fill(rng, 8+rng.Intn(80))
		binary.BigEndian.PutUint16(list, uint16(rng.Intn(100)))
		binary.BigEndian.PutUint16(list[2:], uint16(rng.Intn(100)))
		cdb[0] = ini.UNMAP
		for q := 8; q+16 <= len(list); q += 16 { // in the first blocks or not on the medium
			binary.BigEndian.PutUint64(list[q:], uint64(rng.Intn(c13Free)))
			binary.BigEndian.PutUint32(list[q+8:], 0)
			if rng.Intn(2) == 0 {
				binary.BigEndian.PutUint64(list[q:], rng.Uint64()|1<<40)
			}
		}
		n = []int{len(list), rng.Intn(len(list) + 1), len(list) + rng.Intn(50), 65535}[rng.Intn(4)]
		binary.BigEndian.PutUint16(cdb[7:], uint16(n))
	case 3:
		m = "modesel"
		list = fill(rng, rng.Intn(60))
		if rng.Intn(2) == 0 {
			cdb[0] = ini.MODESEL6
			cdb[1] = byte(rng.Intn(256))
			cdb[4] = byte(len(list) + rng.Intn(3) - 1)
		} else {
			cdb[0] = ini.MODESEL10
			binary.BigEndian.PutUint16(cdb[7:], uint16(len(list)+rng.Intn(3)-1))
		}
	case 4:
		m = "data-in"
		list = nil
		c := paramCmds()
		x := c[rng.Intn(len(c))]
		copy(cdb, x.with(rng.Intn(x.max()+1)))
		cdb[1] ^= byte(rng.Intn(256)) & byte(rng.Intn(256)) & byte(rng.Intn(256))
		cdb[2] ^= byte(rng.Intn(256)) & byte(rng.Intn(256))
		p.H[1] = 0xc0
		p.Put32(20, uint32(rng.Intn(300)))
		return p, m
	case 5:
		m = "fmt"
		list = fill(rng, rng.Intn(40))
		cdb[0] = []byte{ini.FORMAT, ini.SENDDIAG, ini.STARTSTOP, ini.PREVENT, ini.MAINTIN, ini.SAI16}[rng.Intn(6)]
		rng.Read(cdb[1:])
	}
	p.Data = list
	p.Put32(20, uint32(len(list)))
	switch rng.Intn(5) {
	case 0:
		p.Put32(20, uint32(n))
	case 1:
		p.H[1] = []byte{0x80, 0xc0, 0xe0, 0x20}[rng.Intn(4)]
	}
	return p, m
}

// c13Memory: what a connection merely announces costs no memory.
func c13Memory(r *ck.Run, i int) {
	rng := r.Rng("mem", i)
	cas := fmt.Sprintf("memory-%d", i)
	ch := start(r, cas, c13Spec(), false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	base := ch.MemPeak()
	for k := 0; k < 12; k++ {
		s := login(r, ch, cas, ini.LoginOpts{Target: TN(1), ISID: [6]byte{0x80, 4, 4, byte(i), byte(k), 2}})
		if s == nil {
			return
		}
		defer s.Close()
		for j := 0; j < 60; j++ { // writes of 4 GiB that never send a byte
			c := ini.Cmd{LUN: ini.LUN(0), CDB: ini.RW([]byte{ini.WRITE16, ini.WRITE12, ini.WRVER16}[rng.Intn(3)], 0, 0x7fffff, 0), Write: true, EDTL: 0xfffffe00, Hold: true, Imm: 0, Xfer: -1, Out: nil}
			if rng.Intn(3) == 0 {
				c = ini.Cmd{LUN: ini.LUN(0), CDB: ini.RW(ini.READ16, 0, 0x7fffff, 0), Read: true, EDTL: 0xfffffe00, Xfer: -1}
			}
			if rng.Intn(4) == 0 {
				c = ini.InCmd(ini.LUN(0), []byte{ini.RPTLUNS, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0, 0}, 0xffffffff)
			}
			s.SendRaw(c13Announce(s, c))
		}
		if _, err := s.Nop([]byte("x"), true); err != nil {
			s.failed(err, "ping after announced lengths")
			return
		}
		r.Eval(fmt.Sprint("mem", k%3))
	}
	// logins and texts that never end
	for k := 0; k < 3; k++ {
		o := ini.LoginOpts{Addr: ch.Spec.Addr(), Target: TN(1), Initiator: "iqn.2020-01.verif:mem", ISID: [6]byte{0x80, 4, 5, byte(i), byte(k), 2}}
		nc, err := ini.Dial(o)
		if err != nil {
			r.Violate("no-connect", cas, nil, "the target does not accept a connection: %v", err)
			return
		}
		h := newH(nc, true)
		p := ini.LoginPDU(&o, 1, 3, false, 1, nil)
		p.H[1] |= 0x40
		p.Data = bytes.Repeat([]byte("X-a=bcdefgh\x00"), 600)
		for j := 0; j < 20000; j++ {
			nc.SetWriteDeadline(time.Now().Add(5 * time.Second))
			if _, err := nc.Write(p.Bytes()); err != nil {
				break
			}
		}
		h.nc.Close()
		r.Eval("mem-login")
	}
	for k := 0; k < 4; k++ { // a text request continued for ever
		s := login(r, ch, cas, ini.LoginOpts{Target: TN(1), ISID: [6]byte{0x80, 4, 6, byte(i), byte(k), 2}, MRDSL: 512})
		if s == nil {
			return
		}
		data := bytes.Repeat([]byte("X-a=bcdefgh\x00"), 600)
		if len(data) > int(s.TgtMRDSL) {
			data = data[:s.TgtMRDSL]
		}
		var many []byte
		for n := 0; len(many) < len(data)-8; n++ {
			many = append(many, fmt.Sprintf("%x=\x00", n)...)
		}
		itt := s.NewITT()
		for j := 0; j < 300<<20/len(data) && s.Closed() == nil; j++ {
			p := &ini.PDU{Data: data}
			p.H[0], p.H[1] = ini.OpText|0x40, 0x40
			if k == 3 { // more to answer each time than one response carries
				p.H[1] = 0
				p.Data = many
			}
			p.Put32(16, itt)
			p.Put32(20, 0xffffffff)
			if j > 0 && k != 1 {
				p.Put32(20, uint32(s.Opts.CID))
			}
			p.Put32(24, s.CmdSN())
			p.Put32(28, s.ExpStatSN())
			s.SendRaw(p)
		}
		s.Close()
		r.Eval("mem-text")
	}
	peak := ch.MemPeak()
	r.Max("announced_memory_mb", int64(peak-base))
	if peak-base > 400 {
		r.Violate("memory", cas, nil, "lengths that were only announced and logins that never end took %d MB (process at %d MB before)", peak-base, base)
	}
	dead(r, ch, cas, "announced lengths")
}

func c13Announce(s *Sess, c ini.Cmd) *ini.PDU {
	p := &ini.PDU{}
	p.H[0], p.H[1] = ini.OpCmd, 0x80
	if c.Read {
		p.H[1] |= 0x40
	}
	if c.Write {
		p.H[1] |= 0x20
	}
	copy(p.H[8:], c.LUN[:])
	p.Put32(16, s.NewITT())
	p.Put32(20, c.EDTL)
	p.Put32(24, s.TakeCmdSN())
	copy(p.H[32:], c.CDB)
	return p
}
