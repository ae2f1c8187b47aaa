package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"verif/ck"
	"verif/ini"
)

func init() { All["C10"] = Check{Run: c10, Level: "exploration", Min: 800} }

// nkey is a negotiable key: how its outcome follows from the offer.
type nkey struct {
	name     string
	rule     string // and or min max list only(=the only value a target without the feature may agree to)
	min, max uint64
	def      uint64
	want     string // the only legal agreement, for features this target does not implement
	obsolete bool   // Irrelevant, Reject or NotUnderstood are legal answers whatever the offer
}

var nkeys = []nkey{
	{name: "HeaderDigest", rule: "list", want: "None"},
	{name: "DataDigest", rule: "list", want: "None"},
	{name: "InitialR2T", rule: "or"},
	{name: "ImmediateData", rule: "and"},
	{name: "MaxBurstLength", rule: "min", min: 512, max: 16777215, def: 262144},
	{name: "FirstBurstLength", rule: "min", min: 512, max: 16777215, def: 65536},
	{name: "MaxConnections", rule: "min", min: 1, max: 65535, want: "1"},
	{name: "MaxOutstandingR2T", rule: "min", min: 1, max: 65535, def: 1},
	{name: "ErrorRecoveryLevel", rule: "min", min: 0, max: 2, want: "0"},
	{name: "DefaultTime2Wait", rule: "max", min: 0, max: 3600},
	{name: "DefaultTime2Retain", rule: "min", min: 0, max: 3600},
	{name: "DataPDUInOrder", rule: "or"},
	{name: "DataSequenceInOrder", rule: "or"},
	{name: "IFMarker", rule: "and", want: "No", obsolete: true},
	{name: "OFMarker", rule: "and", want: "No", obsolete: true},
	{name: "IFMarkInt", rule: "skip", obsolete: true},
	{name: "OFMarkInt", rule: "skip", obsolete: true},
	{name: "RDMAExtensions", rule: "and", want: "No", obsolete: true},
	{name: "TaskReporting", rule: "skip", obsolete: true},
	{name: "X-com.example.foo", rule: "unknown"},
	{name: "NoSuchKey", rule: "unknown"},
	{name: "MaxQueueCmd", rule: "unknown"},
	{name: "MaxXmitDataSegmentLength", rule: "unknown"},
}

func num(v string) (uint64, bool) {
	if strings.HasPrefix(v, "0x") || strings.HasPrefix(v, "0X") {
		n, err := strconv.ParseUint(v[2:], 16, 64)
		return n, err == nil
	}
	n, err := strconv.ParseUint(v, 10, 64)
	return n, err == nil
}

func isNeg(v string) bool { return v == "Reject" || v == "Irrelevant" || v == "NotUnderstood" }

// offer makes an offered value; legal tells whether it is one the standard allows.
func (k nkey) offer(rng *rand.Rand) (v string, legal bool) {
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	switch k.rule {
	case "list":
		v = pick("None", "None", "CRC32C", "CRC32C,None", "None,CRC32C", "X-com.foo,None", "CRC32C,X-com.foo", "CRC32,None", "none-such", "CRC32C,NoneX", "NoneX,CRC32C", "XNone", "Non")
		return v, true
	case "and", "or":
		if rng.Intn(8) == 0 {
			return pick("Maybe", "1", "", "Yess", "yes no"), false
		}
		return pick("Yes", "No"), true
	case "min", "max":
		switch rng.Intn(10) {
		case 0:
			return pick("", "abc", "-1", "99999999999999999999", "0xzz", "1e3", "4294967296", "4294967808", "512k", "0b1000000000", "0o2000", "1_024", "+1024", "0x4_00", "1024.0"), false
		case 1:
			n := k.max + 1 + uint64(rng.Intn(1000))
			return strconv.FormatUint(n, 10), false
		case 2:
			if k.min > 0 {
				return strconv.FormatUint(uint64(rng.Int63n(int64(k.min))), 10), false
			}
		}
		var n uint64
		switch rng.Intn(6) {
		case 0:
			n = k.min
		case 1:
			n = k.max
		case 2:
			n = k.min + 1
		case 3:
			n = k.def
			if n < k.min {
				n = k.min
			}
		case 4:
			n = k.min + uint64(rng.Int63n(int64(k.max-k.min)+1))
		default:
			n = k.min << uint(rng.Intn(12))
			if n > k.max {
				n = k.max
			}
		}
		if rng.Intn(5) == 0 {
			if rng.Intn(3) == 0 {
				return fmt.Sprintf("0X%X", n), true
			}
			return fmt.Sprintf("0x%x", n), true
		}
		return strconv.FormatUint(n, 10), true
	}
	return pick("Yes", "No", "2048", "2048~4096", "None", ""), true
}

// legalAnswer judges an answer to an offer; empty: legal.
func (k nkey) legalAnswer(off, ans string, legal bool) string {
	if k.obsolete && isNeg(ans) {
		return ""
	}
	switch k.rule {
	case "unknown":
		if ans != "NotUnderstood" {
			return "a key the target does not know must be answered NotUnderstood"
		}
		return ""
	case "skip":
		return ""
	case "list":
		for _, o := range strings.Split(off, ",") {
			if o == ans {
				if ans == k.want {
					return ""
				}
				return "the target does not implement it"
			}
		}
		if ans == "Reject" && !strings.Contains(","+off+",", ",None,") {
			return ""
		}
		return "not one of the values offered"
	}
	if !legal {
		if isNeg(ans) {
			return ""
		}
		return "the offer is not legal and must be rejected"
	}
	if isNeg(ans) {
		return "a legal offer of a key every target knows"
	}
	switch k.rule {
	case "and", "or":
		if ans != "Yes" && ans != "No" {
			return "not a boolean"
		}
		if k.rule == "and" && off == "No" && ans != "No" || k.rule == "or" && off == "Yes" && ans != "Yes" {
			return "not the " + strings.ToUpper(k.rule) + " of the offer and anything"
		}
	case "min", "max":
		o, _ := num(off)
		a, ok := num(ans)
		if !ok || a < k.min || a > k.max {
			return "out of range"
		}
		if k.rule == "min" && a > o {
			return "more than offered"
		}
		if k.rule == "max" && a < o {
			return "less than offered"
		}
		if k.want != "" {
			if w, _ := num(k.want); a != w {
				return "the target does not implement more than " + k.want
			}
			return ""
		}
	}
	if k.want != "" && ans != k.want {
		return "the target does not implement it"
	}
	return ""
}

func c10(r *ck.Run) {
	r.Rule("logins offering random subsets of 23 keys and MaxRecvDataSegmentLength in random order with legal, boundary, hexadecimal, binary, octal, grouped, signed, malformed and out-of-range values, in one or several requests, one or two stages, lists whose items almost are the wanted one, logins with very few keys, key lists continued over PDUs; every answer is judged by its key's rule, and the session then runs reads, writes, pings and text requests under a monitor that holds the target to the outcome; distinct by (key, offer class, answer) and by (segment, burst, first burst, immediate) classes of the sessions used")
	n := r.Q(28, 400)
	r.Each(n, 7, func(i int) {
		rng := r.Rng("srv", i)
		cas := fmt.Sprint(i)
		ch := start(r, cas, spec1(Dev{ID: 1, Name: "a", Size: 4 << 20, Shift: 9}), false)
		if ch == nil {
			return
		}
		defer ch.Stop()
		for k := 0; k < r.Q(60, 150); k++ {
			c10Login(r, ch.Spec.Addr(), rng, cas, func(s *ini.Conn) *Sess { return &Sess{Conn: s, r: r, ch: ch, cas: cas} })
		}
		dead(r, ch, cas, "negotiation")
	})
}

func cls(v string) string {
	if n, ok := num(v); ok {
		return fmt.Sprint("n", len(strconv.FormatUint(n, 2)))
	}
	return v
}

func c10Login(r *ck.Run, addr string, rng *rand.Rand, cas string, sess func(*ini.Conn) *Sess) {
	o := ini.LoginOpts{Addr: addr, CmdSN: 1, ExpStatSN: 1}
	rng.Read(o.ISID[:])
	o.ISID[0] = 0x80
	off := map[string]string{}
	legal := map[string]bool{}
	var kv []ini.KV
	mild := rng.Intn(2) == 0 // half of the logins offer legal values only, so that many sessions are used
	few := rng.Intn(3) == 0  // two or three keys only, often related ones
	for _, k := range nkeys {
		if rng.Intn(3) == 0 && !few {
			continue
		}
		if few && rng.Intn(12) > 0 && (!strings.HasSuffix(k.name, "BurstLength") || rng.Intn(4) == 0) {
			continue
		}
		v, ok := k.offer(rng)
		for mild && !ok {
			v, ok = k.offer(rng)
		}
		off[k.name], legal[k.name] = v, ok
		kv = append(kv, ini.KV{K: k.name, V: v})
	}
	mrdsl, mrdslOK := uint32(8192), true
	if rng.Intn(4) > 0 {
		k := nkey{name: "MaxRecvDataSegmentLength", rule: "min", min: 512, max: 16777215, def: 8192}
		v, ok := k.offer(rng)
		for (mild || rng.Intn(6) > 0) && !ok {
			v, ok = k.offer(rng)
		}
		if n, isn := num(v); ok && isn {
			mrdsl = uint32(n)
		}
		mrdslOK = ok
		off[k.name] = v
		kv = append(kv, ini.KV{K: k.name, V: v})
	}
	if rng.Intn(5) == 0 {
		kv = append(kv, ini.KV{K: "InitiatorAlias", V: "an alias"})
	}
	rng.Shuffle(len(kv), func(a, b int) { kv[a], kv[b] = kv[b], kv[a] })
	id := []ini.KV{{K: "InitiatorName", V: "iqn.2020-01.verif:nego"}, {K: "TargetName", V: TN(0)}, {K: "SessionType", V: "Normal"}}
	c, err := dialRaw(o)
	if err != nil {
		return
	}
	var seq []lreq
	shape := rng.Intn(4)
	switch shape {
	case 0:
		seq = []lreq{{csg: 1, nsg: 3, t: true, kv: append(id, kv...)}}
	case 1: // two requests
		k := rng.Intn(len(kv) + 1)
		seq = []lreq{{csg: 1, kv: append(id, kv[:k]...)}, {csg: 1, nsg: 3, t: true, kv: kv[k:]}}
	case 2: // continued
		b := ini.EncodeKV(append(id, kv...))
		k := rng.Intn(len(b))
		seq = []lreq{{csg: 1, c: true, raw: b[:k]}, {csg: 1, nsg: 3, t: true, raw: b[k:]}}
	case 3:
		seq = []lreq{{csg: 0, nsg: 1, t: true, kv: append(id, ini.KV{K: "AuthMethod", V: "None"})}, {csg: 1, nsg: 3, t: true, kv: kv}}
	}
	ans := map[string][]string{}
	var order []string
	var final *ini.PDU
	for _, q := range seq {
		p, err := c.login(q)
		if err == errQuiet {
			r.Violate("login-unanswered", cas, c.log, "a login request was not answered")
			c.close()
			return
		}
		if err != nil || p.Op() != ini.OpLoginResp || p.H[36] != 0 {
			anyBad := !mrdslOK
			for k := range off {
				anyBad = anyBad || k != "MaxRecvDataSegmentLength" && !legal[k] || strings.HasSuffix(k, "Digest") && !strings.Contains(","+off[k]+",", ",None,")
			}
			if !anyBad {
				r.Violate("refused", cas, c.log, "a login offering only legal values was refused")
			}
			r.Eval("refused")
			r.Add("refused", 1)
			c.close()
			return
		}
		if len(p.Data) > 8192 {
			r.Violate("login-segment", cas, nil, "login response with %d bytes of data, 8192 is the limit before the login is done", len(p.Data))
		}
		for _, a := range ini.DecodeKV(p.Data) {
			ans[a.K] = append(ans[a.K], a.V)
			order = append(order, a.K)
			if q.csg == 0 && a.K != "AuthMethod" && !strings.HasPrefix(a.K, "Target") {
				r.Violate("stage", cas, c.log, "the target answers %s=%s in the security stage, where only AuthMethod was offered", a.K, a.V)
			}
		}
		final = p
	}
	if final.H[1]&0x83 != 0x83 {
		r.Violate("transit", cas, c.log, "the last login response has flags %02x", final.H[1])
		c.close()
		return
	}
	if !mrdslOK {
		r.Violate("segment-length-accepted", cas, c.log, "MaxRecvDataSegmentLength=%s is not legal, the login was granted", off["MaxRecvDataSegmentLength"])
		c.close()
		return
	}
	// judge every answer
	eff := map[string]uint64{"MaxBurstLength": 262144, "FirstBurstLength": 65536, "MaxOutstandingR2T": 1}
	imm := true
	byName := map[string]nkey{}
	for _, k := range nkeys {
		byName[k.name] = k
		o, offered := off[k.name]
		a := ans[k.name]
		if !offered {
			continue
		}
		if len(a) != 1 {
			r.Violate("answers:"+k.name, cas, c.log, "%s=%s was answered %d times: %q", k.name, o, len(a), a)
			continue
		}
		r.Eval(fmt.Sprint(k.name, "|", cls(o), "|", cls(a[0])))
		if why := k.legalAnswer(o, a[0], legal[k.name]); why != "" {
			r.Violate("answer:"+k.name, cas, c.log, "%s=%s was answered %s: %s", k.name, o, a[0], why)
		}
		if n, ok := num(a[0]); ok && !isNeg(a[0]) {
			eff[k.name] = n
		}
		if k.name == "ImmediateData" && a[0] == "No" {
			imm = false
		}
		if k.name == "ImmediateData" && o == "No" {
			imm = false
		}
	}
	if _, o1 := off["FirstBurstLength"]; o1 && shape != 1 && len(ans["FirstBurstLength"]) == 1 && !isNeg(ans["FirstBurstLength"][0]) {
		if _, o2 := off["MaxBurstLength"]; o2 && eff["FirstBurstLength"] > eff["MaxBurstLength"] {
			r.Violate("first-burst", cas, c.log, "FirstBurstLength=%d agreed with MaxBurstLength=%d", eff["FirstBurstLength"], eff["MaxBurstLength"])
		}
	}
	tm := uint32(8192)
	for _, k := range order {
		if _, ok := off[k]; ok && k != "MaxRecvDataSegmentLength" {
			continue
		}
		switch k {
		case "TargetPortalGroupTag", "TargetAlias", "TargetAddress":
		case "AuthMethod":
			if shape != 3 || ans[k][0] != "None" {
				r.Violate("unasked", cas, c.log, "the target answers %s=%q", k, ans[k])
			}
		case "MaxRecvDataSegmentLength":
			n, ok := num(ans[k][0])
			if !ok || n < 512 || n > 16777215 || len(ans[k]) != 1 {
				r.Violate("declared-segment", cas, c.log, "the target declares MaxRecvDataSegmentLength %q", ans[k])
			}
			tm = uint32(n)
		default:
			r.Violate("unasked", cas, c.log, "the target answers %s=%q, which was not offered", k, ans[k])
		}
	}
	if len(r.ID) > 0 && rng.Intn(40) == 0 {
		r.Sample(map[string]interface{}{"offered": kv, "answered": ans})
	}
	r.Add("logins", 1)
	r.Eval(fmt.Sprint("session ", shape, cls(fmt.Sprint(mrdsl)), cls(fmt.Sprint(eff["MaxBurstLength"])), cls(fmt.Sprint(eff["FirstBurstLength"])), imm))
	if rng.Intn(3) == 0 && r.Tier == "quick" {
		c.close()
		return
	}
	if eff["FirstBurstLength"] > eff["MaxBurstLength"] {
		eff["FirstBurstLength"] = eff["MaxBurstLength"]
	}
	no := func(k string) bool { return len(ans[k]) == 1 && ans[k][0] == "No" }
	u := c10Use
	if no("InitialR2T") || no("DataPDUInOrder") {
		u = func(r *ck.Run, s *Sess, rng *rand.Rand, cas string) {
			if c10Liberal(r, s, rng, cas, no("InitialR2T"), no("DataPDUInOrder")) {
				c10Use(r, s, rng, cas)
			}
		}
	}
	u(r, sess(ini.Adopt(c.nc, c.o, c.stat, mrdsl, tm, uint32(eff["MaxBurstLength"]), uint32(eff["FirstBurstLength"]), imm)), rng, cas)
}

// c10Use runs I/O under the monitor with the parameters agreed.
func c10Use(r *ck.Run, s *Sess, rng *rand.Rand, cas string) {
	defer s.Close()
	L := ini.LUN(0)
	size := int(s.MaxBurst)*2 + 1024
	if n := int(s.MyMRDSL) * 3; n < size && rng.Intn(2) == 0 {
		size = n
	}
	if size > 300<<10 {
		size = 300 << 10
	}
	blk := size/512 + 1
	base := rng.Intn(4<<20/512 - blk)
	d := fill(rng, blk*512)
	cm := ini.WriteCmd(L, ini.WRITE10, uint64(base), uint32(blk), d, 0)
	if rng.Intn(2) == 0 {
		cm.Imm = rng.Intn(4096)
	}
	wr, ok := s.cmd(cm, "WRITE(10)")
	if !ok {
		return
	}
	rd, ok := s.cmd(ini.ReadCmd(L, ini.READ10, uint64(base), uint32(blk), 512, 0), "READ(10)")
	if !ok {
		return
	}
	if wr.Status != 0 || rd.Status != 0 || !bytes.Equal(rd.Data, d) {
		r.Violate("session-data", cas, tail(s.Trace(), 20), "with segment %d/%d burst %d first %d immediate %v: write %s, read %s, data differs at %d", s.MyMRDSL, s.TgtMRDSL, s.MaxBurst, s.FirstB, s.ImmOK, wr.Outcome(), rd.Outcome(), diffAt(rd.Data, d))
	}
	if rng.Intn(2) == 0 { // pings as long as both sides take
		n := s.MyMRDSL
		if s.TgtMRDSL < n {
			n = s.TgtMRDSL
		}
		if n > 60000 {
			n = 60000
		}
		b := fill(rng, int(n))
		p, err := s.Nop(b, false)
		if err != nil {
			s.failed(err, "NOP-Out")
			return
		}
		if !bytes.Equal(p.Data, b) {
			r.Violate("ping", cas, tail(s.Trace(), 8), "a ping of %d bytes was echoed with %d", len(b), len(p.Data))
		}
	}
	if rng.Intn(3) == 0 { // a new segment length declared in full feature phase
		n := uint32(512 + 4*rng.Intn(4000))
		kv := []ini.KV{{K: "MaxRecvDataSegmentLength", V: fmt.Sprint(n)}}
		const alias, unknown, atLogin = 1, 2, 3
		kind := map[string]int{}
		if rng.Intn(2) == 0 {
			kv = append(kv, ini.KV{K: "InitiatorAlias", V: "later"})
			kind["InitiatorAlias"] = alias
		}
		for i := rng.Intn(4); i > 0; i-- {
			k := fmt.Sprintf("X-com.verif.later%d", i)
			kv = append(kv, ini.KV{K: k, V: fmt.Sprint(rng.Intn(1e6))})
			kind[k] = unknown
		}
		if rng.Intn(2) == 0 { // what is agreed at the login only
			e := []ini.KV{{K: "MaxBurstLength", V: "512"}, {K: "FirstBurstLength", V: "512"}, {K: "ImmediateData", V: "No"}, {K: "InitialR2T", V: "Yes"}, {K: "HeaderDigest", V: "CRC32C"}, {K: "ErrorRecoveryLevel", V: "2"}, {K: "MaxConnections", V: "4"}}[rng.Intn(7)]
			kv = append(kv, e)
			kind[e.K] = atLogin
		}
		rng.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
		p, err := s.Text(kv, false)
		if err != nil {
			s.failed(err, "Text request")
			return
		}
		answers := ini.DecodeKV(p.Data)
		for k, what := range kind {
			var got []string
			for _, a := range answers {
				if a.K == k {
					got = append(got, a.V)
				}
			}
			g := strings.Join(got, " and ")
			switch {
			case what == alias && len(got) == 0,
				what == unknown && g == "NotUnderstood",
				what == atLogin && (g == "Reject" || g == "Irrelevant"):
			default:
				r.Violate("text-answer", cas, tail(s.Trace(), 6), "%s in a text request of a full feature session was answered %q", k, g)
			}
		}
		r.Add("keys_after_login", int64(len(kind)))
		for _, a := range answers {
			if a.K == "MaxRecvDataSegmentLength" && isNeg(a.V) {
				n = s.MyMRDSL
			}
		}
		s.SetMRDSL(n)
		rd, ok := s.cmd(ini.ReadCmd(L, ini.READ10, uint64(base), uint32(blk), 512, 0), "READ(10)")
		if !ok {
			return
		}
		if !bytes.Equal(rd.Data, d) {
			r.Violate("session-data", cas, tail(s.Trace(), 20), "after declaring segments of %d bytes a read returned other data", n)
		}
		r.Add("redeclared", 1)
	}
	r.Add("sessions_used", 1)
	s.protocol("C10")
	for _, f := range s.Findings("C08") {
		r.Violate("monitor:"+sigOf(f.Msg), cas, tail(s.Trace(), 30), "%s", f.Msg)
	}
}

// c10Liberal uses what the target agreed to with InitialR2T=No (data that was
// not asked for) and DataPDUInOrder=No (the PDUs of a sequence in any order).
func c10Liberal(r *ck.Run, s *Sess, rng *rand.Rand, cas string, unsolicited, anyOrder bool) bool {
	blk := 4 + rng.Intn(60)
	d := fill(rng, blk*512)
	cm := ini.WriteCmd(ini.LUN(0), ini.WRITE10, 8, uint32(blk), d, 0)
	cm.Hold, cm.NoFinal = true, unsolicited
	if !unsolicited {
		cm.Imm = 0
	}
	t := s.Submit(cm)
	shuffled := func(ps []*ini.PDU) {
		if anyOrder { // the last one in time has the final bit
			for _, p := range ps {
				p.H[1] &^= 0x80
			}
			rng.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
			ps[len(ps)-1].H[1] |= 0x80
			for k, p := range ps {
				p.Put32(36, uint32(k))
			}
		}
		for _, p := range ps {
			s.SendRaw(p)
		}
	}
	if unsolicited {
		n := int(s.FirstB)
		if n > len(d) {
			n = len(d)
		}
		q := ini.R2T{TTT: 0xffffffff, Off: t.ImmSent(), Len: uint32(n) - t.ImmSent()}
		if q.Len == 0 {
			s.SendRaw(t.DataOut(q.TTT, 0, q.Off, nil, true))
		} else {
			shuffled(t.AnswerPDUs(q, 4*(1+rng.Intn(600))))
		}
	}
	for {
		q, ok := t.NextR2T(ini.Watchdog)
		if !ok {
			break
		}
		shuffled(t.AnswerPDUs(q, 4*(1+rng.Intn(600))))
	}
	if !s.wait(t, "WRITE(10) as agreed") {
		return false
	}
	if got := s.ch.Peek("a", 8*512, len(d)); t.Status != 0 || !bytes.Equal(got, d) {
		r.Violate("agreed-order", cas, tail(s.Trace(), 30), "InitialR2T=No %v, DataPDUInOrder=No %v: a write using that ended with %s, the medium differs at byte %d", unsolicited, anyOrder, t.Outcome(), diffAt(got, d))
		return false
	}
	return true
}
