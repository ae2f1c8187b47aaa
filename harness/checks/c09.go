package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C09"] = Check{Run: c09, Level: "exploration", Min: 500} }

// gate is a configuration of several targets, portals and groups, and who may come in where.
type gate struct {
	sp     tgt.Spec
	ips    []string
	reach  map[string]map[string]int // target -> address -> portal group
	dev    map[string]string         // target -> device of LUN 0
	shared map[string]bool
}

func newGate(rng *rand.Rand) *gate {
	g := &gate{reach: map[string]map[string]int{}, dev: map[string]string{}}
	g.sp = tgt.Spec{Port: tgt.FreePort()}
	ids := rng.Perm(40)[:4]
	for i := 0; i < 4; i++ {
		ip := fmt.Sprintf("127.0.0.%d", 1+i)
		if i == 3 && haveSix() && rng.Intn(2) == 0 {
			ip = "::1"
		}
		g.ips = append(g.ips, ip)
		g.sp.Config.ISCSIPortals = append(g.sp.Config.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(ids[i]), Portal: g.addr(ip)})
	}
	// portals that look much like an address of this server, but are none of it
	var near []uint64
	for i, p := range []string{"127.0.0.5", fmt.Sprintf("127.0.0.5:%d", g.sp.Port/10), fmt.Sprintf("127.0.0.5:%d0", g.sp.Port), fmt.Sprintf("127.0.0.5:%d", g.sp.Port%10000), fmt.Sprintf("127.0.0.50:%d", g.sp.Port), fmt.Sprintf("27.0.0.5:%d", g.sp.Port), fmt.Sprintf(":%d", g.sp.Port), "127.0.0.5:3260"} {
		near = append(near, uint64(100+i))
		g.sp.Config.ISCSIPortals = append(g.sp.Config.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(100 + i), Portal: p})
	}
	g.ips = append(g.ips, "127.0.0.5")
	rng.Shuffle(len(g.sp.Config.ISCSIPortals), func(i, j int) {
		q := g.sp.Config.ISCSIPortals
		q[i], q[j] = q[j], q[i]
	})
	g.sp.Config.ISCSITargets = map[string]config.ISCSITarget{}
	nt := 2 + rng.Intn(3)
	for t := 0; t < nt; t++ {
		name := fmt.Sprintf("iqn.2020-01.verif:g%d", t)
		if t == 1 && rng.Intn(2) == 0 { // a name that is a prefix of another
			name = "iqn.2020-01.verif:g"
		}
		dev := fmt.Sprintf("d%d", t)
		id := uint64(100 + t)
		g.sp.Config.Storages = append(g.sp.Config.Storages, Dev{ID: id, Name: dev, Size: 1 << 20, Shift: 9}.storage())
		ct := config.ISCSITarget{TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{"0": id}}
		g.reach[name], g.dev[name] = map[string]int{}, dev
		left := rng.Perm(4)[:1+rng.Intn(3)]
		tags := rng.Perm(50)
		for len(left) > 0 {
			k := 1 + rng.Intn(len(left))
			tag := 1 + tags[0]*7
			tags = tags[1:]
			for _, i := range left[:k] {
				ct.TPGTs[strconv.Itoa(tag)] = append(ct.TPGTs[strconv.Itoa(tag)], uint64(ids[i]))
				g.reach[name][g.ips[i]] = tag
			}
			left = left[k:]
		}
		if rng.Intn(2) == 0 {
			ct.TPGTs[strconv.Itoa(1+tags[0]*7)] = []uint64{near[rng.Intn(len(near))], near[rng.Intn(len(near))]}
		}
		g.sp.Config.ISCSITargets[name] = ct
	}
	return g
}

func (g *gate) names() (o []string) {
	for i := 0; i < 5; i++ {
		for _, n := range []string{fmt.Sprintf("iqn.2020-01.verif:g%d", i)} {
			if g.reach[n] != nil {
				o = append(o, n)
			}
		}
	}
	if g.reach["iqn.2020-01.verif:g"] != nil {
		o = append(o, "iqn.2020-01.verif:g")
	}
	return
}

func (g *gate) addr(ip string) string { return net.JoinHostPort(ip, strconv.Itoa(g.sp.Port)) }

func c09(r *ck.Run) {
	r.Rule("random configurations of 2-4 targets, 4 portals (IPv4, IPv6) and several portal groups; per configuration random login attempts (portal address, target name, initiator name, session type, authentication list, stage path, flags, version, handle, keys split over requests or continued), judged against the access rule in both directions (names and portals that almost match included), logins of several requests of which one has another stage, session id, connection id, handle, version or name than the others, with PDUs of every other kind before, between and after; the answers, the fate of the connection and every store call are watched, and after a login the data of LUN 0 tells which target was reached; distinct by (kind, fields chosen)")
	n := r.Q(63, 200)
	r.Each(n, 7, func(i int) {
		rng := r.Rng("cfg", i)
		cas := fmt.Sprint(i)
		g := newGate(rng)
		ch := start(r, cas, g.sp, false)
		if ch == nil {
			return
		}
		defer ch.Stop()
		g.sp = ch.Spec // the port may be another
		for n, d := range g.dev {
			ch.Poke(d, 0, stampBlock(n))
		}
		for k := 0; k < r.Q(60, 150); k++ {
			c09Attempt(r, ch, g, rng, cas)
			if k%2 == 0 {
				c09Odd(r, ch, g, rng, cas)
			}
			if k%3 == 0 {
				c09Before(r, ch, g, rng, cas)
			}
			if k%6 == 0 {
				c09Discovery(r, ch, g, rng, cas)
			}
			if k%8 == 0 {
				c09After(r, ch, g, rng, cas)
			}
			if r.Violated() && k > 20 {
				break
			}
		}
		dead(r, ch, cas, "login attempts")
	})
}

// stampBlock is the content of block 0 of a target's LUN 0.
func stampBlock(name string) []byte {
	return append([]byte(name), make([]byte, 512-len(name))...)
}

// c09Attempt is one login, judged by the access rule.
func c09Attempt(r *ck.Run, ch *tgt.Child, g *gate, rng *rand.Rand, cas string) {
	names := g.names()
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	target := names[rng.Intn(len(names))]
	tclass := "known"
	ip := g.ips[rng.Intn(len(g.ips))]
	if rng.Intn(2) == 0 { // one that works
		for k := range g.reach[target] {
			if rng.Intn(2) == 0 || len(g.reach[target]) == 1 {
				ip = k
			}
		}
	}
	switch rng.Intn(14) {
	case 4:
		target, tclass = target+" ", "space"
	case 5:
		target, tclass = " "+target, "space"
	case 6:
		target, tclass = target[:len(target)-1], "shorter"
	case 7:
		target, tclass = target+pick("\t", "/", ":", ",t,0x0001", "\n", "*", "%"), "longer"
	case 0:
		target, tclass = "iqn.2020-01.verif:none", "unknown"
	case 1:
		target, tclass = target[:len(target)-1]+"~", "unknown"
	case 2:
		target, tclass = "", "missing"
	case 3:
		target, tclass = target+"0", "longer"
	}
	initiator, iclass := "iqn.2020-01.verif:i"+strconv.Itoa(rng.Intn(50)), "given"
	switch rng.Intn(9) {
	case 0:
		initiator, iclass = "", "missing"
	case 1:
		initiator, iclass = "=", "empty"
	}
	stype := pick("Normal", "Normal", "Normal", "-", "-", "Discovery", "Weird")
	path := pick("1-3", "1-3", "0-3", "0-1-3", "0-1-3", "0..1-3", "0-1..3", "split", "0-split")
	auth := pick("-", "None", "CHAP,None", "None,CHAP", "CHAP", "SRP,CHAP", "KRB5,SPKM1,None", "NoneX", "CHAP,NoneX", "XNone", "Non")
	inSec := strings.HasPrefix(path, "0")
	if !inSec {
		auth = "-"
	}
	ver := byte(0)
	if rng.Intn(12) == 0 {
		ver = byte(1 + rng.Intn(255))
	}
	tsih := uint16(0)
	if rng.Intn(12) == 0 {
		tsih = uint16(1 + rng.Intn(65535))
	}
	tag, reach := g.reach[target][ip]
	noneOK := auth == "-" || auth == "None" || auth == "CHAP,None" || auth == "None,CHAP" || auth == "KRB5,SPKM1,None"
	disc := stype == "Discovery"
	good := iclass == "given" && noneOK && ver == 0 && tsih == 0 && stype != "Weird" && (disc || reach)
	key := fmt.Sprint("login ", tclass, reach, iclass, stype, path, auth, ver != 0, tsih != 0)

	o := ini.LoginOpts{Addr: g.addr(ip), TSIH: tsih, CID: uint16(rng.Intn(65536)), CmdSN: rng.Uint32(), ExpStatSN: rng.Uint32()}
	rng.Read(o.ISID[:])
	c, err := dialRaw(o)
	if err != nil {
		if !dead(r, ch, cas, "connect") {
			r.Violate("not-listening", cas, nil, "cannot connect to portal %s: %v", ip, err)
		}
		return
	}
	defer c.close()
	var id []ini.KV
	switch iclass {
	case "given":
		id = append(id, ini.KV{K: "InitiatorName", V: initiator})
	case "empty":
		id = append(id, ini.KV{K: "InitiatorName", V: ""})
	}
	if tclass != "missing" {
		id = append(id, ini.KV{K: "TargetName", V: target})
	}
	if stype != "-" {
		id = append(id, ini.KV{K: "SessionType", V: stype})
	}
	rng.Shuffle(len(id), func(a, b int) { id[a], id[b] = id[b], id[a] })
	sec := append([]ini.KV{}, id...)
	if auth != "-" {
		sec = append(sec, ini.KV{K: "AuthMethod", V: auth})
	}
	ops := ini.DefaultKeys(&o)
	rng.Shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
	mod := func(p *ini.PDU) { p.H[3] = ver }
	var seq []lreq
	split := func(kv []ini.KV) []lreq { // one key list over several PDUs
		b := ini.EncodeKV(kv)
		k := rng.Intn(len(b))
		return []lreq{{csg: 1, c: true, raw: b[:k], mod: mod}, {csg: 1, nsg: 3, t: true, raw: b[k:], mod: mod}}
	}
	switch path {
	case "1-3":
		seq = []lreq{{csg: 1, nsg: 3, t: true, kv: append(id, ops...), mod: mod}}
	case "0-3":
		seq = []lreq{{csg: 0, nsg: 3, t: true, kv: sec, mod: mod}}
	case "0-1-3":
		seq = []lreq{{csg: 0, nsg: 1, t: true, kv: sec, mod: mod}, {csg: 1, nsg: 3, t: true, kv: ops, mod: mod}}
	case "0..1-3":
		seq = []lreq{{csg: 0, kv: sec, mod: mod}, {csg: 0, nsg: 1, t: true, mod: mod}, {csg: 1, nsg: 3, t: true, kv: ops, mod: mod}}
	case "0-1..3":
		seq = []lreq{{csg: 0, nsg: 1, t: true, kv: sec, mod: mod}, {csg: 1, kv: ops, mod: mod}, {csg: 1, nsg: 3, t: true, mod: mod}}
	case "split":
		seq = split(append(id, ops...))
	case "0-split":
		seq = append([]lreq{{csg: 0, nsg: 1, t: true, kv: sec, mod: mod}}, split(ops)...)
	}
	ev := ch.Seq()
	var last *ini.PDU
	refused := ""
	tagSeen := []string{}
	for _, q := range seq {
		p, err := c.login(q)
		if err == errQuiet {
			r.Violate("login-unanswered", cas, c.log, "a login request was neither answered nor refused (%s)", key)
			return
		}
		if err != nil {
			refused = "closed"
			break
		}
		if p.Op() != ini.OpLoginResp {
			r.Violate("login-answer", cas, c.log, "a login request was answered by %s", p)
			return
		}
		if p.H[36] != 0 {
			refused = fmt.Sprintf("%d/%d", p.H[36], p.H[37])
			break
		}
		for _, kv := range ini.DecodeKV(p.Data) {
			if kv.K == "TargetPortalGroupTag" {
				tagSeen = append(tagSeen, kv.V)
			}
		}
		if q.t && (p.H[1]&0x80 == 0 || p.H[1]&3 != q.nsg) || p.H[1]>>2&3 != q.csg {
			if good {
				r.Violate("transit", cas, c.log, "a request to go from stage %d to %d was answered with flags %02x", q.csg, q.nsg, p.H[1])
				return
			}
		}
		last = p
	}
	r.Eval(key)
	if good && refused != "" {
		r.Violate("refused:"+path, cas, c.log, "a valid login was refused (%s): %s", refused, key)
		return
	}
	if !good && refused == "" {
		why := "target or portal"
		switch {
		case iclass != "given":
			why = "no-initiator-name"
		case !noneOK:
			why = "authentication"
		case ver != 0:
			why = "version"
		case tsih != 0:
			why = "handle"
		case stype == "Weird":
			why = "session-type"
		}
		r.Violate("accepted:"+why, cas, c.log, "a login that must be refused reached full feature phase (%s, through %s)", key, ip)
		return
	}
	if good && disc {
		r.Add("discovery_logins", 1)
		return
	}
	// what does a read of LUN 0 give now?
	p := c.scsi(ini.LUN(0), ini.RW(ini.READ10, 0, 1, 0), 0x40, 512, nil)
	c.send(p)
	wait := ini.Watchdog
	if !good {
		wait = 150 * time.Millisecond
	}
	a, err := c.recv(wait)
	if !good {
		if err == nil && served(a) {
			r.Violate("served-after-refusal", cas, c.log, "a command after a refused login (%s) was answered by %s", key, a)
		}
		for _, e := range ch.Events(ev, false) {
			if e.Kind == "read" || e.Kind == "write" {
				r.Violate("store-after-refusal", cas, c.log, "a command after a refused login (%s) reached the store: %+v", key, e)
				break
			}
		}
		r.Add("refused", 1)
		return
	}
	r.Add("accepted", 1)
	if err != nil || a.Op() != ini.OpDataIn {
		r.Violate("not-served", cas, c.log, "after a valid login a read of LUN 0 was answered by %v %v", a, err)
		return
	}
	if !bytes.Equal(a.Data, stampBlock(target)) {
		r.Violate("wrong-target", cas, c.log, "logged in to %s, LUN 0 holds the data of %q", target, strings.TrimRight(string(a.Data), "\x00"))
		return
	}
	if last.U16(14) == 0 {
		r.Violate("tsih-zero", cas, c.log, "the final login response carries session handle 0")
	}
	if len(tagSeen) != 1 || tagSeen[0] != strconv.Itoa(tag) {
		r.Violate("portal-group", cas, c.log, "portal %s of %s is in group %d, the login answered TargetPortalGroupTag %v", ip, target, tag, tagSeen)
	}
}

// c09Before sends something else before or in the middle of a login.
func c09Before(r *ck.Run, ch *tgt.Child, g *gate, rng *rand.Rand, cas string) {
	names := g.names()
	target := names[rng.Intn(len(names))]
	ip := ""
	for _, k := range g.ips {
		if _, ok := g.reach[target][k]; ok {
			ip = k
		}
	}
	o := ini.LoginOpts{Addr: g.addr(ip), CmdSN: 7, ExpStatSN: 1}
	c, err := dialRaw(o)
	if err != nil {
		dead(r, ch, cas, "connect")
		return
	}
	defer c.close()
	id := []ini.KV{{K: "InitiatorName", V: "iqn.2020-01.verif:early"}, {K: "TargetName", V: target}, {K: "SessionType", V: "Normal"}}
	state := rng.Intn(7)
	ok := true
	step := func(q lreq) {
		if p, err := c.login(q); err != nil || p.H[36] != 0 {
			ok = false
		}
	}
	sname := ""
	switch state {
	case 0:
		sname = "fresh"
	case 1:
		sname = "security stage"
		step(lreq{csg: 0, kv: append(id, ini.KV{K: "AuthMethod", V: "None"})})
	case 2:
		sname = "operational stage after security"
		step(lreq{csg: 0, nsg: 1, t: true, kv: append(id, ini.KV{K: "AuthMethod", V: "None"})})
	case 3:
		sname = "operational stage"
		step(lreq{csg: 1, kv: append(id, ini.DefaultKeys(&o)...)})
	case 4:
		sname = "continued key list"
		step(lreq{csg: 1, c: true, kv: id})
	case 5:
		sname = "refused login"
		c.login(lreq{csg: 1, nsg: 3, t: true, kv: []ini.KV{{K: "InitiatorName", V: "iqn.x"}, {K: "TargetName", V: "iqn.nobody"}}})
	case 6:
		sname = "security stage, CHAP wanted"
		c.login(lreq{csg: 0, nsg: 1, t: true, kv: append(id, ini.KV{K: "AuthMethod", V: "CHAP"})})
	}
	if !ok {
		r.Violate("refused:step", cas, c.log, "a valid login step was refused")
		return
	}
	ev := ch.Seq()
	kinds := []string{"read", "write", "tmf", "text", "nop", "logout", "dataout", "snack", "reserve"}
	n := 1 + rng.Intn(3)
	var used []string
	for k := 0; k < n && c.ended == nil; k++ {
		kind := kinds[rng.Intn(len(kinds))]
		used = append(used, kind)
		var p *ini.PDU
		L := ini.LUN(0)
		switch kind {
		case "read":
			p = c.scsi(L, ini.RW(ini.READ10, 0, 1, 0), 0x40, 512, nil)
		case "write":
			p = c.scsi(L, ini.RW(ini.WRITE10, 8, 1, 0), 0x20, 512, filled(0xee, 512))
		case "reserve":
			p = c.scsi(L, []byte{ini.RESERVE6, 0, 0, 0, 0, 0}, 0, 0, nil)
		case "tmf":
			p = c.req(ini.OpTMF, 5, L, 0xffffffff, nil)
		case "text":
			p = c.req(ini.OpText, 0, [8]byte{}, 0xffffffff, ini.EncodeKV([]ini.KV{{K: "SendTargets", V: "All"}}))
		case "nop":
			p = c.req(ini.OpNop, 0, [8]byte{}, 0xffffffff, []byte("ping"))
		case "logout":
			p = c.req(ini.OpLogout, 0, [8]byte{}, 0, nil)
		case "dataout":
			p = c.req(ini.OpDataOut, 0, L, 0, filled(0xdd, 512))
		case "snack":
			p = c.req(ini.OpSNACK, 1, L, 0xffffffff, nil)
		}
		if rng.Intn(2) == 0 {
			p.H[0] |= 0x40
		}
		c.send(p)
	}
	for c.ended == nil {
		a, err := c.recv(100 * time.Millisecond)
		if err != nil {
			break
		}
		if served(a) {
			r.Violate("served-before-login:"+used[0], cas, c.log, "in state %q %v was answered by %s", sname, used, a)
		}
	}
	for _, e := range ch.Events(ev, false) {
		if e.Kind != "open" {
			r.Violate("store-before-login", cas, c.log, "in state %q %v reached the store: %+v", sname, used, e)
			break
		}
	}
	if b := ch.Peek(g.dev[target], 8*512, 512); !bytes.Equal(b, make([]byte, 512)) {
		r.Violate("written-before-login", cas, c.log, "in state %q a write changed the medium", sname)
		ch.Poke(g.dev[target], 8*512, make([]byte, 512))
	}
	r.Eval(fmt.Sprint("before ", sname, used))
	r.Add("early_pdus", int64(len(used)))
	// a login after all that, if the connection still lives, is a login like any other
	if c.ended == nil && state < 5 {
		c.recv(time.Millisecond)
	}
}

// c09Discovery: a discovery session gets no SCSI access.
func c09Discovery(r *ck.Run, ch *tgt.Child, g *gate, rng *rand.Rand, cas string) {
	kv := []ini.KV{{K: "InitiatorName", V: "iqn.2020-01.verif:disc"}, {K: "SessionType", V: "Discovery"}}
	if rng.Intn(3) == 0 { // naming a target does not make it a normal session
		kv = append(kv, ini.KV{K: "TargetName", V: g.names()[0]})
	}
	c, err := dialRaw(ini.LoginOpts{Addr: g.addr(g.ips[rng.Intn(4)]), CmdSN: 1, ExpStatSN: 1})
	if err != nil {
		dead(r, ch, cas, "connect")
		return
	}
	defer c.close()
	p, err := c.login(lreq{csg: 1, nsg: 3, t: true, kv: append(kv, ini.DefaultKeys(&c.o)...)})
	if err != nil || p.Op() != ini.OpLoginResp || p.H[36] != 0 {
		r.Violate("refused:discovery", cas, c.log, "a discovery login was refused")
		return
	}
	ev := ch.Seq()
	kind := ""
	switch rng.Intn(4) {
	case 0:
		kind = "read"
		c.send(c.scsi(ini.LUN(0), ini.RW(ini.READ10, 0, 1, 0), 0x40, 512, nil))
	case 1:
		kind = "write"
		c.send(c.scsi(ini.LUN(0), ini.RW(ini.WRITE10, 8, 1, 0), 0x20, 512, filled(0xee, 512)))
	case 2:
		kind = "inquiry"
		c.send(c.scsi(ini.LUN(0), []byte{ini.INQUIRY, 0, 0, 0, 36, 0}, 0x40, 36, nil))
	case 3:
		kind = "tmf"
		c.send(c.req(ini.OpTMF, 5, ini.LUN(0), 0xffffffff, nil))
	}
	for c.ended == nil {
		a, err := c.recv(ini.Watchdog)
		if err == errQuiet {
			r.Violate("unanswered-in-discovery:"+kind, cas, c.log, "a %s in a discovery session was neither refused nor was the connection closed", kind)
		}
		if err != nil {
			break
		}
		if a.Op() == ini.OpDataIn || a.Op() == ini.OpR2T || a.Op() == ini.OpResp && a.H[3] == 0 && a.H[2] == 0 || a.Op() == ini.OpTMFResp && a.H[2] == 0 {
			r.Violate("scsi-in-discovery:"+kind, cas, c.log, "a %s in a discovery session was answered by %s", kind, a)
		}
		if a.Op() == ini.OpReject || a.Op() == ini.OpResp || a.Op() == ini.OpTMFResp {
			break
		}
	}
	if evs := ch.Events(ev, false); len(evs) > 0 {
		r.Violate("store-in-discovery:"+kind, cas, c.log, "a %s in a discovery session reached the store: %+v", kind, evs[0])
	}
	r.Eval("discovery " + kind)
}

// c09After: a login request in full feature phase changes nothing about the session.
func c09After(r *ck.Run, ch *tgt.Child, g *gate, rng *rand.Rand, cas string) {
	names := g.names()
	target := names[rng.Intn(len(names))]
	ip := ""
	for _, k := range g.ips {
		if _, ok := g.reach[target][k]; ok {
			ip = k
		}
	}
	c, err := dialRaw(ini.LoginOpts{Addr: g.addr(ip), CmdSN: 1, ExpStatSN: 1})
	if err != nil {
		dead(r, ch, cas, "connect")
		return
	}
	defer c.close()
	id := []ini.KV{{K: "InitiatorName", V: "iqn.2020-01.verif:after"}, {K: "TargetName", V: target}}
	if p, err := c.login(lreq{csg: 1, nsg: 3, t: true, kv: append(id, ini.DefaultKeys(&c.o)...)}); err != nil || p.H[36] != 0 {
		r.Violate("refused:1-3", cas, c.log, "a valid login was refused")
		return
	}
	other := names[rng.Intn(len(names))]
	id[1].V = other
	q := lreq{csg: byte(rng.Intn(2)), nsg: 3, t: true, kv: append(id, ini.DefaultKeys(&c.o)...)}
	p := ini.LoginPDU(&c.o, q.csg, q.nsg, q.t, 0x77, q.kv)
	c.send(p)
	for k := 0; k < 2; k++ {
		c.send(c.scsi(ini.LUN(0), ini.RW(ini.READ10, 0, 1, 0), 0x40, 512, nil))
		c.o.CmdSN++
	}
	for c.ended == nil {
		a, err := c.recv(200 * time.Millisecond)
		if err != nil {
			break
		}
		if a.Op() == ini.OpLoginResp && a.H[36] == 0 {
			r.Violate("login-in-session", cas, c.log, "a login request in full feature phase was granted")
		}
		if a.Op() == ini.OpDataIn && !bytes.Equal(a.Data, stampBlock(target)) {
			r.Violate("wrong-target", cas, c.log, "logged in to %s, after another login request for %s LUN 0 holds the data of %q", target, other, strings.TrimRight(string(a.Data), "\x00"))
		}
		if a.Op() == ini.OpDataIn && a.ITT() == c.itt {
			break
		}
	}
	r.Eval(fmt.Sprint("after ", q.csg, other == target))
}

// c09Odd is a login of several requests one of which does not belong to it. It must be refused.
func c09Odd(r *ck.Run, ch *tgt.Child, g *gate, rng *rand.Rand, cas string) {
	names := g.names()
	target := names[rng.Intn(len(names))]
	ip := ""
	for _, k := range g.ips {
		if _, ok := g.reach[target][k]; ok && (ip == "" || rng.Intn(2) == 0) {
			ip = k
		}
	}
	c, err := dialRaw(ini.LoginOpts{Addr: g.addr(ip), CID: uint16(rng.Intn(1000)), CmdSN: rng.Uint32(), ExpStatSN: 1})
	if err != nil {
		if !dead(r, ch, cas, "connect") {
			r.Violate("not-listening", cas, nil, "cannot connect to portal %s: %v", ip, err)
		}
		return
	}
	defer c.close()
	rng.Read(c.o.ISID[:])
	id := []ini.KV{{K: "InitiatorName", V: "iqn.2020-01.verif:odd"}, {K: "TargetName", V: target}, {K: "SessionType", V: "Normal"}}
	ops := ini.DefaultKeys(&c.o)
	none := ini.KV{K: "AuthMethod", V: "None"}
	var seq []lreq
	path := rng.Intn(4)
	switch path {
	case 0:
		seq = []lreq{{csg: 0, kv: append(id, none)}, {csg: 0, nsg: 1, t: true}, {csg: 1, kv: ops}, {csg: 1, nsg: 3, t: true}}
	case 1:
		seq = []lreq{{csg: 0, nsg: 1, t: true, kv: append(id, none)}, {csg: 1, nsg: 3, t: true, kv: ops}}
	case 2:
		seq = []lreq{{csg: 1, kv: id}, {csg: 1, kv: ops}, {csg: 1, nsg: 3, t: true}}
	case 3:
		seq = []lreq{{csg: 0, kv: append(id, none)}, {csg: 0, nsg: 3, t: true}}
	}
	at := 1 + rng.Intn(len(seq)-1)
	q := &seq[at]
	what := ""
	another := func(v string) string { // a name of the same length, or another one
		if rng.Intn(2) == 0 {
			return names[rng.Intn(len(names))] + "x"
		}
		return v[:len(v)-1] + "Z"
	}
	switch rng.Intn(12) {
	case 0:
		what = "stage back"
		if q.csg == 0 {
			what = "stage ahead"
			q.csg = 1
		} else {
			q.csg, q.nsg = 0, 1
			if q.t {
				q.nsg = 3
			}
		}
	case 1:
		what = "stage of full feature phase"
		q.csg = 3
	case 2:
		what = "reserved stage"
		q.csg = 2
	case 3:
		what = "to the reserved stage"
		q.t, q.nsg = true, 2
	case 4:
		what = "to its own stage or back"
		q.t, q.nsg = true, byte(rng.Intn(int(q.csg)+1))
	case 5:
		what = "another ISID"
		i := rng.Intn(6)
		q.mod = func(p *ini.PDU) { p.H[8+i] ^= byte(1 + rng.Intn(255)) }
	case 6:
		what = "another CID"
		q.mod = func(p *ini.PDU) { p.Put16(20, c.o.CID+1+uint16(rng.Intn(1000))) }
	case 7:
		what = "another session handle"
		q.mod = func(p *ini.PDU) { p.Put16(14, uint16(1+rng.Intn(65535))) }
	case 8:
		what = "another version"
		q.mod = func(p *ini.PDU) { p.H[3] = byte(1 + rng.Intn(255)) }
	case 9:
		what = "another initiator"
		q.kv = append(append([]ini.KV{}, q.kv...), ini.KV{K: "InitiatorName", V: another(id[0].V)})
	case 10:
		what = "another target"
		v := another(target)
		if o := names[rng.Intn(len(names))]; o != target {
			v = o
		}
		q.kv = append(append([]ini.KV{}, q.kv...), ini.KV{K: "TargetName", V: v})
	case 11:
		what = "another session type"
		q.kv = append(append([]ini.KV{}, q.kv...), ini.KV{K: "SessionType", V: "Discovery"})
	}
	for i, q := range seq {
		p, err := c.login(q)
		if err == errQuiet {
			r.Violate("login-unanswered", cas, c.log, "a login request was neither answered nor refused (%s in request %d of path %d)", what, at, path)
			return
		}
		if err == nil && p.Op() != ini.OpLoginResp {
			r.Violate("login-answer", cas, c.log, "a login request was answered by %s", p)
			return
		}
		if err == nil && p.H[36] == 0 {
			continue
		}
		if i < at {
			r.Violate("refused:step", cas, c.log, "a valid login step was refused")
			return
		}
		break
	}
	r.Eval(fmt.Sprint("odd ", what, path, at))
	r.Add("odd_logins", 1)
	ev := ch.Seq()
	if c.ended == nil {
		c.send(c.scsi(ini.LUN(0), ini.RW(ini.READ10, 0, 1, 0), 0x40, 512, nil))
		if a, err := c.recv(150 * time.Millisecond); err == nil && served(a) {
			r.Violate("accepted:odd-request", cas, c.log, "a login with a request of %s (request %d of path %d) reached full feature phase", what, at, path)
			return
		}
	}
	for _, e := range ch.Events(ev, false) {
		if e.Kind != "open" {
			r.Violate("store-after-refusal", cas, c.log, "a command after a refused login (%s) reached the store: %+v", what, e)
			return
		}
	}
}
