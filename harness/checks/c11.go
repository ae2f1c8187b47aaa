package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

func init() { All["C11"] = Check{Run: c11, Level: "exploration", Min: 150} }

func c11(r *ck.Run) {
	r.Rule("random configurations of 0-40 targets (some added while running), 1-6 portals (names, IPv4, IPv6) with arbitrary non-consecutive ids in arbitrary order, 1-3 portal groups per target with arbitrary tags, targets without portals, cluster address or not, and initiators with small and large segment lengths; requests spread over several PDUs, exchanges left open or given up before; the SendTargets answers, reassembled over continuations, are compared as multisets with what the configuration says, and every reported address on this machine is logged in to; distinct by (targets, groups, portals, cluster, query, pieces of the answer)")
	n := r.Q(91, 300)
	r.Each(n, 7, func(i int) { c11Config(r, i) })
}

func c11Config(r *ck.Run, i int) {
	rng := r.Rng("cfg", i)
	cas := fmt.Sprint(i)
	sp := tgt.Spec{Port: tgt.FreePort()}
	np := 1 + rng.Intn(6)
	ids := rng.Perm(200)[:np]
	if rng.Intn(4) == 0 {
		for k := range ids {
			ids[k] = np - 1 - k // ids are positions, but reversed
		}
	}
	var addrs []string
	six := false
	for k := 0; k < np; k++ {
		a := fmt.Sprintf("127.0.0.%d:%d", 1+k, sp.Port)
		switch rng.Intn(8) {
		case 0:
			a = fmt.Sprintf("192.0.2.%d:3260", 1+k) // not on this machine
		case 1:
			a = fmt.Sprintf("[2001:db8::%d]:3260", 1+k)
		case 2:
			if !six && haveSix() {
				a, six = fmt.Sprintf("[::1]:%d", sp.Port), true
			}
		}
		addrs = append(addrs, a)
		sp.Config.ISCSIPortals = append(sp.Config.ISCSIPortals, config.ISCSIPortalInfo{ID: uint16(ids[k]), Portal: a})
	}
	nt := []int{0, 1, 1, 2, 3, 5, 9, 40, 90}[rng.Intn(9)]
	sp.Config.ISCSITargets = map[string]config.ISCSITarget{}
	sp.Config.Storages = append(sp.Config.Storages, Dev{ID: 5, Name: "a", Size: 1 << 20, Shift: 9}.storage())
	want := map[string]map[string]bool{} // target -> "addr,tag"
	var names []string
	groups := 0
	for t := 0; t < nt; t++ {
		name := "iqn.2020-01.verif:" + strings.Repeat("x", rng.Intn(150)) + fmt.Sprint(t)
		if t > 0 && rng.Intn(3) == 0 {
			name = names[t-1] + "a"
		}
		names = append(names, name)
		ct := config.ISCSITarget{TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{"0": 5}}
		want[name] = map[string]bool{}
		left := rng.Perm(np)[:1+rng.Intn(np)]
		if rng.Intn(8) == 0 { // no portal at all, so no address either
			left = nil
			if rng.Intn(2) == 0 {
				ct.TPGTs[strconv.Itoa(rng.Intn(9))] = []uint64{}
			}
		}
		for len(left) > 0 {
			k := 1 + rng.Intn(len(left))
			tag := rng.Intn(65536)
			if rng.Intn(2) == 0 {
				tag = rng.Intn(4)
			}
			key := strconv.Itoa(tag)
			if ct.TPGTs[key] == nil {
				groups++
			}
			for _, q := range left[:k] {
				ct.TPGTs[key] = append(ct.TPGTs[key], uint64(ids[q]))
				want[name][fmt.Sprintf("%s,%d", addrs[q], tag)] = true
			}
			left = left[k:]
		}
		sp.Config.ISCSITargets[name] = ct
	}
	if nt > 1 && rng.Intn(2) == 0 {
		sp.LateTgts = names[nt-1:]
	}
	cluster := rng.Intn(4) == 0
	if cluster {
		sp.ClusterIP = []string{"198.51.100.7:3260", "10.0.0.1:4000"}[rng.Intn(2)]
		for n, ct := range sp.Config.ISCSITargets {
			want[n] = map[string]bool{}
			for tag := range ct.TPGTs {
				want[n][sp.ClusterIP+","+tag] = true
			}
		}
	}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	if ch.Spec.Port != sp.Port { // the port was taken: all over again with another
		ch.Stop()
		c11Config(r, i)
		return
	}
	late := map[string]bool{}
	for _, n := range sp.LateTgts {
		late[n] = true
	}
	ask := func(q string, only func(n string) bool, o ini.LoginOpts) bool {
		o.Discovery = true
		o.CmdSN = rng.Uint32()
		s := login(r, ch, cas, o)
		if s == nil {
			return false
		}
		defer s.Close()
		for rep := 0; rep < 3; rep++ {
			pieces := 1
			if rep > 0 {
				pieces = 1 + rng.Intn(4)
			}
			if rep > 0 && rng.Intn(2) == 0 { // an exchange given up: the next request begins another
				what := "a text request given up"
				p := ini.TextPDU([]ini.KV{{K: "SendTargets", V: []string{"All", "iqn.2020-01.verif:", "x"}[rng.Intn(3)]}})
				p.H[1] = []byte{0x40, 0x40, 0x00, 0x80}[rng.Intn(4)]
				if p.H[1] == 0x40 {
					p.Data = p.Data[:rng.Intn(len(p.Data)+1)]
				}
				a, err := s.Ask(p, rng.Intn(2) == 0)
				if err != nil {
					s.failed(err, what)
					return false
				}
				if a.Op() != ini.OpTextResp || p.H[1]&0x80 == 0 && (a.H[1]&0x80 != 0 || a.U32(20) == 0xffffffff) {
					r.Violate("text-answer", cas, tail(s.Trace(), 10), "a text request with flags %02x was answered by %s", p.H[1], a)
					return false
				}
				r.Add("exchanges_given_up", 1)
			}
			if rng.Intn(3) == 0 {
				s.TextOpen = 1 + rng.Intn(3)
			}
			kv, ps, err := s.TextAllIn([]ini.KV{{K: "SendTargets", V: q}}, rng.Intn(2) == 0, pieces)
			if err != nil {
				if len(ps) > 0 {
					r.Violate("text-answer", cas, tail(s.Trace(), 10), "SendTargets=%s: %v", q, err)
				} else {
					s.failed(err, "SendTargets")
				}
				return false
			}
			for _, p := range ps {
				if len(p.Data) > int(s.MyMRDSL) {
					r.Violate("segment", cas, nil, "a text response of %d bytes, the initiator takes %d", len(p.Data), s.MyMRDSL)
				}
			}
			var exp []string
			for n, as := range want {
				if late[n] || !only(n) {
					continue
				}
				for a := range as {
					exp = append(exp, n+" "+a)
				}
				exp = append(exp, n)
			}
			var got []string
			cur := ""
			for _, e := range kv {
				switch e.K {
				case "TargetName":
					cur = e.V
					got = append(got, cur)
				case "TargetAddress":
					got = append(got, cur+" "+e.V)
				default:
					if e.K == "SendTargets" && isNeg(e.V) && len(exp) == 0 {
						continue
					}
					got = append(got, "unexpected key "+e.K+"="+e.V)
				}
			}
			sort.Strings(exp)
			sort.Strings(got)
			r.Eval(fmt.Sprint(len(exp), len(want), groups, np, cluster, len(q) > 3, len(ps) > 1))
			if len(ps) > 1 {
				r.Add("continued_answers", 1)
			}
			r.Add("addresses", int64(len(got)))
			if strings.Join(exp, "\n") != strings.Join(got, "\n") {
				r.Violate("list:"+c11Diff(exp, got), cas, map[string]interface{}{"config": sp.Config, "cluster": sp.ClusterIP, "expected": exp, "got": got}, "SendTargets=%s does not report the configuration: %s", q, c11First(exp, got))
				return false
			}
			if rep == 0 && i < 3 {
				r.Sample(map[string]interface{}{"query": q, "pieces": len(ps), "answer": tail(got, 6)})
			}
		}
		s.protocol("C11")
		return true
	}
	all := func(string) bool { return true }
	opts := func() ini.LoginOpts {
		o := ini.LoginOpts{}
		switch rng.Intn(5) {
		case 3:
			o.MRDSL = uint32(8192 + rng.Intn(9000)) // longer than the default, shorter than long lists
		case 0:
			o.MRDSL = 512
		case 1:
			o.OmitMRDSL = true
		case 2:
			o.MRDSL = uint32(512 + rng.Intn(5000))
		}
		o.LocalAddr = fmt.Sprintf("127.0.0.%d", 1+rng.Intn(9))
		return o
	}
	rounds := 1
	if len(late) > 0 {
		rounds = 2
	}
	for rd := 0; rd < rounds; rd++ {
		if rd == 1 {
			for n := range late {
				if err := ch.NewTarget(n); err != nil {
					r.Violate("add-target", cas, nil, "adding target %s while running failed: %v", n, err)
					return
				}
				delete(late, n)
			}
		}
		if !ask("All", all, opts()) {
			return
		}
		for k := 0; k < 3 && nt > 0; k++ {
			q := names[rng.Intn(nt)]
			if !ask(q, func(n string) bool { return n == q }, opts()) {
				return
			}
		}
		for _, q := range []string{"iqn.2020-01.verif:nobody", "iqn.2020-01.verif:", "all"} {
			if !ask(q, func(n string) bool { return false }, opts()) {
				return
			}
		}
	}
	// portals added while running
	for k := rng.Intn(4); k > 0 && nt > 0; k-- {
		n := names[rng.Intn(nt)]
		var tags []string
		for tag := range sp.Config.ISCSITargets[n].TPGTs {
			tags = append(tags, tag)
		}
		sort.Strings(tags)
		if len(tags) == 0 {
			continue
		}
		tag := tags[rng.Intn(len(tags))]
		addr := fmt.Sprintf("127.0.0.%d:%d", 20+rng.Intn(200), sp.Port)
		t, _ := strconv.Atoi(tag)
		pa := tgt.PortalArg{Target: n, TPGT: uint16(t), Portal: addr}
		refused := false
		switch rng.Intn(6) {
		case 0:
			pa.Target, refused = n+"b", want[n+"b"] == nil
			if !refused {
				continue
			}
		case 1:
			if pa.TPGT, refused = uint16(rng.Intn(65536)), true; sp.Config.ISCSITargets[n].TPGTs[fmt.Sprint(pa.TPGT)] != nil {
				continue
			}
		case 2: // one it has already
			var as []string
			for _, q := range sp.Config.ISCSITargets[n].TPGTs[tag] {
				for j := range ids {
					if ids[j] == int(q) {
						as = append(as, addrs[j])
					}
				}
			}
			if len(as) == 0 {
				continue
			}
			pa.Portal, refused = as[rng.Intn(len(as))], true
		default:
			if want[n][addr+","+tag] {
				refused = true
			}
		}
		var has bool
		if ch.Call("HasPortal", pa, &has); has && !refused {
			r.Violate("has-portal", cas, pa, "HasPortal finds a portal nobody added: %v", pa)
		}
		err := ch.Call("AddPortal", pa, &tgt.Void{})
		if err != nil && strings.Contains(err.Error(), tgt.NoPortals) {
			r.Add("no_portal_api", 1)
			break
		}
		if dead(r, ch, cas, "adding a portal") {
			return
		}
		r.Eval(fmt.Sprint("add-portal", refused, cluster))
		r.Add("portals_added", int64(1-b2i(refused)))
		if (err != nil) != refused {
			r.Violate("add-portal", cas, pa, "adding the portal %v: %v", pa, err)
			return
		}
		if !refused {
			if ch.Call("HasPortal", pa, &has); !has {
				r.Violate("has-portal", cas, pa, "HasPortal does not find a portal just added: %v", pa)
			}
			if !cluster {
				want[n][addr+","+tag] = true
			}
		}
		one := rng.Intn(2) == 0
		q := "All"
		if one {
			q = n
		}
		if !ask(q, func(m string) bool { return !one || m == n }, opts()) {
			return
		}
	}
	if cluster {
		return
	}
	// every reported address of this machine takes the login, and reports its group; a session with
	// one target is told about that one only
	for k := 0; k < 12 && nt > 0; k++ {
		n := names[rng.Intn(nt)]
		for a := range want[n] {
			addr, tag, _ := strings.Cut(a, ",")
			if !strings.HasPrefix(addr, "127.") && !strings.HasPrefix(addr, "[::1]") {
				continue
			}
			s := login(r, ch, cas, ini.LoginOpts{Addr: addr, Target: n})
			if s == nil {
				return
			}
			r.Add("logins", 1)
			if addr[0] == '[' {
				r.Add("logins_over_ipv6", 1)
			}
			r.Eval("")
			// a portal in two groups of one target may report either
			if s.TPGT != tag && !want[n][addr+","+s.TPGT] {
				r.Violate("login-group", cas, sp.Config, "%s at %s is in group %s, the login reported %s", n, addr, tag, s.TPGT)
			}
			for _, q := range []string{"", "All", n} {
				kv, _, err := s.TextAll([]ini.KV{{K: "SendTargets", V: q}}, false)
				if err != nil {
					s.failed(err, "SendTargets in a normal session")
					return
				}
				for _, e := range kv {
					if e.K == "TargetName" && e.V != n || e.K == "TargetAddress" && !want[n][e.V] {
						r.Violate("normal-session", cas, nil, "a session with %s was told %s=%s", n, e.K, e.V)
					}
				}
			}
			s.Close()
		}
	}
	dead(r, ch, cas, "discovery")
}

func c11Diff(exp, got []string) string {
	if len(got) > len(exp) {
		return "more"
	}
	if len(got) < len(exp) {
		return "less"
	}
	return "other"
}

func c11First(exp, got []string) string {
	in := map[string]int{}
	for _, e := range exp {
		in[e]++
	}
	for _, g := range got {
		in[g]--
	}
	var s []string
	for k, v := range in {
		if v > 0 {
			s = append(s, fmt.Sprintf("missing %q", k))
		} else if v < 0 {
			s = append(s, fmt.Sprintf("extra %q", k))
		}
	}
	sort.Strings(s)
	return strings.Join(tail(s, 4), ", ")
}
