package checks

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"verif/ck"
	"verif/ini"
	"verif/tgt"

	"github.com/gostor/gotgt/pkg/config"
)

// c27Storm: identities log in again at the very moment their last session ends by itself, or replace it while it lives.
// The end of the old session must not touch what the new one has: its place in the session table, its nexus, its reservation.
func c27Storm(r *ck.Run, i int) {
	cas := fmt.Sprint("storm-", i)
	rng := r.Rng("storm", i)
	const ids = 6
	sp := tgt.Spec{Port: tgt.FreePort()}
	sp.Config.ISCSIPortals = []config.ISCSIPortalInfo{{ID: 1, Portal: fmt.Sprintf("127.0.0.1:%d", sp.Port)}}
	luns := map[string]uint64{}
	for k := 0; k <= ids; k++ {
		sp.Config.Storages = append(sp.Config.Storages, Dev{ID: uint64(1 + k), Name: fmt.Sprint("s", k), Size: 1 << 20, Shift: 9}.storage())
		luns[fmt.Sprint(k)] = uint64(1 + k)
	}
	sp.Config.ISCSITargets = map[string]config.ISCSITarget{TN(0): {TPGTs: map[string][]uint64{"1": {1}}, LUNs: luns}}
	ch := start(r, cas, sp, false)
	if ch == nil {
		return
	}
	defer ch.Stop()
	by := login(r, ch, cas, ini.LoginOpts{Initiator: "iqn.2020-01.verif:bystander", ISID: [6]byte{0x80, 7}})
	if by == nil {
		return
	}
	defer by.Close()
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := false
	bad := func(sig, f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if !failed {
			failed = true
			r.Violate(sig, cas, nil, f, a...)
		}
	}
	over := func() bool { mu.Lock(); defer mu.Unlock(); return failed }
	var conns [ids]*rawc
	rounds := r.Q(250, 1500)
	batch := 50
	for done := 0; done < rounds && !over(); done += batch {
		for k := 0; k < ids; k++ {
			wg.Add(1)
			seed := rng.Int63()
			go func(k int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				for it := 0; it < batch && !over(); it++ {
					n := c27Relogin(r, ch, by, conns[k], k, rng, bad)
					if n == nil {
						return
					}
					conns[k] = n
				}
			}(k)
		}
		wg.Wait()
		if over() || dead(r, ch, cas, "logins at the end of sessions") {
			return
		}
		// at rest: every identity is listed, holds its reservation, and is found by the login that replaces it
		if !by.usable("after a storm of logins") {
			return
		}
		time.Sleep(2 * time.Millisecond)
		end := time.Now().Add(ini.Watchdog)
		for polls := 0; ; polls++ {
			n, _ := nexuses(ch)
			if n[TN(0)] == ids+1 {
				break
			}
			if n[TN(0)] < ids+1 || polls > 200 && time.Now().After(end) {
				bad("nexus-list", "after a storm of logins with %d sessions open the target lists %d nexuses", ids+1, n[TN(0)])
				return
			}
			time.Sleep(time.Millisecond)
		}
		for k := 0; k < ids; k++ {
			t, ok := by.cmd(ini.ReadCmd(ini.LUN(k), ini.READ10, 0, 1, 512, 0), "READ(10) of a reserved unit")
			if !ok {
				return
			}
			if t.Status != 0x18 {
				bad("reservation-lost", "the reservation of a live session whose predecessor had just ended is gone: a read of another session ends with %s", t.Outcome())
				return
			}
		}
	}
	for k := range conns {
		if conns[k] != nil {
			conns[k].close()
		}
	}
}

func c27Relogin(r *ck.Run, ch *tgt.Child, by *Sess, old *rawc, k int, rng *rand.Rand, bad func(sig, f string, a ...interface{})) *rawc {
	o := ini.LoginOpts{Addr: ch.Spec.Addr(), Initiator: fmt.Sprint("iqn.2020-01.verif:storm", k), Target: TN(0), ISID: [6]byte{0x80, 1, byte(k)}, CmdSN: rng.Uint32(), MRDSL: 8192}
	n, err := dialRaw(o)
	if err != nil {
		if !ch.Alive() {
			return nil
		}
		bad("login-failed", "connecting to the target: %v", err)
		return nil
	}
	names := []ini.KV{{K: "InitiatorName", V: o.Initiator}, {K: "TargetName", V: o.Target}, {K: "SessionType", V: "Normal"}, {K: "AuthMethod", V: "None"}}
	p, err := n.login(lreq{csg: 0, nsg: 1, t: true, kv: names})
	if err != nil || p.Op() != ini.OpLoginResp || p.U16(36) != 0 {
		n.close()
		if ch.Alive() {
			bad("login-failed", "first login request of a storm: %v %v", p, err)
		}
		return nil
	}
	mode := 4
	if old != nil {
		mode = rng.Intn(4)
	}
	fin := ini.LoginPDU(&n.o, 1, 3, true, n.itt, []ini.KV{{K: "MaxRecvDataSegmentLength", V: "8192"}})
	if mode < 3 && rng.Intn(3) == 0 { // a write of the old one waits for its data
		w := ini.WriteCmd(ini.LUN(k), ini.WRITE10, 3, 4, make([]byte, 2048), 0)
		old.send(old.scsi(ini.LUN(k), w.CDB, 0x20, 2048, nil))
		old.o.CmdSN++
	}
	spin := time.Duration(rng.Intn(120)) * time.Microsecond
	switch mode {
	case 0:
		old.nc.Close()
	case 1:
		old.nc.(*net.TCPConn).SetLinger(0)
		old.nc.Close()
	case 2:
		old.send(old.req(ini.OpLogout, 0, [8]byte{}, 0, nil))
	}
	for e := time.Now().Add(spin); time.Now().Before(e); {
	}
	n.send(fin)
	if p, err = n.recv(ini.Watchdog); err != nil || p.Op() != ini.OpLoginResp || p.U16(36) != 0 {
		n.close()
		if ch.Alive() {
			bad("login-failed", "a login of an identity whose last session is just ending (mode %d): %v %v", mode, p, err)
		}
		return nil
	}
	n.stat = p.U32(24) + 1
	n.o.ExpStatSN = n.stat
	// the new session takes the reservation of its unit, which nobody else ever has
	n.send(n.scsi(ini.LUN(k), []byte{ini.RESERVE6, 0, 0, 0, 0, 0}, 0, 0, nil))
	n.o.CmdSN++
	if p, err = n.recv(ini.Watchdog); err != nil || p.Op() != ini.OpResp || p.H[3] != 0 {
		n.close()
		if ch.Alive() {
			bad("reserve", "RESERVE(6) by a new session of the only initiator that uses the unit (mode %d): %v %v", mode, p, err)
		}
		return nil
	}
	n.stat = p.U32(24) + 1
	if old != nil && mode >= 2 {
		for {
			q, err := old.recv(ini.Watchdog)
			if err == errQuiet {
				n.close()
				bad("not-replaced", "the old session of an identity (mode %d) is open after a new login of it", mode)
				return nil
			}
			if err != nil {
				break
			}
			_ = q
		}
		old.close()
	}
	r.Eval(fmt.Sprint("storm ", mode))
	return n
}
