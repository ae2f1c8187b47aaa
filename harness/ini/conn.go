package ini

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"net"
	"os"
	"strconv"
	"sync"
	"time"
)

// Finding is a violation of a protocol rule seen by the monitor on a connection.
type Finding struct {
	Prop string // property whose rule was broken
	Msg  string
}

// LoginOpts describes a login.
type LoginOpts struct {
	Addr      string
	LocalAddr string // source IP, "" any
	Initiator string
	Target    string
	Discovery bool
	ISID      [6]byte
	TSIH      uint16
	CID       uint16
	Security  bool // go through the security stage first
	Auth      string
	Keys      []KV // operational keys; nil: a usual set
	CmdSN     uint32
	ExpStatSN uint32
	MRDSL     uint32 // declared by us when Keys==nil (0: 262144)
	OmitMRDSL bool
	MaxBurst  uint32
	FirstB    uint32
	ImmData   string
	Raw       bool // do not start the reader after login
}

// Conn is a logged-in connection with protocol monitor.
type Conn struct {
	NC    net.Conn
	Opts  LoginOpts
	Resp  []*PDU // login responses
	Keys  []KV   // all text answered
	Sent  []KV   // all text offered
	TSIH  uint16
	RTSIH uint16

	MyMRDSL  uint32 // what we declared: the target must honour it
	TgtMRDSL uint32
	MaxBurst uint32
	FirstB   uint32
	ImmOK    bool
	TPGT     string

	mu        sync.Mutex
	cond      *sync.Cond
	cmdSN     uint32 // next to assign
	statSN    uint32 // next expected
	statInit  bool
	expCmd    uint32
	maxCmd    uint32
	snInit    bool
	itt       uint32
	out       map[uint32]*Task
	finished  map[uint32]string
	find      []Finding
	closed    error
	wq        [][]byte
	wpend     bool
	trace     []string
	Strange   []*PDU // PDUs with no owner: Reject, Async, unsolicited NOP-In
	hold      bool
	nRecv     int
	TagStyle  int  // how task tags differ from one another, see nextITT
	NoSNChk   bool // the test sends PDUs by hand and numbers are not ours to judge
	LastStat  uint32
	other     map[uint32]chan *PDU
	pauseRd   bool
	rdGate    chan struct{}
	stats     PDUStats
	dead      chan struct{}
	sentMax   uint32 // cmdSN after the last sent non-immediate request
	loggedOut bool
	TextOpen  int        // so many text requests of the next exchange are complete but not final
	hdrs      [][48]byte // headers of the last PDUs sent (a ring)
	hdrN      int
	rawSent   bool          // bytes were sent that are not in hdrs
	AHS       func() []byte // additional header segment of the next command, if any
}

type PDUStats struct{ In, Out, DataIn, R2T, DataOut, Resp int }

// Watchdog is the generous wall-clock limit after which an unanswered request counts as unanswered.
var Watchdog = 30 * time.Second

var ErrClosed = errors.New("connection closed by target")

func (c *Conn) tr(dir string, p *PDU) {
	if len(c.trace) > 400 {
		c.trace = append([]string{}, c.trace[200:]...)
	}
	c.trace = append(c.trace, dir+" "+p.String())
}

// Trace returns the last PDUs.
func (c *Conn) Trace() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.trace...)
}

func (c *Conn) fail(prop, f string, a ...interface{}) {
	if len(c.find) < 50 {
		c.find = append(c.find, Finding{prop, fmt.Sprintf(f, a...)})
	}
}

// Findings returns what the monitor saw, for the given property ("" all).
func (c *Conn) Findings(prop string) []Finding {
	c.mu.Lock()
	defer c.mu.Unlock()
	var o []Finding
	for _, f := range c.find {
		if prop == "" || f.Prop == prop {
			o = append(o, f)
		}
	}
	return o
}
func (c *Conn) Stats() PDUStats { c.mu.Lock(); defer c.mu.Unlock(); return c.stats }

// Dial opens the TCP connection only.
func Dial(o LoginOpts) (net.Conn, error) {
	d := net.Dialer{Timeout: 20 * time.Second}
	if o.LocalAddr != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(o.LocalAddr)}
	}
	return d.Dial("tcp", o.Addr)
}

// LoginPDU builds a login request.
func LoginPDU(o *LoginOpts, csg, nsg byte, transit bool, itt uint32, kv []KV) *PDU {
	p := &PDU{}
	p.H[0] = OpLogin | 0x40
	p.H[1] = csg<<2 | nsg
	if transit {
		p.H[1] |= 0x80
	} else {
		p.H[1] = csg << 2
	}
	copy(p.H[8:14], o.ISID[:])
	p.Put16(14, o.TSIH)
	p.Put32(16, itt)
	p.Put16(20, o.CID)
	p.Put32(24, o.CmdSN)
	p.Put32(28, o.ExpStatSN)
	p.Data = EncodeKV(kv)
	return p
}

// DefaultKeys is the usual operational offer.
func DefaultKeys(o *LoginOpts) []KV {
	m := o.MRDSL
	if m == 0 {
		m = 262144
	}
	mb := o.MaxBurst
	if mb == 0 {
		mb = 262144
	}
	fb := o.FirstB
	if fb == 0 {
		fb = 65536
	}
	imm := o.ImmData
	if imm == "" {
		imm = "Yes"
	}
	kv := []KV{{"HeaderDigest", "None"}, {"DataDigest", "None"}, {"InitialR2T", "Yes"}, {"ImmediateData", imm},
		{"MaxBurstLength", strconv.Itoa(int(mb))}, {"FirstBurstLength", strconv.Itoa(int(fb))},
		{"DefaultTime2Wait", "2"}, {"DefaultTime2Retain", "20"},
		{"MaxOutstandingR2T", "1"}, {"MaxConnections", "1"}, {"ErrorRecoveryLevel", "0"}, {"DataPDUInOrder", "Yes"}, {"DataSequenceInOrder", "Yes"}}
	if !o.OmitMRDSL {
		kv = append(kv, KV{"MaxRecvDataSegmentLength", strconv.Itoa(int(m))})
	}
	return kv
}

// LoginError is a refused login (by status or by closing the connection).
type LoginError struct {
	Class, Detail byte
	Closed        bool
	Err           error
}

func (e *LoginError) Error() string {
	if e.Closed {
		return fmt.Sprintf("login refused: connection closed (%v)", e.Err)
	}
	return fmt.Sprintf("login refused: status %d/%d", e.Class, e.Detail)
}

// Login connects and logs in.
func Login(o LoginOpts) (*Conn, error) {
	nc, err := Dial(o)
	if err != nil {
		return nil, err
	}
	return LoginOn(nc, o)
}

// LoginOn logs in on an existing connection.
func LoginOn(nc net.Conn, o LoginOpts) (*Conn, error) {
	if o.Initiator == "" {
		o.Initiator = "iqn.2020-01.verif:init"
	}
	if o.ISID == ([6]byte{}) {
		o.ISID = [6]byte{0x80, 1, 2, 3, 4, 5}
	}
	c := &Conn{NC: nc, Opts: o, out: map[uint32]*Task{}, finished: map[uint32]string{}, other: map[uint32]chan *PDU{}, dead: make(chan struct{})}
	c.cond = sync.NewCond(&c.mu)
	c.MyMRDSL = 8192
	c.TgtMRDSL = 8192
	c.MaxBurst = 262144
	c.FirstB = 65536
	c.ImmOK = true
	id := []KV{{"InitiatorName", o.Initiator}}
	if o.Initiator == "-" {
		id = nil
	}
	if o.Discovery {
		id = append(id, KV{"SessionType", "Discovery"})
	} else {
		id = append(id, KV{"SessionType", "Normal"})
		if o.Target != "" {
			id = append(id, KV{"TargetName", o.Target})
		}
	}
	keys := o.Keys
	if keys == nil {
		keys = DefaultKeys(&o)
	}
	itt := uint32(0x100)
	fail := func(err error) (*Conn, error) { nc.Close(); return nil, err }
	xchg := func(p *PDU) (*PDU, error) {
		c.tr(">", p)
		if _, err := nc.Write(p.Bytes()); err != nil {
			return nil, &LoginError{Closed: true, Err: err}
		}
		nc.SetReadDeadline(time.Now().Add(Watchdog))
		r, err := ReadPDU(nc)
		nc.SetReadDeadline(time.Time{})
		if err != nil {
			if os.IsTimeout(err) {
				return nil, fmt.Errorf("login: no answer within %v", Watchdog)
			}
			return nil, &LoginError{Closed: true, Err: err}
		}
		c.tr("<", r)
		if r.Op() != OpLoginResp {
			return nil, fmt.Errorf("login: answer is %s", r)
		}
		if r.ITT() != p.ITT() {
			c.fail("C06", "login response has task tag %x, request %x", r.ITT(), p.ITT())
		}
		if !bytes.Equal(r.H[8:14], p.H[8:14]) {
			c.fail("C27", "login response names ISID %x, request %x", r.H[8:14], p.H[8:14])
		}
		if r.H[1]>>2&3 != p.H[1]>>2&3 {
			c.fail("C10", "login response is of stage %d, request of stage %d", r.H[1]>>2&3, p.H[1]>>2&3)
		}
		if r.H[2] != 0 || r.H[3] != 0 {
			c.fail("C10", "login response offers versions %d and %d", r.H[2], r.H[3])
		}
		if e := LoginShape(r); e != "" {
			c.fail("C06", "%s: %s", r, e)
		}
		c.Resp = append(c.Resp, r)
		if r.H[36] != 0 {
			return nil, &LoginError{Class: r.H[36], Detail: r.H[37]}
		}
		c.Keys = append(c.Keys, DecodeKV(r.Data)...)
		st := r.U32(24)
		if c.statInit && st != c.statSN {
			c.fail("C07", "login response StatSN %d, expected %d", st, c.statSN)
		}
		c.statInit = true
		c.statSN = st + 1
		o.ExpStatSN = c.statSN
		return r, nil
	}
	if o.Security {
		auth := o.Auth
		if auth == "" {
			auth = "None"
		}
		kv := append(append([]KV{}, id...), KV{"AuthMethod", auth})
		c.Sent = append(c.Sent, kv...)
		r, err := xchg(LoginPDU(&o, 0, 1, true, itt, kv))
		if err != nil {
			return fail(err)
		}
		if r.H[1]&0x80 == 0 || r.H[1]&3 != 1 {
			return fail(fmt.Errorf("login: security stage answered flags %02x", r.H[1]))
		}
		c.Sent = append(c.Sent, keys...)
		r, err = xchg(LoginPDU(&o, 1, 3, true, itt, append(append([]KV{}, keys...), sessType(o)...)))
		if err != nil {
			return fail(err)
		}
		if r.H[1]&0x80 == 0 || r.H[1]&3 != 3 {
			return fail(fmt.Errorf("login: operational stage answered flags %02x", r.H[1]))
		}
	} else {
		kv := append(append([]KV{}, id...), keys...)
		c.Sent = append(c.Sent, kv...)
		r, err := xchg(LoginPDU(&o, 1, 3, true, itt, kv))
		if err != nil {
			return fail(err)
		}
		if r.H[1]&0x80 == 0 || r.H[1]&3 != 3 {
			return fail(fmt.Errorf("login: operational stage answered flags %02x", r.H[1]))
		}
	}
	last := c.Resp[len(c.Resp)-1]
	c.RTSIH = last.U16(14)
	num := func(kvs []KV, k string) (uint32, bool) {
		v, ok := Find(kvs, k)
		if !ok {
			return 0, false
		}
		n, err := strconv.ParseUint(v, 10, 32)
		return uint32(n), err == nil
	}
	if v, ok := num(c.Sent, "MaxRecvDataSegmentLength"); ok {
		c.MyMRDSL = v
	}
	if v, ok := num(c.Keys, "MaxRecvDataSegmentLength"); ok {
		c.TgtMRDSL = v
	}
	if v, ok := num(c.Keys, "MaxBurstLength"); ok {
		c.MaxBurst = v
	}
	if w, ok2 := num(c.Sent, "MaxBurstLength"); ok2 && w < c.MaxBurst {
		c.MaxBurst = w
	}
	if v, ok := num(c.Keys, "FirstBurstLength"); ok {
		c.FirstB = v
	}
	if w, ok2 := num(c.Sent, "FirstBurstLength"); ok2 && w < c.FirstB {
		c.FirstB = w
	}
	if v, ok := Find(c.Keys, "ImmediateData"); ok && v == "No" {
		c.ImmOK = false
	}
	if v, ok := Find(c.Sent, "ImmediateData"); ok && v == "No" {
		c.ImmOK = false
	}
	c.TPGT, _ = Find(c.Keys, "TargetPortalGroupTag")
	c.cmdSN = o.CmdSN
	c.sentMax = o.CmdSN
	c.itt = 0x1000
	if !o.Raw {
		go c.writer()
		go c.reader()
	}
	return c, nil
}

func sessType(o LoginOpts) []KV { return nil }

func (c *Conn) writer() {
	for {
		c.mu.Lock()
		for len(c.wq) == 0 && c.closed == nil {
			c.cond.Wait()
		}
		if c.closed != nil && len(c.wq) == 0 {
			c.mu.Unlock()
			return
		}
		b := c.wq[0]
		c.wq = c.wq[1:]
		c.mu.Unlock()
		if _, err := c.NC.Write(b); err != nil {
			c.mu.Lock()
			c.wq = nil
			c.mu.Unlock()
			return
		}
	}
}

// send queues a PDU (lock held).
func (c *Conn) send(p *PDU) {
	c.tr(">", p)
	c.stats.Out++
	if p.Op() == OpDataOut {
		c.stats.DataOut++
	}
	b := p.Bytes()
	if len(c.hdrs) < 4096 {
		c.hdrs = append(c.hdrs, [48]byte{})
	}
	copy(c.hdrs[c.hdrN%4096][:], b)
	c.hdrN++
	c.wq = append(c.wq, b)
	c.cond.Broadcast()
}

// reject checks a Reject: it carries the header of a PDU that was sent.
func (c *Conn) reject(p *PDU) {
	if p.ITT() != 0xffffffff {
		c.fail("C06", "%s: the task tag of a Reject is not ffffffff", p)
	}
	if len(p.Data) < 48 {
		c.fail("C06", "%s: a Reject with %d bytes of data does not carry the header of the rejected PDU", p, len(p.Data))
		return
	}
	if c.rawSent {
		return
	}
	var h [48]byte
	copy(h[:], p.Data)
	for i := range c.hdrs {
		if c.hdrs[i] == h {
			return
		}
	}
	c.fail("C06", "%s: the header a Reject carries (% x) is none of those sent", p, h)
}

// SendRaw queues a PDU as it is.
func (c *Conn) SendRaw(p *PDU) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.send(p)
}

// SendBytes queues raw bytes.
func (c *Conn) SendBytes(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rawSent = true
	c.wq = append(c.wq, b)
	c.cond.Broadcast()
}

// PauseReading stops consuming from the socket until ResumeReading.
func (c *Conn) PauseReading() {
	c.mu.Lock()
	if c.rdGate == nil {
		c.rdGate = make(chan struct{})
	}
	c.mu.Unlock()
}
func (c *Conn) ResumeReading() {
	c.mu.Lock()
	if c.rdGate != nil {
		close(c.rdGate)
		c.rdGate = nil
	}
	c.mu.Unlock()
}

func (c *Conn) reader() {
	for {
		p, err := ReadPDU(c.NC)
		c.mu.Lock()
		g := c.rdGate
		c.mu.Unlock()
		if g != nil {
			<-g
		}
		if err != nil {
			c.mu.Lock()
			if c.closed == nil {
				if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) {
					c.closed = ErrClosed
				} else {
					c.closed = err
				}
			}
			for _, t := range c.out {
				if !t.isDone {
					t.Err = c.closed
					t.finish()
				}
			}
			for k, ch := range c.other {
				close(ch)
				delete(c.other, k)
			}
			c.cond.Broadcast()
			close(c.dead)
			c.mu.Unlock()
			c.NC.Close()
			return
		}
		c.mu.Lock()
		c.handle(p)
		c.mu.Unlock()
	}
}

// Closed tells whether the connection ended, and how.
func (c *Conn) Closed() error { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

// WaitClosed waits for the target to close the connection.
func (c *Conn) WaitClosed(d time.Duration) bool {
	select {
	case <-c.dead:
		return true
	case <-time.After(d):
		return false
	}
}

// Close drops the connection from our side.
func (c *Conn) Close() {
	c.mu.Lock()
	if c.closed == nil {
		c.closed = errors.New("closed locally")
	}
	if c.rdGate != nil {
		close(c.rdGate)
		c.rdGate = nil
	}
	c.cond.Broadcast()
	c.mu.Unlock()
	c.NC.Close()
}

// Reset drops the connection with a TCP reset.
func (c *Conn) Reset() {
	if tc, ok := c.NC.(*net.TCPConn); ok {
		tc.SetLinger(0)
	}
	c.Close()
}

// sn checks the three sequence numbers of a received PDU (lock held).
func (c *Conn) sn(p *PDU, carriesStatus bool) {
	st, ec, mc := p.U32(24), p.U32(28), p.U32(32)
	if carriesStatus {
		if c.statInit && st != c.statSN {
			c.fail("C07", "%s: StatSN %d, expected %d", p, st, c.statSN)
		}
		c.statInit = true
		c.statSN = st + 1
		c.LastStat = st
	}
	if c.NoSNChk {
		return
	}
	if c.snInit {
		if SerLT(ec, c.expCmd) {
			c.fail("C07", "%s: ExpCmdSN went back from %d to %d", p, c.expCmd, ec)
		}
		if SerLT(mc, c.maxCmd) {
			c.fail("C07", "%s: MaxCmdSN went back from %d to %d", p, c.maxCmd, mc)
		}
	}
	if SerLT(c.sentMax, ec) {
		c.fail("C07", "%s: ExpCmdSN %d acknowledges commands never sent (next CmdSN is %d)", p, ec, c.sentMax)
	}
	if SerLT(mc, ec-1) {
		c.fail("C07", "%s: MaxCmdSN %d < ExpCmdSN %d - 1", p, mc, ec)
	}
	if !c.snInit || SerLT(c.expCmd, ec) {
		c.expCmd = ec
	}
	if !c.snInit || SerLT(c.maxCmd, mc) {
		c.maxCmd = mc
	}
	c.snInit = true
	c.cond.Broadcast()
}

// Window returns the last ExpCmdSN and MaxCmdSN.
func (c *Conn) Window() (uint32, uint32) { c.mu.Lock(); defer c.mu.Unlock(); return c.expCmd, c.maxCmd }

// CmdSN returns the next command number to be used.
func (c *Conn) CmdSN() uint32 { c.mu.Lock(); defer c.mu.Unlock(); return c.cmdSN }

func (c *Conn) ExpStatSN() uint32 { c.mu.Lock(); defer c.mu.Unlock(); return c.statSN }

// TakeCmdSN consumes a command number for a hand-made PDU.
func (c *Conn) TakeCmdSN() uint32 {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := c.cmdSN
	c.cmdSN++
	c.sentMax = c.cmdSN
	return n
}
func (c *Conn) NewITT() uint32 { c.mu.Lock(); defer c.mu.Unlock(); return c.nextITT() }

// nextITT returns a task tag that is not in use. Consecutive tags differ in
// their low bytes, their high bytes only or everywhere, as TagStyle says.
func (c *Conn) nextITT() uint32 {
	for {
		c.itt++
		t := c.itt
		switch c.TagStyle % 4 {
		case 1:
			t = t<<16 | t>>16
		case 2:
			t = bits.ReverseBytes32(t)
		case 3:
			t *= 0x9e3779b1
		}
		if t != 0 && t != 0xffffffff && c.out[t] == nil && c.other[t] == nil {
			return t
		}
	}
}

// Adopt takes over a connection whose login was done by hand.
func Adopt(nc net.Conn, o LoginOpts, stat, my, tgt, burst, first uint32, imm bool) *Conn {
	c := &Conn{NC: nc, Opts: o, out: map[uint32]*Task{}, finished: map[uint32]string{}, other: map[uint32]chan *PDU{}, dead: make(chan struct{})}
	c.cond = sync.NewCond(&c.mu)
	c.MyMRDSL, c.TgtMRDSL, c.MaxBurst, c.FirstB, c.ImmOK = my, tgt, burst, first, imm
	c.statInit, c.statSN = true, stat
	c.cmdSN, c.sentMax, c.itt = o.CmdSN, o.CmdSN, 0x1000
	nc.SetReadDeadline(time.Time{})
	go c.writer()
	go c.reader()
	return c
}

// SetMRDSL changes what we declared.
func (c *Conn) SetMRDSL(n uint32) { c.mu.Lock(); c.MyMRDSL = n; c.mu.Unlock() }
