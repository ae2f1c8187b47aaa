package ini

import (
	"encoding/binary"
	"errors"
	"fmt"
	"time"
)

// Cmd is a SCSI command to send.
type Cmd struct {
	LUN     [8]byte
	CDB     []byte
	Read    bool
	Write   bool
	EDTL    uint32
	Out     []byte // data we are ready to send (may be longer or shorter than EDTL)
	Imm     int    // bytes of immediate data (-1: as much as allowed)
	NowBit  bool   // immediate delivery (not numbered)
	Attr    byte
	Seg     int  // Data-Out segment size (0: the target's maximum)
	Hold    bool // do not answer R2Ts automatically; they appear in Task.R2Ts
	Flags   byte // extra flags or-ed in byte 1
	NoFinal bool
	ForceSN bool // use SN as it is, without the window
	SN      uint32
	ITT     uint32 // task tag to use, 0: a fresh one
	// SkipResid turns off the residual rule (the amount a command transfers is not known in general)
	Xfer int64 // bytes the command really transfers; <0 unknown
}

type R2T struct {
	TTT      uint32
	SN       uint32
	Off, Len uint32
}

type DataInInfo struct {
	Off, Len uint32
	SN       uint32
	Flags    byte
}

// Task is an outstanding or finished command.
type Task struct {
	C      *Conn
	Cmd    Cmd
	ITT    uint32
	CmdSN  uint32
	Status byte
	Resp   byte
	Data   []byte // data received
	Sense  []byte
	RawSD  []byte // data segment of the response PDU
	RFlags byte   // flags of the final PDU
	Resid  uint32
	R2Ts   []R2T
	DIns   []DataInInfo
	Err    error
	StatSN uint32
	Call   int64
	Ret    int64
	isDone bool
	done   chan struct{}
	r2tCh  chan R2T
	dsn    uint32
	got    uint32
	sol    uint32 // end of data solicited or sent so far (in-order)
	r2tsn  uint32
	imm    uint32
	maxOff uint32
	burst  uint32
	// Clock is called at call and return events
}

// Clock gives the logical time of call/return events; set by checks that need it.
var Clock = func() int64 { return time.Now().UnixNano() }

func (t *Task) finish() {
	if t.isDone {
		return
	}
	t.isDone = true
	t.Ret = Clock()
	close(t.done)
}

// Done tells whether the final response arrived.
func (t *Task) Done() bool {
	select {
	case <-t.done:
		return true
	default:
		return false
	}
}

var ErrNoResponse = errors.New("no response")

// Wait waits for the final response, watchdog bounded.
func (t *Task) Wait() error { return t.WaitFor(Watchdog) }
func (t *Task) WaitFor(d time.Duration) error {
	select {
	case <-t.done:
		return t.Err
	case <-time.After(d):
		return ErrNoResponse
	}
}

// NextR2T waits for the next R2T of a held task (or its end).
func (t *Task) NextR2T(d time.Duration) (R2T, bool) {
	select {
	case r := <-t.r2tCh:
		return r, true
	default:
	}
	select {
	case r := <-t.r2tCh:
		return r, true
	case <-t.done:
		select {
		case r := <-t.r2tCh:
			return r, true
		default:
		}
		return R2T{}, false
	case <-time.After(d):
		return R2T{}, false
	}
}

// CmdPDU builds the command PDU.
func (c *Conn) cmdPDU(t *Task) *PDU {
	p := &PDU{}
	p.H[0] = OpCmd
	if t.Cmd.NowBit {
		p.H[0] |= 0x40
	}
	p.H[1] = t.Cmd.Attr&7 | t.Cmd.Flags
	if !t.Cmd.NoFinal {
		p.H[1] |= 0x80
	}
	if t.Cmd.Read {
		p.H[1] |= 0x40
	}
	if t.Cmd.Write {
		p.H[1] |= 0x20
	}
	copy(p.H[8:16], t.Cmd.LUN[:])
	p.Put32(16, t.ITT)
	p.Put32(20, t.Cmd.EDTL)
	p.Put32(24, t.CmdSN)
	p.Put32(28, c.statSN)
	copy(p.H[32:48], t.Cmd.CDB)
	if c.AHS != nil {
		p.AHS = c.AHS()
	}
	if t.Cmd.Write && t.imm > 0 {
		p.Data = t.Cmd.Out[:t.imm]
	}
	return p
}

// Submit sends a command without waiting. It waits while the command window is closed.
func (c *Conn) Submit(cmd Cmd) *Task {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := &Task{C: c, Cmd: cmd, done: make(chan struct{}), r2tCh: make(chan R2T, 4096)}
	if !cmd.NowBit && !cmd.ForceSN {
		end := time.Now().Add(Watchdog)
		for c.closed == nil && c.snInit && SerLT(c.maxCmd, c.cmdSN) {
			c.mu.Unlock()
			time.Sleep(200 * time.Microsecond)
			c.mu.Lock()
			if time.Now().After(end) {
				c.fail("C07", "command window never reopened: MaxCmdSN %d, next CmdSN %d", c.maxCmd, c.cmdSN)
				t.Err = fmt.Errorf("window closed")
				t.Call = Clock()
				t.finish()
				return t
			}
		}
	}
	t.CmdSN = c.cmdSN
	switch {
	case cmd.ForceSN:
		t.CmdSN = cmd.SN
	case !cmd.NowBit:
		c.cmdSN++
		c.sentMax = c.cmdSN
	}
	if t.ITT = cmd.ITT; t.ITT == 0 {
		t.ITT = c.nextITT()
	}
	n := 0
	if cmd.Write && c.ImmOK {
		lim := len(cmd.Out)
		if lim > int(cmd.EDTL) {
			lim = int(cmd.EDTL)
		}
		if lim > int(c.TgtMRDSL) {
			lim = int(c.TgtMRDSL)
		}
		if lim > int(c.FirstB) {
			lim = int(c.FirstB)
		}
		n = cmd.Imm
		if n < 0 || n > lim {
			n = lim
		}
	}
	t.imm = uint32(n)
	t.sol = t.imm
	t.Call = Clock()
	if c.closed != nil {
		t.Err = c.closed
		t.finish()
		return t
	}
	c.out[t.ITT] = t
	c.send(c.cmdPDU(t))
	return t
}

// Do runs a command to completion.
func (c *Conn) Do(cmd Cmd) (*Task, error) {
	t := c.Submit(cmd)
	return t, t.Wait()
}

// DataOut builds one Data-Out PDU.
func (t *Task) DataOut(ttt, dsn, off uint32, b []byte, final bool) *PDU {
	p := &PDU{}
	p.H[0] = OpDataOut
	if final {
		p.H[1] = 0x80
	}
	copy(p.H[8:16], t.Cmd.LUN[:])
	p.Put32(16, t.ITT)
	p.Put32(20, ttt)
	p.Put32(28, t.C.statSN)
	p.Put32(36, dsn)
	p.Put32(40, off)
	p.Data = b
	return p
}

// Answer sends the data of one R2T (taking the lock).
func (t *Task) Answer(r R2T, seg int) {
	t.C.mu.Lock()
	defer t.C.mu.Unlock()
	t.answer(r, seg)
}

// AnswerPDUs returns the Data-Out PDUs answering an R2T, to be sent by hand.
func (t *Task) AnswerPDUs(r R2T, seg int) []*PDU {
	t.C.mu.Lock()
	defer t.C.mu.Unlock()
	return t.pdus(r, seg)
}
func (t *Task) pdus(r R2T, seg int) []*PDU {
	if seg <= 0 || seg > int(t.C.TgtMRDSL) {
		seg = int(t.C.TgtMRDSL)
	}
	var out []*PDU
	off, end := int64(r.Off), int64(r.Off)+int64(r.Len)
	var dsn uint32
	for off < end {
		n := int64(seg)
		if off+n > end {
			n = end - off
		}
		b := make([]byte, n)
		if off < int64(len(t.Cmd.Out)) {
			copy(b, t.Cmd.Out[off:])
		}
		out = append(out, t.DataOut(r.TTT, dsn, uint32(off), b, off+n == end))
		dsn++
		off += n
	}
	return out
}
func (t *Task) answer(r R2T, seg int) {
	for _, p := range t.pdus(r, seg) {
		t.C.send(p)
	}
}

// reserved are the bits RFC 7143 leaves no choice for: mask and value of byte
// 1 and the other bytes of the header that have to be 0.
var reserved = map[byte]struct {
	mask, val byte
	zero      []int
}{
	OpNopIn:      {0xff, 0x80, span(2, 3, 36, 47)},
	OpResp:       {0xe1, 0x80, span(8, 15)},
	OpTMFResp:    {0xff, 0x80, span(3, 3, 5, 15, 20, 23, 36, 47)},
	OpTextResp:   {0x3f, 0, span(2, 3, 36, 47)},
	OpDataIn:     {0x38, 0, nil},
	OpLogoutResp: {0xff, 0x80, span(3, 3, 5, 15, 20, 23, 36, 39, 44, 47)},
	OpR2T:        {0xff, 0x80, span(2, 3, 5, 7)},
	OpReject:     {0xff, 0x80, span(3, 3, 8, 15, 20, 23, 40, 47)},
}

// span lists the numbers of closed ranges.
func span(x ...int) []int {
	var l []int
	for ; len(x) > 1; x = x[2:] {
		for i := x[0]; i <= x[1]; i++ {
			l = append(l, i)
		}
	}
	return l
}

// LoginShape tells what is wrong with the header of a login response.
func LoginShape(p *PDU) string {
	switch f := p.H[1]; {
	case p.H[0] != OpLoginResp:
		return fmt.Sprintf("first byte %02x", p.H[0])
	case f&0x30 != 0:
		return fmt.Sprintf("reserved flags %02x", f)
	case f&0xc0 == 0xc0:
		return fmt.Sprintf("flags %02x: transit and continue", f)
	case f&0x80 == 0 && f&3 != 0 && p.H[36] == 0:
		return fmt.Sprintf("flags %02x: a next stage without transit", f)
	case p.H[2] != 0 || p.H[3] != 0:
		return fmt.Sprintf("versions %d and %d", p.H[2], p.H[3])
	}
	for _, i := range span(4, 4, 20, 23, 38, 47) {
		if p.H[i] != 0 {
			return fmt.Sprintf("byte %d is %02x", i, p.H[i])
		}
	}
	return ""
}

// shape checks what the header of every answer of its kind looks like.
func (c *Conn) shape(p *PDU) {
	r, ok := reserved[p.Op()]
	if !ok {
		return
	}
	if p.H[0] != p.Op() {
		c.fail("C06", "%s: first byte %02x", p, p.H[0])
	}
	if p.H[1]&r.mask != r.val {
		c.fail("C06", "%s: flags %02x", p, p.H[1])
	}
	if p.H[4] != 0 {
		c.fail("C06", "%s: %d words of additional header", p, p.H[4])
	}
	for _, i := range r.zero {
		if p.H[i] != 0 {
			c.fail("C06", "%s: byte %d is %02x", p, i, p.H[i])
		}
	}
}

// handle processes a received PDU (lock held).
func (c *Conn) handle(p *PDU) {
	c.tr("<", p)
	c.nRecv++
	c.stats.In++
	c.shape(p)
	if c.loggedOut {
		c.fail("C07", "%s came after the response to the logout", p)
	}
	switch p.Op() {
	case OpDataIn:
		c.stats.DataIn++
		c.dataIn(p)
	case OpResp:
		c.stats.Resp++
		c.resp(p)
	case OpR2T:
		c.stats.R2T++
		c.r2t(p)
	case OpNopIn, OpTMFResp, OpTextResp, OpLogoutResp:
		if p.Op() == OpNopIn && p.ITT() == 0xffffffff {
			c.sn(p, false)
			c.Strange = append(c.Strange, p)
			return
		}
		c.sn(p, true)
		if p.Op() == OpLogoutResp && p.H[2] == 0 {
			c.loggedOut = true
		}
		if ch := c.other[p.ITT()]; ch != nil {
			delete(c.other, p.ITT())
			c.finished[p.ITT()] = "answered " + opNames[p.Op()]
			ch <- p
			return
		}
		c.fail("C06", "%s: no request outstanding with this tag (%s)", p, c.finished[p.ITT()])
		c.Strange = append(c.Strange, p)
	case OpReject:
		c.sn(p, true)
		c.reject(p)
		c.Strange = append(c.Strange, p)
	default:
		c.sn(p, false)
		c.Strange = append(c.Strange, p)
	}
}

func (c *Conn) dataIn(p *PDU) {
	hasStat := p.H[1]&1 != 0
	c.sn(p, hasStat)
	t := c.out[p.ITT()]
	if t != nil && hasStat {
		t.StatSN = p.U32(24)
	}
	if t == nil {
		c.fail("C06", "%s: Data-In for a tag that is not outstanding (%s)", p, c.finished[p.ITT()])
		return
	}
	dl, off := uint32(len(p.Data)), p.U32(40)
	t.DIns = append(t.DIns, DataInInfo{off, dl, p.U32(36), p.H[1]})
	if !t.Cmd.Read && t.Cmd.EDTL > 0 && t.Cmd.Write {
		c.fail("C06", "%s: Data-In for a write", p)
	}
	if p.U32(36) != t.dsn {
		c.fail("C06", "%s: DataSN %d, expected %d", p, p.U32(36), t.dsn)
	}
	t.dsn = p.U32(36) + 1
	if off != t.got {
		c.fail("C06", "%s: Data-In offset %d, expected %d", p, off, t.got)
	}
	if dl > c.MyMRDSL {
		c.fail("C06", "%s: data segment of %d bytes, initiator declared MaxRecvDataSegmentLength %d", p, dl, c.MyMRDSL)
		c.fail("C10", "%s: data segment of %d bytes, initiator declared MaxRecvDataSegmentLength %d", p, dl, c.MyMRDSL)
	}
	if uint64(off)+uint64(dl) > uint64(t.Cmd.EDTL) {
		c.fail("C06", "%s: Data-In beyond the expected length %d", p, t.Cmd.EDTL)
	}
	t.burst += dl
	if t.burst > c.MaxBurst {
		c.fail("C10", "%s: data-in sequence of %d bytes, MaxBurstLength %d", p, t.burst, c.MaxBurst)
		c.fail("C06", "%s: data-in sequence of %d bytes, MaxBurstLength %d", p, t.burst, c.MaxBurst)
	}
	if p.H[1]&0x80 != 0 {
		t.burst = 0
	} else if hasStat {
		c.fail("C06", "%s: status bit without final bit", p)
	}
	if !hasStat && p.H[1]&0x06 != 0 {
		c.fail("C06", "%s: residual flags without status", p)
	}
	if need := int(off) + int(dl); need > len(t.Data) && need <= 1<<28 {
		t.Data = append(t.Data, make([]byte, need-len(t.Data))...)
	}
	if int(off)+int(dl) <= len(t.Data) {
		copy(t.Data[off:], p.Data)
	}
	t.got = off + dl
	if hasStat {
		t.Status = p.H[3]
		if t.Status != 0 && t.Status != 4 && t.Status != 0x10 && t.Status != 0x14 {
			c.fail("C06", "%s: Data-In carries status %02x", p, t.Status)
		}
		c.complete(t, p)
	}
}

func (c *Conn) complete(t *Task, p *PDU) {
	t.RFlags = p.H[1]
	t.Resid = p.U32(44)
	delete(c.out, t.ITT)
	c.finished[t.ITT] = "already completed"
	if len(c.finished) > 20000 {
		c.finished = map[uint32]string{}
	}
	u, o := p.H[1]&2 != 0, p.H[1]&4 != 0
	if u && o {
		c.fail("C06", "%s: both underflow and overflow set", p)
	}
	if !u && !o && t.Resid != 0 {
		c.fail("C06", "%s: residual count %d without a residual flag", p, t.Resid)
	}
	if p.H[1]&0x80 == 0 {
		c.fail("C06", "%s: final bit clear in the response", p)
	}
	if t.Cmd.Xfer >= 0 && t.Status == 0 {
		diff := int64(t.Cmd.EDTL) - t.Cmd.Xfer
		switch {
		case diff > 0 && (!u || t.Resid != uint32(diff)):
			c.fail("C06", "%s: command cdb=%x transfers %d of %d expected bytes but flags %02x residual %d", p, t.Cmd.CDB, t.Cmd.Xfer, t.Cmd.EDTL, p.H[1], t.Resid)
		case diff < 0 && (!o || t.Resid != uint32(-diff)):
			c.fail("C06", "%s: command cdb=%x needs %d bytes, only %d expected, but flags %02x residual %d", p, t.Cmd.CDB, t.Cmd.Xfer, t.Cmd.EDTL, p.H[1], t.Resid)
		case diff == 0 && (u || o || t.Resid != 0):
			c.fail("C06", "%s: command cdb=%x transfers exactly the %d expected bytes but flags %02x residual %d", p, t.Cmd.CDB, t.Cmd.EDTL, p.H[1], t.Resid)
		}
	}
	if t.Cmd.Read && t.Status != 0 {
		if diff := t.Cmd.EDTL - t.got; o || diff > 0 && (!u || t.Resid != diff) || diff == 0 && u {
			c.fail("C06", "%s: cdb=%x ended with status %02x after %d of %d expected bytes, but flags %02x residual %d", p, t.Cmd.CDB, t.Status, t.got, t.Cmd.EDTL, p.H[1], t.Resid)
		}
	}
	if t.Cmd.Read && t.Status == 0 {
		// what arrived must agree with the residual
		want := int64(t.Cmd.EDTL)
		if u {
			want -= int64(t.Resid)
		}
		if int64(t.got) != want {
			c.fail("C06", "%s: cdb=%x expected length %d, flags %02x, residual %d but %d bytes of data arrived", p, t.Cmd.CDB, t.Cmd.EDTL, p.H[1], t.Resid, t.got)
		}
	}
	t.finish()
}

func (c *Conn) resp(p *PDU) {
	c.sn(p, true)
	t := c.out[p.ITT()]
	if t == nil {
		c.fail("C06", "%s: response for a tag that is not outstanding (%s)", p, c.finished[p.ITT()])
		return
	}
	t.StatSN = p.U32(24)
	t.Resp = p.H[2]
	t.Status = p.H[3]
	t.RawSD = p.Data
	if t.Resp != 0 {
		c.fail("C06", "%s: iSCSI response code %02x", p, t.Resp)
	}
	if len(p.Data) >= 2 {
		n := int(binary.BigEndian.Uint16(p.Data))
		if n > len(p.Data)-2 {
			c.fail("C25", "%s: sense length %d but only %d bytes follow", p, n, len(p.Data)-2)
			n = len(p.Data) - 2
		}
		t.Sense = p.Data[2 : 2+n]
		if t.Status == 0 {
			c.fail("C06", "%s: GOOD status with %d bytes of data in the response PDU", p, len(p.Data))
		}
	} else if len(p.Data) == 1 {
		c.fail("C25", "%s: one byte of response data", p)
	}
	if t.Status == 2 && len(t.Sense) == 0 {
		c.fail("C25", "%s: CHECK CONDITION without sense data, cdb=%x", p, t.Cmd.CDB)
	}
	c.complete(t, p)
}

func (c *Conn) r2t(p *PDU) {
	c.sn(p, false)
	if st := p.U32(24); c.statInit && st != c.statSN {
		c.fail("C07", "%s: R2T shows StatSN %d, next is %d", p, st, c.statSN)
	}
	t := c.out[p.ITT()]
	if t == nil {
		c.fail("C08", "%s: R2T for a tag that is not outstanding (%s)", p, c.finished[p.ITT()])
		return
	}
	r := R2T{TTT: p.U32(20), SN: p.U32(36), Off: p.U32(40), Len: p.U32(44)}
	t.R2Ts = append(t.R2Ts, r)
	bad := false
	if r.SN != t.r2tsn {
		c.fail("C08", "%s: R2TSN %d, expected %d", p, r.SN, t.r2tsn)
	}
	t.r2tsn = r.SN + 1
	if r.TTT == 0xffffffff {
		c.fail("C08", "%s: R2T with reserved target transfer tag", p)
	}
	if r.Len == 0 || r.Len > c.MaxBurst {
		c.fail("C08", "%s: R2T asks for %d bytes, MaxBurstLength %d", p, r.Len, c.MaxBurst)
		bad = r.Len == 0
	}
	if uint64(r.Off)+uint64(r.Len) > uint64(t.Cmd.EDTL) {
		c.fail("C08", "%s: R2T beyond the expected length %d", p, t.Cmd.EDTL)
		bad = true
	}
	if r.Off != t.sol {
		c.fail("C08", "%s: R2T offset %d, data up to %d already asked for or sent", p, r.Off, t.sol)
	}
	t.sol = r.Off + r.Len
	if !t.Cmd.Write {
		c.fail("C08", "%s: R2T for a command without data-out", p)
		bad = true
	}
	if t.Cmd.Hold {
		t.r2tCh <- r
		return
	}
	if !bad {
		t.answer(r, t.Cmd.Seg)
	}
}

// request sends a non-SCSI request and returns the channel its answer arrives on.
func (c *Conn) request(p *PDU, numbered bool) (chan *PDU, uint32) {
	c.mu.Lock()
	defer c.mu.Unlock()
	ch := make(chan *PDU, 1)
	if p.ITT() == 0 {
		p.Put32(16, c.nextITT())
	}
	p.Put32(24, c.cmdSN)
	if numbered {
		c.cmdSN++
		c.sentMax = c.cmdSN
	} else {
		p.H[0] |= 0x40
	}
	p.Put32(28, c.statSN)
	if c.closed != nil {
		close(ch)
		return ch, p.ITT()
	}
	c.other[p.ITT()] = ch
	c.send(p)
	return ch, p.ITT()
}

// RequestAt sends a request other than a SCSI command with the given CmdSN (taken by the caller).
func (c *Conn) RequestAt(p *PDU, sn uint32) chan *PDU {
	c.mu.Lock()
	defer c.mu.Unlock()
	ch := make(chan *PDU, 1)
	c.itt++
	p.Put32(16, c.itt)
	p.Put32(24, sn)
	p.Put32(28, c.statSN)
	if c.closed != nil {
		close(ch)
		return ch
	}
	c.other[c.itt] = ch
	c.send(p)
	return ch
}

// The PDUs of requests, without tag and numbers.
func NopPDU(data []byte) *PDU {
	p := &PDU{Data: data}
	p.H[0], p.H[1] = OpNop, 0x80
	p.Put32(20, 0xffffffff)
	return p
}
func TextPDU(kv []KV) *PDU {
	p := &PDU{Data: EncodeKV(kv)}
	p.H[0], p.H[1] = OpText, 0x80
	p.Put32(20, 0xffffffff)
	return p
}
func TMFPDU(fn byte, lun [8]byte, ref, refCmdSN uint32) *PDU {
	p := &PDU{}
	p.H[0], p.H[1] = OpTMF, 0x80|fn
	copy(p.H[8:16], lun[:])
	p.Put32(20, ref)
	p.Put32(32, refCmdSN)
	return p
}
func LogoutPDU(reason byte, cid uint16) *PDU {
	p := &PDU{}
	p.H[0], p.H[1] = OpLogout, 0x80|reason
	p.Put16(20, cid)
	return p
}

// Ask sends a request with the next number (or immediate) and waits for the answer.
func (c *Conn) Ask(p *PDU, immediate bool) (*PDU, error) {
	ch, _ := c.request(p, !immediate)
	return waitPDU(ch, Watchdog)
}

func waitPDU(ch chan *PDU, d time.Duration) (*PDU, error) {
	select {
	case p, ok := <-ch:
		if !ok {
			return nil, ErrClosed
		}
		return p, nil
	case <-time.After(d):
		return nil, ErrNoResponse
	}
}

// Nop pings; the echo is verified by the caller.
func (c *Conn) Nop(data []byte, immediate bool) (*PDU, error) {
	ch := c.NopAsync(data, immediate)
	return waitPDU(ch, Watchdog)
}
func (c *Conn) NopAsync(data []byte, immediate bool) chan *PDU {
	p := &PDU{Data: data}
	p.H[0] = OpNop
	p.H[1] = 0x80
	p.Put32(20, 0xffffffff)
	ch, _ := c.request(p, !immediate)
	return ch
}

func WaitPDU(ch chan *PDU) (*PDU, error) { return waitPDU(ch, Watchdog) }

// TMF sends a task management request.
func (c *Conn) TMF(fn byte, lun [8]byte, ref, refCmdSN uint32, immediate bool) (*PDU, error) {
	return waitPDU(c.TMFAsync(fn, lun, ref, refCmdSN, immediate), Watchdog)
}
func (c *Conn) TMFAsync(fn byte, lun [8]byte, ref, refCmdSN uint32, immediate bool) chan *PDU {
	p := &PDU{}
	p.H[0] = OpTMF
	p.H[1] = 0x80 | fn
	copy(p.H[8:16], lun[:])
	p.Put32(20, ref)
	p.Put32(32, refCmdSN)
	ch, _ := c.request(p, !immediate)
	return ch
}

// Text sends a text request.
func (c *Conn) Text(kv []KV, immediate bool) (*PDU, error) {
	p := &PDU{Data: EncodeKV(kv)}
	p.H[0] = OpText
	p.H[1] = 0x80
	p.Put32(20, 0xffffffff)
	ch, _ := c.request(p, !immediate)
	return waitPDU(ch, Watchdog)
}

// Logout sends a logout request for the session.
func (c *Conn) Logout() (*PDU, error) {
	p := &PDU{}
	p.H[0] = OpLogout
	p.H[1] = 0x80
	p.Put16(20, c.Opts.CID)
	ch, _ := c.request(p, true)
	return waitPDU(ch, Watchdog)
}

// LogoutImm is an immediate logout.
func (c *Conn) LogoutImm() (*PDU, error) {
	p := &PDU{}
	p.H[0] = OpLogout
	p.H[1] = 0x80
	p.Put16(20, c.Opts.CID)
	ch, _ := c.request(p, false)
	return waitPDU(ch, Watchdog)
}

// Outstanding returns the number of unanswered SCSI commands.
func (c *Conn) Outstanding() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.out) }

// Forget removes a task from the outstanding set (aborted by task management).
func (c *Conn) Forget(t *Task, why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.out[t.ITT] == t {
		delete(c.out, t.ITT)
		c.finished[t.ITT] = why
	}
}

// ImmSent is the amount of immediate data the command carried.
func (t *Task) ImmSent() uint32 { return t.imm }

// TextAll sends a text request and follows the continuation of its answer.
func (c *Conn) TextAll(kv []KV, immediate bool) ([]KV, []*PDU, error) {
	return c.TextAllIn(kv, immediate, 1)
}

// TextAllIn is TextAll with the request cut into pieces.
func (c *Conn) TextAllIn(kv []KV, immediate bool, pieces int) ([]KV, []*PDU, error) {
	var all []byte
	var ps []*PDU
	req := EncodeKV(kv)
	itt, ttt := uint32(0), uint32(0xffffffff)
	for {
		p := &PDU{}
		p.H[0], p.H[1] = OpText, 0x80
		p.Put32(16, itt)
		p.Put32(20, ttt)
		if pieces > 1 {
			n := len(req) / pieces
			p.Data, req = req[:n], req[n:]
			p.H[1] = 0x40
		} else {
			p.Data, req = req, nil
			if c.TextOpen > 0 { // complete text, but the exchange goes on
				c.TextOpen--
				p.H[1] = 0
			}
		}
		more := pieces > 1
		open := p.H[1]&0xc0 == 0
		pieces--
		ch, tag := c.request(p, !immediate)
		itt = tag
		a, err := waitPDU(ch, Watchdog)
		if err != nil {
			return nil, ps, err
		}
		ps = append(ps, a)
		if a.Op() != OpTextResp {
			return nil, ps, fmt.Errorf("text request answered by %s", a)
		}
		all = append(all, a.Data...)
		ttt = a.U32(20)
		if more {
			if a.H[1]&0xc0 != 0 || len(a.Data) > 0 || ttt == 0xffffffff {
				return nil, ps, fmt.Errorf("a text request to be continued answered by %s", a)
			}
			continue
		}
		if open {
			if a.H[1]&0x80 != 0 || ttt == 0xffffffff {
				return nil, ps, fmt.Errorf("a text request that is not final (F=0) answered by %s", a)
			}
			continue
		}
		if a.H[1]&0x80 != 0 && a.H[1]&0x40 == 0 {
			if ttt != 0xffffffff {
				c.mu.Lock()
				c.fail("C11", "%s: final text response with target transfer tag %x", a, ttt)
				c.mu.Unlock()
			}
			return DecodeKV(all), ps, nil
		}
		if a.H[1]&0x40 == 0 && len(all) > 0 && all[len(all)-1] != 0 {
			c.mu.Lock()
			c.fail("C11", "%s: the answer breaks off within a key=value pair, but C=0 says that it does not", a)
			c.mu.Unlock()
		}
		if ttt == 0xffffffff || len(ps) > 5000 {
			return nil, ps, fmt.Errorf("text response %s is not final but has no target transfer tag, or never ends", a)
		}
	}
}
