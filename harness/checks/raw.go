package checks

import (
	"fmt"
	"net"
	"os"
	"time"

	"verif/ini"
)

// rawc is a connection whose PDUs are made and read one by one.
type rawc struct {
	nc    net.Conn
	o     ini.LoginOpts
	itt   uint32
	stat  uint32
	log   []string
	ended error
}

func dialRaw(o ini.LoginOpts) (*rawc, error) {
	nc, err := ini.Dial(o)
	if err != nil {
		return nil, err
	}
	if o.ISID == ([6]byte{}) {
		o.ISID = [6]byte{0x80, 9, 9, 9, 9, 9}
	}
	return &rawc{nc: nc, o: o, itt: 0x50}, nil
}

func (c *rawc) close() { c.nc.Close() }

func (c *rawc) send(p *ini.PDU) {
	c.log = append(c.log, "> "+short(p.String(), 300))
	if _, err := c.nc.Write(p.Bytes()); err != nil && c.ended == nil {
		c.ended = err
	}
}

// errQuiet: nothing came in the time given, the connection is still open.
var errQuiet = fmt.Errorf("nothing received")

// recv returns the next PDU, an error when the connection ended, errQuiet when nothing came.
func (c *rawc) recv(d time.Duration) (*ini.PDU, error) {
	c.nc.SetReadDeadline(time.Now().Add(d))
	p, err := ini.ReadPDU(c.nc)
	if err != nil {
		if os.IsTimeout(err) {
			return nil, errQuiet
		}
		c.log = append(c.log, "< end: "+err.Error())
		c.ended = err
		return nil, err
	}
	c.log = append(c.log, "< "+short(p.String(), 300))
	return p, nil
}

// lreq is one login request.
type lreq struct {
	csg, nsg byte
	t, c     bool
	kv       []ini.KV
	raw      []byte // instead of kv
	mod      func(p *ini.PDU)
}

// login sends a login request and reads the answer.
func (c *rawc) login(q lreq) (*ini.PDU, error) {
	p := ini.LoginPDU(&c.o, q.csg, q.nsg, q.t, c.itt, q.kv)
	if q.raw != nil {
		p.Data = q.raw
	}
	if !q.t {
		p.H[1] |= q.nsg
	}
	if q.c {
		p.H[1] |= 0x40
	}
	if q.mod != nil {
		q.mod(p)
	}
	c.send(p)
	r, err := c.recv(ini.Watchdog)
	if err == nil && r.Op() == ini.OpLoginResp {
		c.stat = r.U32(24) + 1
		c.o.ExpStatSN = c.stat
	}
	return r, err
}

// scsi builds a SCSI command PDU with the connection's next numbers.
func (c *rawc) scsi(lun [8]byte, cdb []byte, flags byte, edtl uint32, data []byte) *ini.PDU {
	p := &ini.PDU{Data: data}
	p.H[0] = ini.OpCmd
	p.H[1] = 0x80 | flags
	copy(p.H[8:16], lun[:])
	c.itt++
	p.Put32(16, c.itt)
	p.Put32(20, edtl)
	p.Put32(24, c.o.CmdSN)
	p.Put32(28, c.stat)
	copy(p.H[32:48], cdb)
	return p
}

// req builds another request PDU.
func (c *rawc) req(op, flags byte, lun [8]byte, w20 uint32, data []byte) *ini.PDU {
	p := &ini.PDU{Data: data}
	p.H[0] = op
	p.H[1] = 0x80 | flags
	copy(p.H[8:16], lun[:])
	c.itt++
	p.Put32(16, c.itt)
	p.Put32(20, w20)
	p.Put32(24, c.o.CmdSN)
	p.Put32(28, c.stat)
	return p
}

// served tells whether a PDU is an answer only a session in full feature phase may get.
func served(p *ini.PDU) bool {
	switch p.Op() {
	case ini.OpResp, ini.OpDataIn, ini.OpR2T, ini.OpTMFResp, ini.OpTextResp:
		return true
	}
	return false
}
