// Package ini is an iSCSI initiator with a protocol monitor, written from RFC 7143 and sharing no code with the target.
package ini

import (
	"encoding/binary"
	"fmt"
	"io"
	"strings"
)

const (
	OpNop     = 0x00
	OpCmd     = 0x01
	OpTMF     = 0x02
	OpLogin   = 0x03
	OpText    = 0x04
	OpDataOut = 0x05
	OpLogout  = 0x06
	OpSNACK   = 0x10

	OpNopIn      = 0x20
	OpResp       = 0x21
	OpTMFResp    = 0x22
	OpLoginResp  = 0x23
	OpTextResp   = 0x24
	OpDataIn     = 0x25
	OpLogoutResp = 0x26
	OpR2T        = 0x31
	OpAsync      = 0x32
	OpReject     = 0x3f
)

// PDU is a raw iSCSI PDU.
type PDU struct {
	H    [48]byte
	AHS  []byte
	Data []byte
}

func (p *PDU) Op() byte         { return p.H[0] & 0x3f }
func (p *PDU) U32(o int) uint32 { return binary.BigEndian.Uint32(p.H[o:]) }
func (p *PDU) U16(o int) uint16 { return binary.BigEndian.Uint16(p.H[o:]) }
func (p *PDU) ITT() uint32      { return p.U32(16) }
func (p *PDU) Put32(o int, v uint32) {
	binary.BigEndian.PutUint32(p.H[o:], v)
}
func (p *PDU) Put16(o int, v uint16) {
	binary.BigEndian.PutUint16(p.H[o:], v)
}

// Bytes serialises with consistent lengths.
func (p *PDU) Bytes() []byte {
	h := p.H
	ahs := p.AHS
	for len(ahs)%4 != 0 {
		ahs = append(append([]byte{}, ahs...), 0)
	}
	h[4] = byte(len(ahs) / 4)
	n := len(p.Data)
	h[5], h[6], h[7] = byte(n>>16), byte(n>>8), byte(n)
	b := make([]byte, 0, 48+len(ahs)+n+3)
	b = append(b, h[:]...)
	b = append(b, ahs...)
	b = append(b, p.Data...)
	for n%4 != 0 {
		b = append(b, 0)
		n++
	}
	return b
}

// ReadPDU reads one PDU; raw bytes as they came.
func ReadPDU(r io.Reader) (*PDU, error) {
	p := &PDU{}
	if _, err := io.ReadFull(r, p.H[:]); err != nil {
		return nil, err
	}
	if n := int(p.H[4]) * 4; n > 0 {
		p.AHS = make([]byte, n)
		if _, err := io.ReadFull(r, p.AHS); err != nil {
			return nil, err
		}
	}
	n := int(p.H[5])<<16 | int(p.H[6])<<8 | int(p.H[7])
	if n > 0 {
		b := make([]byte, (n+3)/4*4)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		p.Data = b[:n]
	}
	return p, nil
}

var opNames = map[byte]string{OpNop: "NOP-Out", OpCmd: "Cmd", OpTMF: "TMF", OpLogin: "Login", OpText: "Text", OpDataOut: "DataOut", OpLogout: "Logout", OpSNACK: "SNACK",
	OpNopIn: "NOP-In", OpResp: "Resp", OpTMFResp: "TMFResp", OpLoginResp: "LoginResp", OpTextResp: "TextResp", OpDataIn: "DataIn", OpLogoutResp: "LogoutResp", OpR2T: "R2T", OpAsync: "Async", OpReject: "Reject"}

func (p *PDU) String() string {
	n := opNames[p.Op()]
	if n == "" {
		n = fmt.Sprintf("op%02x", p.Op())
	}
	if p.H[0]&0x40 != 0 {
		n += "(I)"
	}
	s := fmt.Sprintf("%s fl=%02x %02x%02x dl=%d itt=%x", n, p.H[1], p.H[2], p.H[3], len(p.Data), p.ITT())
	switch p.Op() {
	case OpCmd:
		s += fmt.Sprintf(" lun=%x edtl=%d cmdsn=%d exps=%d cdb=%x", p.H[8:16], p.U32(20), p.U32(24), p.U32(28), p.H[32:48])
	case OpDataOut:
		s += fmt.Sprintf(" ttt=%x datasn=%d off=%d", p.U32(20), p.U32(36), p.U32(40))
	case OpDataIn:
		s += fmt.Sprintf(" st=%d exp=%d max=%d datasn=%d off=%d resid=%d", p.U32(24), p.U32(28), p.U32(32), p.U32(36), p.U32(40), p.U32(44))
	case OpResp:
		s += fmt.Sprintf(" st=%d exp=%d max=%d resid=%d", p.U32(24), p.U32(28), p.U32(32), p.U32(44))
	case OpR2T:
		s += fmt.Sprintf(" ttt=%x st=%d exp=%d max=%d r2tsn=%d off=%d len=%d", p.U32(20), p.U32(24), p.U32(28), p.U32(32), p.U32(36), p.U32(40), p.U32(44))
	case OpNop, OpTMF, OpLogin, OpText, OpLogout:
		s += fmt.Sprintf(" w20=%x cmdsn=%d exps=%d", p.U32(20), p.U32(24), p.U32(28))
	case OpNopIn, OpTMFResp, OpLoginResp, OpTextResp, OpLogoutResp, OpReject:
		s += fmt.Sprintf(" w20=%x st=%d exp=%d max=%d", p.U32(20), p.U32(24), p.U32(28), p.U32(32))
	}
	if (p.Op() == OpLogin || p.Op() == OpLoginResp || p.Op() == OpText || p.Op() == OpTextResp) && len(p.Data) > 0 {
		s += " {" + strings.ReplaceAll(string(p.Data), "\x00", "|") + "}"
	}
	return s
}

// KV is one text key.
type KV struct{ K, V string }

func EncodeKV(kv []KV) []byte {
	var b []byte
	for _, e := range kv {
		b = append(b, e.K...)
		b = append(b, '=')
		b = append(b, e.V...)
		b = append(b, 0)
	}
	return b
}

func DecodeKV(b []byte) []KV {
	var out []KV
	for _, s := range strings.Split(string(b), "\x00") {
		if s == "" {
			continue
		}
		k, v, ok := strings.Cut(s, "=")
		if !ok {
			out = append(out, KV{s, "\x01<no =>"})
			continue
		}
		out = append(out, KV{k, v})
	}
	return out
}

func Find(kv []KV, k string) (string, bool) {
	for _, e := range kv {
		if e.K == k {
			return e.V, true
		}
	}
	return "", false
}

// SerLT is serial number arithmetic a < b.
func SerLT(a, b uint32) bool { return int32(a-b) < 0 }

// LUNPeriph is the single level peripheral address; LUNFlat the flat one.
func LUNPeriph(n int) (l [8]byte) { l[1] = byte(n); l[0] = 0; return }
func LUNFlat(n int) (l [8]byte) {
	l[0] = 0x40 | byte(n>>8)
	l[1] = byte(n)
	return
}

// LUN encodes the number the way an initiator does: peripheral below 256, flat above.
func LUN(n int) [8]byte {
	if n < 256 {
		return LUNPeriph(n)
	}
	return LUNFlat(n)
}
