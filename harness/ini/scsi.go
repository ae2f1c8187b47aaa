package ini

import (
	"encoding/binary"
	"fmt"
)

// SenseInfo is decoded sense data.
type SenseInfo struct {
	Key byte
	ASC uint16
	Bad string // malformed
	Fmt byte
}

// Sense decodes fixed or descriptor sense, checking well-formedness.
func Sense(b []byte) SenseInfo {
	var s SenseInfo
	if len(b) < 1 {
		s.Bad = "empty"
		return s
	}
	s.Fmt = b[0] & 0x7f
	switch s.Fmt {
	case 0x70, 0x71:
		if len(b) < 14 {
			s.Bad = fmt.Sprintf("fixed sense of %d bytes", len(b))
			if len(b) > 2 {
				s.Key = b[2] & 0xf
			}
			return s
		}
		s.Key = b[2] & 0xf
		s.ASC = binary.BigEndian.Uint16(b[12:])
		if int(b[7])+8 != len(b) {
			s.Bad = fmt.Sprintf("additional length %d but %d bytes of sense", b[7], len(b))
		}
		if len(b) < 18 {
			s.Bad = fmt.Sprintf("fixed sense of %d bytes", len(b))
		}
	case 0x72, 0x73:
		if len(b) < 8 {
			s.Bad = fmt.Sprintf("descriptor sense of %d bytes", len(b))
			return s
		}
		s.Key = b[1] & 0xf
		s.ASC = binary.BigEndian.Uint16(b[2:])
		if int(b[7])+8 != len(b) {
			s.Bad = fmt.Sprintf("additional length %d but %d bytes of sense", b[7], len(b))
		}
	default:
		s.Bad = fmt.Sprintf("response code %02x", b[0])
	}
	return s
}

func (t *Task) SenseInfo() SenseInfo { return Sense(t.Sense) }

// Outcome renders status and sense.
func (t *Task) Outcome() string {
	if t.Err != nil {
		return "error: " + t.Err.Error()
	}
	if t.Status == 0 {
		return "GOOD"
	}
	s := t.SenseInfo()
	return fmt.Sprintf("status %02x key %x asc %04x %s", t.Status, s.Key, s.ASC, s.Bad)
}

// IsCheck tells whether the command ended with exactly this check condition.
func (t *Task) IsCheck(key byte, asc uint16) bool {
	s := t.SenseInfo()
	return t.Status == 2 && s.Key == key && s.ASC == asc
}

const (
	TUR        = 0x00
	REQSENSE   = 0x03
	FORMAT     = 0x04
	READ6      = 0x08
	WRITE6     = 0x0a
	INQUIRY    = 0x12
	MODESEL6   = 0x15
	RESERVE6   = 0x16
	RELEASE6   = 0x17
	MODESNS6   = 0x1a
	STARTSTOP  = 0x1b
	SENDDIAG   = 0x1d
	PREVENT    = 0x1e
	READCAP10  = 0x25
	READ10     = 0x28
	WRITE10    = 0x2a
	WRVER10    = 0x2e
	VERIFY10   = 0x2f
	PREFETCH   = 0x34
	SYNC10     = 0x35
	WRSAME10   = 0x41
	UNMAP      = 0x42
	MODESEL10  = 0x55
	MODESNS10  = 0x5a
	PRIN       = 0x5e
	PROUT      = 0x5f
	READ16     = 0x88
	WRITE16    = 0x8a
	ORWRITE    = 0x8b
	WRVER16    = 0x8e
	VERIFY16   = 0x8f
	PREFETCH16 = 0x90
	SYNC16     = 0x91
	WRSAME16   = 0x93
	SAI16      = 0x9e
	RPTLUNS    = 0xa0
	MAINTIN    = 0xa3
	READ12     = 0xa8
	WRITE12    = 0xaa
	WRVER12    = 0xae
	VERIFY12   = 0xaf
	CAW        = 0x89
)

// RW builds the CDB of any LBA/length command.
func RW(op byte, lba uint64, n uint32, fl byte) []byte {
	switch {
	case op == READ6 || op == WRITE6:
		return []byte{op, byte(lba>>16) & 0x1f, byte(lba >> 8), byte(lba), byte(n), 0}
	case op == CAW:
		c := make([]byte, 16)
		c[0], c[1] = op, fl
		binary.BigEndian.PutUint64(c[2:], lba)
		c[13] = byte(n)
		return c
	case op>>5 == 1 || op>>5 == 2:
		c := make([]byte, 10)
		c[0], c[1] = op, fl
		binary.BigEndian.PutUint32(c[2:], uint32(lba))
		binary.BigEndian.PutUint16(c[7:], uint16(n))
		return c
	case op>>5 == 4:
		c := make([]byte, 16)
		c[0], c[1] = op, fl
		binary.BigEndian.PutUint64(c[2:], lba)
		binary.BigEndian.PutUint32(c[10:], n)
		return c
	default:
		c := make([]byte, 12)
		c[0], c[1] = op, fl
		binary.BigEndian.PutUint32(c[2:], uint32(lba))
		binary.BigEndian.PutUint32(c[6:], n)
		return c
	}
}

// ReadCmd / WriteCmd build ordinary commands.
func ReadCmd(lun [8]byte, op byte, lba uint64, n uint32, bs int, fl byte) Cmd {
	return Cmd{LUN: lun, CDB: RW(op, lba, n, fl), Read: true, EDTL: n * uint32(bs), Xfer: int64(n) * int64(bs)}
}
func WriteCmd(lun [8]byte, op byte, lba uint64, n uint32, data []byte, fl byte) Cmd {
	return Cmd{LUN: lun, CDB: RW(op, lba, n, fl), Write: true, EDTL: uint32(len(data)), Out: data, Imm: -1, Xfer: int64(len(data))}
}

// InCmd is a command returning up to alloc bytes of parameter data.
func InCmd(lun [8]byte, cdb []byte, edtl uint32) Cmd {
	return Cmd{LUN: lun, CDB: cdb, Read: true, EDTL: edtl, Xfer: -1}
}
func NoData(lun [8]byte, cdb []byte) Cmd { return Cmd{LUN: lun, CDB: cdb, Xfer: 0} }

// OutCmd is a command with a parameter list.
func OutCmd(lun [8]byte, cdb []byte, data []byte) Cmd {
	return Cmd{LUN: lun, CDB: cdb, Write: true, EDTL: uint32(len(data)), Out: data, Imm: -1, Xfer: -1}
}
