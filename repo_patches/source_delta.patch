From caa58fbf57f9a28ee387e55a6542bf0ff8cf64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 01/41] fix: ORWRITE(16) ORs the data into the medium and needs
 no data-in buffer

---
 pkg/scsi/backingstore.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 9890695..a7b0120 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -68,16 +68,18 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	asc = ASC_INTERNAL_TGT_FAILURE
 	switch opcode {
 	case api.ORWRITE_16:
-		tmpbuf := []byte{}
-		tmpbuf, err = bs.Read(int64(offset), tl)
+		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
-		copy(cmd.InSDBBuffer.Buffer, tmpbuf)
+		// the blocks to write are the blocks on the medium OR-ed with the data-out buffer
+		wbuf = append([]byte{}, rbuf...)
 		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
+			for i := 0; i < len(wbuf) && i < len(cmd.OutSDBBuffer.Buffer); i++ {
+				wbuf[i] |= cmd.OutSDBBuffer.Buffer[i]
+			}
 		}
 		doWrite = true
 		goto write
-- 
2.43.0


From f2916996e355a867ba95e176566fbbc18fbe872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 02/41] fix: byte counts of commands and unmap descriptors do
 not wrap at 4GiB

---
 pkg/api/types.go | 4 ++--
 pkg/scsi/sbc.go  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/api/types.go b/pkg/api/types.go
index 591f1f0..c3abe3a 100644
--- a/pkg/api/types.go
+++ b/pkg/api/types.go
@@ -178,7 +178,7 @@ type SCSICommand struct {
 	// Command ITN ID
 	ITNexusID     uuid.UUID
 	Offset        uint64
-	TL            uint32
+	TL            uint64
 	SCB           []byte
 	SCBLength     int
 	Lun           [8]uint8
@@ -409,7 +409,7 @@ type LUNMap map[uint64]*SCSILu
 
 type UnmapBlockDescriptor struct {
 	Offset uint64
-	TL     uint32
+	TL     uint64
 }
 
 type ReaderWriterAt interface {
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index ec3a4a8..d8383b2 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -318,7 +318,7 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
-			TL:     num << cmd.Device.BlockShift,
+			TL:     uint64(num) << cmd.Device.BlockShift,
 		})
 	}
 
@@ -440,7 +440,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	// Handle residuals
 	switch opcode {
@@ -604,7 +604,7 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
 		goto sense
@@ -728,7 +728,7 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	dev := cmd.Device
 
 	cmd.Offset = lba << dev.BlockShift
-	cmd.TL = tl << dev.BlockShift
+	cmd.TL = uint64(tl) << dev.BlockShift
 
 	err, key, asc := bsPerformCommand(dev.Storage, cmd)
 	if err != nil {
-- 
2.43.0


From 6c559d19558a8ee60c5d426beb2035247d52a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 03/41] fix: WRITE SAME writes the block instead of doing
 nothing

---
 pkg/scsi/backingstore.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index a7b0120..72aaa53 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -51,6 +51,26 @@ func NewBackingStore(name string) (api.BackingStore, error) {
 	return f()
 }
 
+// bsWriteSame fills tl bytes from offset with copies of block, in pieces of at most 1MiB
+func bsWriteSame(bs api.BackingStore, block []byte, offset, tl int64) error {
+	piece := int64(1 << 20)
+	if tl < piece {
+		piece = tl
+	}
+	wbuf := bytes.Repeat(block, int(piece)/len(block))
+	for tl > 0 {
+		if tl < int64(len(wbuf)) {
+			wbuf = wbuf[:tl]
+		}
+		if err := bs.Write(wbuf, offset); err != nil {
+			return err
+		}
+		offset += int64(len(wbuf))
+		tl -= int64(len(wbuf))
+	}
+	return nil
+}
+
 func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key byte, asc SCSISubError) {
 	var (
 		scb        = cmd.SCB
@@ -108,8 +128,20 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doWrite = true
 		goto write
 	case api.WRITE_SAME, api.WRITE_SAME_16:
-		// TODO
-		break
+		if cmd.OutSDBBuffer == nil || len(cmd.OutSDBBuffer.Buffer) < 1<<lu.BlockShift {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
+		if getSCSIReadWriteCount(scb) == 0 {
+			// every block from the LBA to the last one
+			tl = int64(lu.Size>>lu.BlockShift<<lu.BlockShift - offset)
+		}
+		if err = bsWriteSame(bs, cmd.OutSDBBuffer.Buffer[:1<<lu.BlockShift], int64(offset), tl); err != nil {
+			key = MEDIUM_ERROR
+			asc = ASC_WRITE_ERROR
+			goto sense
+		}
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
 		rbuf = make([]byte, int(tl))
 		rbuf, err = bs.Read(int64(offset), tl)
-- 
2.43.0


From bb2e75c2882cb1082acca62578d66d3b78fbaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 04/41] fix: VERIFY without byte check and SYNCHRONIZE CACHE
 refuse blocks outside the medium

---
 pkg/scsi/sbc.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index d8383b2..6e5c3b4 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -334,6 +334,12 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 	return api.SAMStatGood
 }
 
+// sbcInRange tells whether tl blocks from lba (with a tl of zero, the block at lba) are on the medium
+func sbcInRange(dev *api.SCSILu, lba uint64, tl uint32) bool {
+	blocks := dev.Size >> dev.BlockShift
+	return lba < blocks && uint64(tl) <= blocks-lba
+}
+
 /*
  * SBCReadWrite Implements SCSI READ(10/12/16), WRITE(10/12/16), WRITE AND VERIFY(10/12/16), WRITE SAME(10/12/16)
  * The READ command requests that the device server read the specified logical block(s) and transfer them to the data-in buffer.
@@ -579,30 +585,21 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
 	lba = getSCSIReadWriteOffset(scb)
 	tl = getSCSIReadWriteCount(scb)
 
 	// Verify that we are not doing i/o beyond the end-of-lun
-	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
-			key = ILLEGAL_REQUEST
-			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
-			goto sense
-		}
-	} else {
-		if lba >= dev.Size>>dev.BlockShift {
-			key = ILLEGAL_REQUEST
-			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense")
-			goto sense
-		}
+	if !sbcInRange(dev, lba, tl) {
+		key = ILLEGAL_REQUEST
+		asc = ASC_LBA_OUT_OF_RANGE
+		log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
+		goto sense
 	}
 
+	if scb[1]&0x02 == 0 {
+		// no data compare with the media
+		return api.SAMStatGood
+	}
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = uint64(tl) << dev.BlockShift
 	err, key, asc = bsPerformCommand(dev.Storage, cmd)
@@ -727,6 +724,11 @@ func SBCSyncCache(host int, cmd *api.SCSICommand) api.SAMStat {
 	tl := getSCSIReadWriteCount(scb)
 	dev := cmd.Device
 
+	if !sbcInRange(dev, lba, tl) {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+		return api.SAMStatCheckCondition
+	}
+
 	cmd.Offset = lba << dev.BlockShift
 	cmd.TL = uint64(tl) << dev.BlockShift
 
-- 
2.43.0


From 90b5289664dd4bf87e126fa500f9522627ee9566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 05/41] fix: a failed read or write ends with CHECK CONDITION,
 its sense data was sent with BUSY

---
 pkg/scsi/sbc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 6e5c3b4..3f6645a 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -475,7 +475,7 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 	if err != nil {
 		log.Errorf("Error from backend: %v", err)
 		BuildSenseData(cmd, key, asc)
-		return api.SAMStatBusy
+		return api.SAMStatCheckCondition
 	} else {
 		return api.SAMStatGood
 	}
-- 
2.43.0


From 6aa63246e9bc48a08907c1eb8cc13aa98d871b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 06/41] fix: a command moves exactly the bytes its CDB asks
 for, and is refused if the initiator provides for less

---
 pkg/scsi/backingstore.go | 54 ++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 72aaa53..1e519a6 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -71,6 +71,17 @@ func bsWriteSame(bs api.BackingStore, block []byte, offset, tl int64) error {
 	return nil
 }
 
+// bsDataOut returns the tl bytes the command takes from its data-out buffer, or nil if it did not get that many
+func bsDataOut(cmd *api.SCSICommand, tl int64) []byte {
+	if tl == 0 {
+		return []byte{}
+	}
+	if cmd.OutSDBBuffer == nil || int64(len(cmd.OutSDBBuffer.Buffer)) < tl {
+		return nil
+	}
+	return cmd.OutSDBBuffer.Buffer[:tl]
+}
+
 func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key byte, asc SCSISubError) {
 	var (
 		scb        = cmd.SCB
@@ -88,6 +99,11 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 	asc = ASC_INTERNAL_TGT_FAILURE
 	switch opcode {
 	case api.ORWRITE_16:
+		if wbuf = bsDataOut(cmd, tl); wbuf == nil {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
@@ -95,11 +111,9 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			goto sense
 		}
 		// the blocks to write are the blocks on the medium OR-ed with the data-out buffer
-		wbuf = append([]byte{}, rbuf...)
-		if cmd.OutSDBBuffer != nil {
-			for i := 0; i < len(wbuf) && i < len(cmd.OutSDBBuffer.Buffer); i++ {
-				wbuf[i] |= cmd.OutSDBBuffer.Buffer[i]
-			}
+		wbuf = append([]byte{}, wbuf...)
+		for i := range wbuf {
+			wbuf[i] |= rbuf[i]
 		}
 		doWrite = true
 		goto write
@@ -121,9 +135,10 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		doVerify = true
 		fallthrough
 	case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:
-		// For stupid client which does not set WRITE flag
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
+		if wbuf = bsDataOut(cmd, tl); wbuf == nil {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
 		}
 		doWrite = true
 		goto write
@@ -143,7 +158,11 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			goto sense
 		}
 	case api.READ_6, api.READ_10, api.READ_12, api.READ_16:
-		rbuf = make([]byte, int(tl))
+		if tl > 0 && (cmd.InSDBBuffer == nil || int64(cmd.InSDBBuffer.Length) < tl) {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
+		}
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil && err != io.EOF {
 			key = MEDIUM_ERROR
@@ -158,13 +177,10 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
 		}
-		cmd.InSDBBuffer.Resid = uint32(length)
-		if cmd.InSDBBuffer.Length < uint32(length) {
-			key = ILLEGAL_REQUEST
-			asc = ASC_INVALID_FIELD_IN_CDB
-			goto sense
+		if cmd.InSDBBuffer != nil {
+			cmd.InSDBBuffer.Resid = uint32(length)
+			copy(cmd.InSDBBuffer.Buffer, rbuf)
 		}
-		copy(cmd.InSDBBuffer.Buffer, rbuf)
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
 		if err != nil {
@@ -172,9 +188,10 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			asc = ASC_READ_ERROR
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
-		// For stupid client which does not set WRITE flag
-		if cmd.OutSDBBuffer != nil {
-			wbuf = cmd.OutSDBBuffer.Buffer
+		if wbuf = bsDataOut(cmd, tl); wbuf == nil {
+			key = ILLEGAL_REQUEST
+			asc = ASC_INVALID_FIELD_IN_CDB
+			goto sense
 		}
 		doVerify = true
 		goto verify
@@ -217,7 +234,6 @@ write:
 	}
 verify:
 	if doVerify {
-		rbuf = make([]byte, int(tl))
 		rbuf, err = bs.Read(int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
-- 
2.43.0


From ae788eef52043484e0b1ae51904e213dfba6f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 07/41] fix: a read the store fails or cuts short is a MEDIUM
 ERROR, not made-up data

---
 pkg/scsi/backingstore.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 1e519a6..be7c6ff 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -82,6 +82,21 @@ func bsDataOut(cmd *api.SCSICommand, tl int64) []byte {
 	return cmd.OutSDBBuffer.Buffer[:tl]
 }
 
+// bsRead reads exactly tl bytes, anything less is an error
+func bsRead(bs api.BackingStore, offset, tl int64) ([]byte, error) {
+	if tl == 0 {
+		return []byte{}, nil
+	}
+	buf, err := bs.Read(offset, tl)
+	if err == io.EOF && int64(len(buf)) == tl {
+		err = nil
+	}
+	if err == nil && int64(len(buf)) != tl {
+		err = fmt.Errorf("incomplete read: expected %d, actual %d", tl, len(buf))
+	}
+	return buf, err
+}
+
 func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key byte, asc SCSISubError) {
 	var (
 		scb        = cmd.SCB
@@ -104,7 +119,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
 		}
-		rbuf, err = bs.Read(int64(offset), tl)
+		rbuf, err = bsRead(bs, int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
@@ -127,10 +142,9 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		}
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
-			asc = ASC_READ_ERROR
-			break
+			asc = ASC_WRITE_ERROR
+			goto sense
 		}
-		break
 	case api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
 		doVerify = true
 		fallthrough
@@ -163,16 +177,13 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
 		}
-		rbuf, err = bs.Read(int64(offset), tl)
-		if err != nil && err != io.EOF {
+		rbuf, err = bsRead(bs, int64(offset), tl)
+		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-			break
+			goto sense
 		}
 		length = len(rbuf)
-		for i := 0; i < int(tl)-length; i++ {
-			rbuf = append(rbuf, 0)
-		}
 
 		if (opcode != api.READ_6) && (scb[1]&0x10 != 0) {
 			bs.DataAdvise(int64(offset), int64(length), util.POSIX_FADV_NOREUSE)
@@ -186,6 +197,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
+			goto sense
 		}
 	case api.VERIFY_10, api.VERIFY_12, api.VERIFY_16:
 		if wbuf = bsDataOut(cmd, tl); wbuf == nil {
@@ -234,7 +246,7 @@ write:
 	}
 verify:
 	if doVerify {
-		rbuf, err = bs.Read(int64(offset), tl)
+		rbuf, err = bsRead(bs, int64(offset), tl)
 		if err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_READ_ERROR
-- 
2.43.0


From 7c5cf16b4719d1b2ceb532080029519b6c35ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 08/41] fix: the null store reads as zeros

---
 pkg/scsi/backingstore/null.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scsi/backingstore/null.go b/pkg/scsi/backingstore/null.go
index ee7920e..ba895ea 100644
--- a/pkg/scsi/backingstore/null.go
+++ b/pkg/scsi/backingstore/null.go
@@ -60,7 +60,7 @@ func (bs *NullBackingStore) Size(dev *api.SCSILu) uint64 {
 }
 
 func (bs *NullBackingStore) Read(offset, tl int64) ([]byte, error) {
-	return nil, nil
+	return make([]byte, tl), nil
 }
 
 func (bs *NullBackingStore) Write(wbuf []byte, offset int64) error {
-- 
2.43.0


From bbe93344ecea647183de2a77cd0f21ee750c11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 09/41] fix: sense data is not cut to a length taken from the
 CDB, and that length is taken from the right bytes

---
 pkg/scsi/cmd.go  | 12 ++++++------
 pkg/scsi/scsi.go | 12 +++---------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/pkg/scsi/cmd.go b/pkg/scsi/cmd.go
index 4bb80c4..bab5c9d 100644
--- a/pkg/scsi/cmd.go
+++ b/pkg/scsi/cmd.go
@@ -250,20 +250,20 @@ func SCSICDBBufXLength(scb []byte) (int64, bool) {
 	group = SCSICDBGroupID(opcode)
 
 	switch group {
-	case CDB_GROUPID_0:
+	case 0:
 		length = int64(scb[4])
-	case CDB_GROUPID_2:
+	case 1, 2:
 		length = int64(util.GetUnalignedUint16(scb[7:9]))
-	case CDB_GROUPID_3:
+	case 3:
 		if opcode == 0x7F {
 			length = int64(scb[7])
 		} else {
 			ok = false
 		}
-	case CDB_GROUPID_4:
-		length = int64(util.GetUnalignedUint32(scb[6:10]))
-	case CDB_GROUPID_5:
+	case 4:
 		length = int64(util.GetUnalignedUint32(scb[10:14]))
+	case 5:
+		length = int64(util.GetUnalignedUint32(scb[6:10]))
 	default:
 		ok = false
 	}
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 18f196f..ea11e91 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -151,7 +151,6 @@ func NewSCSIDeviceOperation(fn api.CommandFunc, sa []*SCSIServiceAction, pr uint
 // BuildSenseData build sense data
 func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 	senseBuffer := &bytes.Buffer{}
-	inBufLen, ok := SCSICDBBufXLength(cmd.SCB)
 	var (
 		length      uint32 = 0xa
 		fixedFormat bool   = true
@@ -170,6 +169,9 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		senseBuffer.WriteByte(key)
 		senseBuffer.WriteByte(byte(asc>>8) & 0xff)
 		senseBuffer.WriteByte(byte(asc) & 0xff)
+		for i := 0; i < 4; i++ {
+			senseBuffer.WriteByte(0x00)
+		}
 		length = 8
 	} else {
 		// fixed format
@@ -191,14 +193,6 @@ func BuildSenseData(cmd *api.SCSICommand, key byte, asc SCSISubError) {
 		}
 		length += 8
 	}
-	if ok {
-		if int64(length) > inBufLen {
-			log.Warnf("sense buffer is bigger than in buffer")
-			senseBuffer.Truncate(int(inBufLen))
-		}
-	} else {
-		log.Debugf("cannot calc cbd alloc length. truncate failed")
-	}
 	cmd.Result = key
 	cmd.SenseBuffer = &api.SenseBuffer{senseBuffer.Bytes(), length}
 }
-- 
2.43.0


From 0161640cce68b466495542e8dd5723a0e22ee835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 10/41] fix: descriptive commands return all their data, cut to
 the allocation length and nothing else

---
 pkg/scsi/sbc.go |  50 ++++++-------
 pkg/scsi/spc.go | 183 ++++++++++++++++++++----------------------------
 2 files changed, 102 insertions(+), 131 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 3f6645a..7422e84 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -117,12 +117,17 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 	// Informational Exceptions Control page
 	pages = append(pages, api.ModePage{0x1c, 0, 10, []byte{8, 0, 0, 0, 0, 0, 0, 0, 0, 0}})
 	lu.ModePages = pages
+	lu.ModeBlockDescriptor = modeBlockDescriptor(lu)
+	return nil
+}
+
+// modeBlockDescriptor describes the capacity the LU has now
+func modeBlockDescriptor(lu *api.SCSILu) []byte {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
 	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
-	lu.ModeBlockDescriptor = append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
-	return nil
+	return append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
 }
 
 func (sbc SBCSCSIDeviceProtocol) ConfigLu(lu *api.SCSILu) error {
@@ -242,10 +247,12 @@ func SBCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		deviceSpecific |= 0x80
 	}
 
+	offset := 3
 	if cmd.SCB[0] == 0x1a {
-		cmd.InSDBBuffer.Buffer[2] = deviceSpecific
-	} else {
-		cmd.InSDBBuffer.Buffer[3] = deviceSpecific
+		offset = 2
+	}
+	if offset < int(cmd.InSDBBuffer.Resid) && offset < len(cmd.InSDBBuffer.Buffer) {
+		cmd.InSDBBuffer.Buffer[offset] = deviceSpecific
 	}
 
 	return api.SAMStatGood
@@ -519,6 +526,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
 		size   = cmd.Device.Size >> bshift
+		data   = make([]byte, 8)
 	)
 
 	if cmd.Device.Attrs.Removable && !cmd.Device.Attrs.Online {
@@ -532,21 +540,16 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if cmd.InSDBBuffer.Length < 8 {
-		goto overflow
-	}
-
 	// data[0] = (size >> 32) ? __cpu_to_be32(0xffffffff) : __cpu_to_be32(size - 1);
 	if size>>32 != 0 {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(0xffffffff)))
+		copy(data, util.MarshalUint32(uint32(0xffffffff)))
 	} else {
-		copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(size-1)))
+		copy(data, util.MarshalUint32(uint32(size-1)))
 	}
 
 	// data[1] = __cpu_to_be32(1U << bshift);
-	copy(cmd.InSDBBuffer.Buffer[4:], util.MarshalUint32(uint32(1<<bshift)))
-overflow:
-	cmd.InSDBBuffer.Resid = 8
+	copy(data[4:], util.MarshalUint32(uint32(1<<bshift)))
+	setDataIn(cmd, data, 8)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -625,20 +628,17 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 		bshift           = cmd.Device.BlockShift
 		size             = cmd.Device.Size >> bshift
 		allocationLength uint32
+		lbpme            int
+		data             = make([]byte, 32)
 	)
 	allocationLength = util.GetUnalignedUint32(cmd.SCB[10:14])
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint64(uint64(size-1)))
-	if allocationLength > 12 {
-		copy(cmd.InSDBBuffer.Buffer[8:], util.MarshalUint32(uint32(1<<bshift)))
-		if allocationLength > 16 {
-			var lbpme int
-			if cmd.Device.Attrs.ThinProvisioning {
-				lbpme = 1
-			}
-			val := (cmd.Device.Attrs.Lbppbe << 16) | (lbpme << 15) | cmd.Device.Attrs.LowestAlignedLBA
-			copy(cmd.InSDBBuffer.Buffer[12:], util.MarshalUint32(uint32(val)))
-		}
+	copy(data, util.MarshalUint64(uint64(size-1)))
+	copy(data[8:], util.MarshalUint32(uint32(1<<bshift)))
+	if cmd.Device.Attrs.ThinProvisioning {
+		lbpme = 1
 	}
+	copy(data[12:], util.MarshalUint32(uint32((cmd.Device.Attrs.Lbppbe<<16)|(lbpme<<15)|cmd.Device.Attrs.LowestAlignedLBA)))
+	setDataIn(cmd, data, allocationLength)
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 6ed3ee4..24b9cc0 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"sort"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -32,6 +33,19 @@ var (
 	EnableMultipath = true
 )
 
+// setDataIn answers a command with data, of which it transfers at most
+// allocationLength bytes (Resid says how many)
+func setDataIn(cmd *api.SCSICommand, data []byte, allocationLength uint32) {
+	if uint64(len(data)) > uint64(allocationLength) {
+		data = data[:allocationLength]
+	}
+	if cmd.InSDBBuffer == nil {
+		cmd.InSDBBuffer = &api.SCSIDataBuffer{}
+	}
+	copy(cmd.InSDBBuffer.Buffer, data)
+	cmd.InSDBBuffer.Resid = uint32(len(data))
+}
+
 func SPCIllegalOp(host int, cmd *api.SCSICommand) api.SAMStat {
 	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_OP_CODE)
 	return api.SAMStatCheckCondition
@@ -165,7 +179,9 @@ func InquiryPage0x83(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	binary.Write(descBuf, binary.BigEndian, portID)
 
 	//DESCRIPTOR 5 SCSI Name,Port
-	portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+	if targetPort != nil {
+		portName = util.StringToByte(targetPort.TargetPortName, 4, 256)
+	}
 	descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_UTF8)
 	descBuf.WriteByte(0x80 | (ASS_TGT_PORT << 4) | DESG_SCSI)
 	descBuf.WriteByte(0x00)
@@ -317,12 +333,6 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 			goto sense
 		}
 		data = buf.Bytes()
-		if int(allocationLength) < len(data) {
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-		} else {
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
 	} else {
 		if pcode != 0 {
 			goto sense
@@ -386,15 +396,9 @@ func SPCInquiry(host int, cmd *api.SCSICommand) api.SAMStat {
 
 		buf.Write(addBufData)
 		data = buf.Bytes()
-		if allocationLength < uint16(additionLength) {
-			cmd.InSDBBuffer.Resid = uint32(allocationLength)
-			copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-		} else {
-			cmd.InSDBBuffer.Resid = uint32(len(data))
-			copy(cmd.InSDBBuffer.Buffer, data[0:])
-		}
 	}
 
+	setDataIn(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 sense:
 	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
@@ -411,9 +415,10 @@ sense:
  */
 func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		remainLength     uint32
 		availLength      uint32 = 0
 		allocationLength uint32
+		devices          = cmd.Target.Devices
+		luns             []uint64
 		buf              *bytes.Buffer = &bytes.Buffer{}
 	)
 	// Get Allocation Length
@@ -423,43 +428,36 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	remainLength = allocationLength
-	if _, ok := cmd.Target.Devices[0]; !ok {
-		availLength = 8 * uint32(len(cmd.Target.Devices)+1)
-	} else {
-		availLength = 8 * uint32(len(cmd.Target.Devices))
+	//For LUN0
+	if _, ok := devices[0]; !ok {
+		luns = append(luns, 0)
+	}
+	for lun := range devices {
+		luns = append(luns, lun)
 	}
+	sort.Slice(luns, func(i, j int) bool { return luns[i] < luns[j] })
+	availLength = 8 * uint32(len(luns))
 
 	// LUN list length
 	buf.Write(util.MarshalUint32(availLength))
-	cmd.InSDBBuffer.Resid = allocationLength
 
 	// Skip through to byte 4, Reserved
 	for i := 0; i < 4; i++ {
 		buf.WriteByte(0x00)
 	}
 
-	//For LUN0
-	if _, ok := cmd.Target.Devices[0]; !ok {
-		buf.Write(util.MarshalUint64(0))
-		remainLength -= 8
-	}
-
-	for lun := range cmd.Target.Devices {
-		if remainLength > 0 {
-			if lun > 0xff {
-				lun = (0x01 << 30) | (0x3fff&lun)<<16
-			} else {
-				lun = (0x3fff & lun) << 16
-			}
-			lun = uint64(lun << 32)
-
-			buf.Write(util.MarshalUint64(lun))
-			remainLength -= 8
+	for _, lun := range luns {
+		if lun > 0xff {
+			lun = (0x01 << 30) | (0x3fff&lun)<<16
+		} else {
+			lun = (0x3fff & lun) << 16
 		}
+		lun = uint64(lun << 32)
+
+		buf.Write(util.MarshalUint64(lun))
 	}
 
-	copy(cmd.InSDBBuffer.Buffer, buf.Bytes())
+	setDataIn(cmd, buf.Bytes(), allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -543,6 +541,27 @@ func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
 	return api.SAMStatGood
 }
 
+// modePageData returns a mode page as MODE SENSE sends it
+func modePageData(pg *api.ModePage, pctrl byte) []byte {
+	var data []byte
+	if pg.SubPageCode == 0 {
+		data = append(data, pg.PageCode)
+		data = append(data, pg.Size)
+	} else {
+		data = append(data, pg.PageCode|0x40)
+		data = append(data, pg.SubPageCode)
+		data = append(data, 0)
+		data = append(data, pg.Size)
+	}
+	if pctrl == 1 {
+		// the changeable values are as long as the page, none is changeable by default
+		values := make([]byte, pg.Size)
+		copy(values, pg.Data[pg.Size:])
+		return append(data, values...)
+	}
+	return append(data, pg.Data[:pg.Size]...)
+}
+
 /*
  * SPCModeSense Implement SCSI MODE SENSE(6) and MODE SENSE(10) command
  * The MODE SENSE command requests the device server to return the specified medium,
@@ -565,7 +584,6 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc            = ASC_INVALID_FIELD_IN_CDB
 		data           []byte
 		allocLen       uint32
-		i              uint32
 	)
 
 	if dbd == 0 {
@@ -578,34 +596,23 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 	if mode6 {
 		allocLen = uint32(scb[4])
 		// set header
-		for i = 0; i < 4 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 4)
 	} else {
 		allocLen = uint32(util.GetUnalignedUint16(scb[7:9]))
 		// set header
-		for i = 0; i < 8 && i < allocLen; i++ {
-			data = append(data, 0x00)
-		}
+		data = make([]byte, 8)
 	}
 	if dbd == 0 {
-		data = append(data, cmd.Device.ModeBlockDescriptor...)
+		data = append(data, modeBlockDescriptor(cmd.Device)...)
 	}
 	if pcode == 0x3f {
-		for _, pg := range cmd.Device.ModePages {
-			if pg.SubPageCode == 0 {
-				data = append(data, pg.PageCode)
-				data = append(data, pg.Size)
-			} else {
-				data = append(data, pg.PageCode|0x40)
-				data = append(data, pg.SubPageCode)
-				data = append(data, (pg.Size>>8)&0xff)
-				data = append(data, pg.Size&0xff)
-			}
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
+		if subpcode != 0 && subpcode != 0xff {
+			goto sense
+		}
+		for i := range cmd.Device.ModePages {
+			pg := &cmd.Device.ModePages[i]
+			if pg.SubPageCode == 0 || subpcode == 0xff {
+				data = append(data, modePageData(pg, pctrl)...)
 			}
 		}
 	} else {
@@ -619,25 +626,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		if pg == nil {
 			goto sense
 		}
-		if pg.SubPageCode == 0 {
-			data = append(data, pg.PageCode)
-			data = append(data, pg.Size)
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
-		} else {
-			data = append(data, pg.PageCode|0x40)
-			data = append(data, pg.SubPageCode)
-			data = append(data, (pg.Size>>8)&0xff)
-			data = append(data, pg.Size&0xff)
-			if pctrl == 1 {
-				data = append(data, pg.Data[pg.Size:]...)
-			} else {
-				data = append(data, pg.Data[:pg.Size]...)
-			}
-		}
+		data = append(data, modePageData(pg, pctrl)...)
 	}
 	if mode6 {
 		data[0] = uint8(len(data) - 1)
@@ -648,10 +637,7 @@ func SPCModeSense(host int, cmd *api.SCSICommand) api.SAMStat {
 		data[6] = uint8(blkDesctionLen >> 8)
 		data[7] = uint8(blkDesctionLen)
 	}
-	if rlen := uint32(len(data)); rlen > allocLen {
-		cmd.InSDBBuffer.Resid = allocLen
-	}
-	copy(cmd.InSDBBuffer.Buffer, data)
+	setDataIn(cmd, data, allocLen)
 	return api.SAMStatGood
 sense:
 	BuildSenseData(cmd, key, asc)
@@ -687,7 +673,7 @@ func getSCSICmdSize(opcode api.SCSICommandType) byte {
 	return scsi_command_size[(byte(opcode)>>5)&7]
 }
 
-func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
+func reportOpcodesAll(cmd *api.SCSICommand, rctd int, allocationLength uint32) error {
 	var (
 		data = []byte{0x00, 0x00, 0x00, 0x00}
 	)
@@ -713,14 +699,14 @@ func reportOpcodesAll(cmd *api.SCSICommand, rctd int) error {
 		// timeout descriptor
 		if rctd != 0 {
 			// length == 0x0a
-			data[1] = 0x0a
-			for n := 0; n < 12; n++ {
+			data = append(data, 0x00, 0x0a)
+			for n := 0; n < 10; n++ {
 				data = append(data, 0x00)
 			}
 		}
 	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint32(uint32(len(data)-4)))
-	copy(cmd.InSDBBuffer.Buffer[4:], data[4:])
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	setDataIn(cmd, data, allocationLength)
 	return nil
 }
 
@@ -737,7 +723,7 @@ func SPCReportSupportedOperationCodes(host int, cmd *api.SCSICommand) api.SAMSta
 	switch reporting_options {
 	case 0x00: /* report all */
 		log.Debugf("Service Action: report all")
-		err := reportOpcodesAll(cmd, rctd)
+		err := reportOpcodesAll(cmd, rctd, util.GetUnalignedUint32(scb[6:10]))
 		if err != nil {
 			log.Error(err)
 			goto sense
@@ -1404,23 +1390,8 @@ sense:
  * 6.39 - REQUEST SENSE
  */
 func SPCRequestSense(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		allocationLength uint32
-		actualLength     uint32
-	)
-
-	allocationLength = util.GetUnalignedUint32(cmd.SCB[4:8])
-	if allocationLength > cmd.InSDBBuffer.Length {
-		allocationLength = cmd.InSDBBuffer.Length
-	}
 	BuildSenseData(cmd, NO_SENSE, NO_ADDITIONAL_SENSE)
-	if cmd.SenseBuffer.Length < allocationLength {
-		actualLength = cmd.SenseBuffer.Length
-	} else {
-		actualLength = allocationLength
-	}
-	copy(cmd.InSDBBuffer.Buffer, cmd.SenseBuffer.Buffer[:actualLength])
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	setDataIn(cmd, cmd.SenseBuffer.Buffer, uint32(cmd.SCB[4]))
 
 	// reset sense buffer in cmnd
 	cmd.SenseBuffer = &api.SenseBuffer{}
-- 
2.43.0


From 1fcc5ed1cf8425a9557704a53bcdcb7d98dbfec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 11/41] fix: GET LBA STATUS answers, unknown service actions
 are refused

---
 pkg/scsi/sbc.go | 54 +++++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 7422e84..810be9a 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -644,12 +644,13 @@ func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 
 func SBCGetLbaStatus(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		key = ILLEGAL_REQUEST
-		asc = ASC_INVALID_FIELD_IN_CDB
-		dev = cmd.Device
-		scb = cmd.SCB
-		lba uint64
-		tl  uint32
+		key    = ILLEGAL_REQUEST
+		asc    = ASC_INVALID_FIELD_IN_CDB
+		dev    = cmd.Device
+		scb    = cmd.SCB
+		lba    uint64
+		blocks uint64
+		data   = make([]byte, 24)
 	)
 	if dev.Attrs.Removable && !dev.Attrs.Online {
 		key = NOT_READY
@@ -657,35 +658,23 @@ func SBCGetLbaStatus(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	if scb[1]&0xe0 != 0 {
-		// We only support protection information type 0
+	lba = util.GetUnalignedUint64(scb[2:10])
+	if !sbcInRange(dev, lba, 0) {
 		key = ILLEGAL_REQUEST
-		asc = ASC_INVALID_FIELD_IN_CDB
+		asc = ASC_LBA_OUT_OF_RANGE
+		log.Warnf("sense: lba: %d, size: %d", lba, dev.Size>>dev.BlockShift)
 		goto sense
 	}
 
-	if scb[1]&0x02 == 0 {
-		// no data compare with the media
-		return api.SAMStatGood
-	}
-	lba = getSCSIReadWriteOffset(scb)
-	tl = getSCSIReadWriteCount(scb)
-	// Verify that we are not doing i/o beyond the end-of-lun
-	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
-			key = ILLEGAL_REQUEST
-			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
-			goto sense
-		}
-	} else {
-		if lba >= dev.Size>>dev.BlockShift {
-			key = ILLEGAL_REQUEST
-			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense")
-			goto sense
-		}
+	// one descriptor: as many blocks as it can tell of, mapped or unknown
+	blocks = dev.Size>>dev.BlockShift - lba
+	if blocks>>32 != 0 {
+		blocks = 0xffffffff
 	}
+	copy(data, util.MarshalUint32(uint32(len(data)-4)))
+	copy(data[8:], util.MarshalUint64(lba))
+	copy(data[16:], util.MarshalUint32(uint32(blocks)))
+	setDataIn(cmd, data, util.GetUnalignedUint32(scb[10:14]))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -698,14 +687,13 @@ sense:
 func SBCServiceAction(host int, cmd *api.SCSICommand) api.SAMStat {
 	opcode := api.SCSICommandType(cmd.SCB[1] & 0x1f)
 	switch opcode {
-	case api.READ_CAPACITY:
-		return SBCReadCapacity(host, cmd)
 	case api.SAI_READ_CAPACITY_16:
 		return SBCReadCapacity16(host, cmd)
 	case api.SAI_GET_LBA_STATUS:
 		return SBCGetLbaStatus(host, cmd)
 	}
-	return api.SAMStatGood
+	BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+	return api.SAMStatCheckCondition
 }
 
 /*
-- 
2.43.0


From 8c1f72d6423935111ec1b746a79d64d514765181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 12/41] fix: UNMAP checks its parameter list, and every
 descriptor against the medium

---
 pkg/scsi/sbc.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 810be9a..d42e222 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -319,10 +319,34 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	const blockDescLen = 16
 
+	// PARAMETER LIST LENGTH
+	paramLen := int(util.GetUnalignedUint16(cmd.SCB[7:9]))
+	if paramLen == 0 {
+		return api.SAMStatGood
+	}
+	if paramLen < 8 {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_PARAMETER_LIST_LENGTH_ERR)
+		return api.SAMStatCheckCondition
+	}
+	param := bsDataOut(cmd, int64(paramLen))
+	if param == nil {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+		return api.SAMStatCheckCondition
+	}
+	// UNMAP BLOCK DESCRIPTOR DATA LENGTH
+	if descLen := int(util.GetUnalignedUint16(param[2:4])); descLen+8 < len(param) {
+		param = param[:descLen+8]
+	}
+
 	var blockDescs []api.UnmapBlockDescriptor
-	for off := 8; uint32(off+blockDescLen) <= cmd.OutSDBBuffer.Length; off += blockDescLen {
-		lba := binary.BigEndian.Uint64(cmd.OutSDBBuffer.Buffer[off : off+8])
-		num := binary.BigEndian.Uint32(cmd.OutSDBBuffer.Buffer[off+8 : off+12])
+	for off := 8; off+blockDescLen <= len(param); off += blockDescLen {
+		lba := binary.BigEndian.Uint64(param[off : off+8])
+		num := binary.BigEndian.Uint32(param[off+8 : off+12])
+		// nothing is unmapped unless every descriptor is on the medium
+		if blocks := cmd.Device.Size >> cmd.Device.BlockShift; lba > blocks || uint64(num) > blocks-lba {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
+			return api.SAMStatCheckCondition
+		}
 		blockDescs = append(blockDescs, api.UnmapBlockDescriptor{
 			Offset: lba << cmd.Device.BlockShift,
 			TL:     uint64(num) << cmd.Device.BlockShift,
-- 
2.43.0


From 14984ff4200c39e55c9e607748cbc363d268d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 13/41] fix: a LUN without a device is refused as not
 supported, and mapping a LUN to no device is an error

---
 pkg/scsi/scsi.go      |  6 ++++--
 pkg/scsi/scsilumap.go | 22 ++++++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index ea11e91..74a277e 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -104,8 +104,10 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 
 	if scmd.Device == nil {
 		scmd.Device = target.LUN0
-		if lun != 0 {
-			BuildSenseData(scmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+		op := api.SCSICommandType(scmd.SCB[0])
+		// the stand-in for LUN 0 only tells that it is one
+		if lun != 0 || (op != api.INQUIRY && op != api.REPORT_LUNS && op != api.REQUEST_SENSE) {
+			BuildSenseData(scmd, ILLEGAL_REQUEST, ASC_LUN_NOT_SUPPORTED)
 			scmd.Result = api.SAMStatCheckCondition.Stat
 			log.Warnf("%v", api.SAMStatCheckCondition.Err)
 			return nil
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index a6fb823..24bad05 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -50,14 +50,18 @@ type LUNMapping struct {
 	DeviceID   uint64
 }
 
-func mappingLUN(lm LUNMapping) {
+func mappingLUN(lm LUNMapping) error {
 	device := globalSCSILUMap.AllDevices[lm.DeviceID]
+	if device == nil {
+		return fmt.Errorf("device %d does not exist", lm.DeviceID)
+	}
 	lunMap := globalSCSILUMap.TargetsLUNMap[lm.TargetName]
 	if lunMap == nil {
 		globalSCSILUMap.TargetsLUNMap[lm.TargetName] = make(api.LUNMap)
 		lunMap = globalSCSILUMap.TargetsLUNMap[lm.TargetName]
 	}
 	lunMap[lm.LUN] = device
+	return nil
 }
 
 func GetLU(tgtName string, LUN uint64) *api.SCSILu {
@@ -95,7 +99,7 @@ func AddBackendStorage(bs config.BackendStorage) error {
 	defer globalSCSILUMap.mutex.Unlock()
 	_, ok := globalSCSILUMap.AllDevices[bs.DeviceID]
 	if ok {
-		return fmt.Errorf("device %q already exists", bs.DeviceID)
+		return fmt.Errorf("device %d already exists", bs.DeviceID)
 	}
 
 	lu, err := NewSCSILu(&bs)
@@ -115,7 +119,9 @@ func DelBackendStorage(deviceID uint64) {
 func AddLUNMapping(m LUNMapping) error {
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
-	mappingLUN(m)
+	if err := mappingLUN(m); err != nil {
+		return err
+	}
 	// Init SCSISimpleReservationOperator
 	op := GetSCSIReservationOperator()
 	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
@@ -144,7 +150,9 @@ func InitSCSILUMap(config *config.Config) error {
 				return fmt.Errorf("LU Number must be a number")
 			}
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
-			AddLUNMapping(m)
+			if err := AddLUNMapping(m); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -168,11 +176,9 @@ func InitSCSILUMapEx(config *config.BackendStorage, tgtName string, lun uint64,
 	globalSCSILUMap.AllDevices[config.DeviceID] = lu
 	globalSCSILUMap.mutex.Unlock()
 
-	mappingLUN(LUNMapping{
+	return AddLUNMapping(LUNMapping{
 		DeviceID:   config.DeviceID,
 		LUN:        lun,
 		TargetName: tgtName,
-	},
-	)
-	return nil
+	})
 }
-- 
2.43.0


From 2a6b97981dc37591f4700247c7010d7be4baca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 14/41] fix: LUN maps, sizes and nexus lists are not read while
 they are changed

---
 pkg/scsi/backingstore.go |  4 ++--
 pkg/scsi/lun.go          |  6 ++++++
 pkg/scsi/sbc.go          | 24 ++++++++++++------------
 pkg/scsi/scsi.go         | 30 ++++++++++++++++++++++--------
 pkg/scsi/scsilumap.go    |  7 +++++++
 pkg/scsi/spc.go          |  7 ++++---
 pkg/scsi/target.go       |  9 +++++++--
 7 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index be7c6ff..03aa3e4 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -138,7 +138,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		goto write
 	case api.SYNCHRONIZE_CACHE, api.SYNCHRONIZE_CACHE_16:
 		if tl == 0 {
-			tl = int64(lu.Size - offset)
+			tl = int64(luSize(lu) - offset)
 		}
 		if err = bs.DataSync(int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
@@ -164,7 +164,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		}
 		if getSCSIReadWriteCount(scb) == 0 {
 			// every block from the LBA to the last one
-			tl = int64(lu.Size>>lu.BlockShift<<lu.BlockShift - offset)
+			tl = int64(luSize(lu)>>lu.BlockShift<<lu.BlockShift - offset)
 		}
 		if err = bsWriteSame(bs, cmd.OutSDBBuffer.Buffer[:1<<lu.BlockShift], int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 244b24a..da218ba 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -18,6 +18,7 @@ package scsi
 import (
 	"errors"
 	"strings"
+	"sync/atomic"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/config"
@@ -96,6 +97,11 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 	return api.SAMStatGood
 }
 
+// luSize returns the size in bytes, which Resize changes while commands are processed
+func luSize(lu *api.SCSILu) uint64 {
+	return atomic.LoadUint64(&lu.Size)
+}
+
 func luPreventRemoval(lu *api.SCSILu) bool {
 	// TODO
 	return false
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index d42e222..d51ac3b 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -124,7 +124,7 @@ func (sbc SBCSCSIDeviceProtocol) InitLu(lu *api.SCSILu) error {
 // modeBlockDescriptor describes the capacity the LU has now
 func modeBlockDescriptor(lu *api.SCSILu) []byte {
 	mbd := util.MarshalUint32(uint32(0xffffffff))
-	if size := lu.Size >> lu.BlockShift; size>>32 == 0 {
+	if size := luSize(lu) >> lu.BlockShift; size>>32 == 0 {
 		mbd = util.MarshalUint32(uint32(size))
 	}
 	return append(mbd, util.MarshalUint32(uint32(1<<lu.BlockShift))...)
@@ -343,7 +343,7 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 		lba := binary.BigEndian.Uint64(param[off : off+8])
 		num := binary.BigEndian.Uint32(param[off+8 : off+12])
 		// nothing is unmapped unless every descriptor is on the medium
-		if blocks := cmd.Device.Size >> cmd.Device.BlockShift; lba > blocks || uint64(num) > blocks-lba {
+		if blocks := luSize(cmd.Device) >> cmd.Device.BlockShift; lba > blocks || uint64(num) > blocks-lba {
 			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_LBA_OUT_OF_RANGE)
 			return api.SAMStatCheckCondition
 		}
@@ -367,7 +367,7 @@ func SBCUnmap(host int, cmd *api.SCSICommand) api.SAMStat {
 
 // sbcInRange tells whether tl blocks from lba (with a tl of zero, the block at lba) are on the medium
 func sbcInRange(dev *api.SCSILu, lba uint64, tl uint32) bool {
-	blocks := dev.Size >> dev.BlockShift
+	blocks := luSize(dev) >> dev.BlockShift
 	return lba < blocks && uint64(tl) <= blocks-lba
 }
 
@@ -461,17 +461,17 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 
 	// Verify that we are not doing i/o beyond the end-of-lun
 	if tl != 0 {
-		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
+		if lba+uint64(tl) < lba || lba+uint64(tl) > luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
+			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, tl: %d, size: %d", lba, tl, luSize(dev)>>dev.BlockShift)
 			goto sense
 		}
 	} else {
-		if lba >= dev.Size>>dev.BlockShift {
+		if lba >= luSize(dev)>>dev.BlockShift {
 			key = ILLEGAL_REQUEST
 			asc = ASC_LBA_OUT_OF_RANGE
-			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, size: %d", lba, dev.Size>>dev.BlockShift)
+			log.Warnf("sense data(ILLEGAL_REQUEST,ASC_LBA_OUT_OF_RANGE) encounter: lba: %d, size: %d", lba, luSize(dev)>>dev.BlockShift)
 			goto sense
 		}
 	}
@@ -549,7 +549,7 @@ func SBCReadCapacity(host int, cmd *api.SCSICommand) api.SAMStat {
 		key    = ILLEGAL_REQUEST
 		asc    = ASC_LUN_NOT_SUPPORTED
 		bshift = cmd.Device.BlockShift
-		size   = cmd.Device.Size >> bshift
+		size   = luSize(cmd.Device) >> bshift
 		data   = make([]byte, 8)
 	)
 
@@ -619,7 +619,7 @@ func SBCVerify(host int, cmd *api.SCSICommand) api.SAMStat {
 	if !sbcInRange(dev, lba, tl) {
 		key = ILLEGAL_REQUEST
 		asc = ASC_LBA_OUT_OF_RANGE
-		log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, dev.Size>>dev.BlockShift)
+		log.Warnf("sense: lba: %d, tl: %d, size: %d", lba, tl, luSize(dev)>>dev.BlockShift)
 		goto sense
 	}
 
@@ -650,7 +650,7 @@ sense:
 func SBCReadCapacity16(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		bshift           = cmd.Device.BlockShift
-		size             = cmd.Device.Size >> bshift
+		size             = luSize(cmd.Device) >> bshift
 		allocationLength uint32
 		lbpme            int
 		data             = make([]byte, 32)
@@ -686,12 +686,12 @@ func SBCGetLbaStatus(host int, cmd *api.SCSICommand) api.SAMStat {
 	if !sbcInRange(dev, lba, 0) {
 		key = ILLEGAL_REQUEST
 		asc = ASC_LBA_OUT_OF_RANGE
-		log.Warnf("sense: lba: %d, size: %d", lba, dev.Size>>dev.BlockShift)
+		log.Warnf("sense: lba: %d, size: %d", lba, luSize(dev)>>dev.BlockShift)
 		goto sense
 	}
 
 	// one descriptor: as many blocks as it can tell of, mapped or unknown
-	blocks = dev.Size>>dev.BlockShift - lba
+	blocks = luSize(dev)>>dev.BlockShift - lba
 	if blocks>>32 != 0 {
 		blocks = 0xffffffff
 	}
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 74a277e..24291c9 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -21,6 +21,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
@@ -47,12 +48,21 @@ func NewSCSITargetService() *SCSITargetService {
 
 // GetTargetList get SCSI target list
 func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
-	result := []api.SCSITarget{}
 	s.mutex.RLock()
-	for _, t := range s.Targets {
-		result = append(result, *t)
+	defer s.mutex.RUnlock()
+	result := make([]api.SCSITarget, len(s.Targets))
+	for i, t := range s.Targets {
+		r := &result[i]
+		r.Name, r.TID, r.LID, r.State = t.Name, t.TID, t.LID, t.State
+		r.Devices, r.LUN0 = t.Devices, t.LUN0
+		r.TargetPortGroups, r.SCSITargetDriver = t.TargetPortGroups, t.SCSITargetDriver
+		r.ITNexus = make(map[uuid.UUID]*api.ITNexus)
+		t.ITNexusMutex.Lock()
+		for id, itn := range t.ITNexus {
+			r.ITNexus[id] = itn
+		}
+		t.ITNexusMutex.Unlock()
 	}
-	s.mutex.RUnlock()
 	return result, nil
 }
 
@@ -61,11 +71,11 @@ func (s *SCSITargetService) Resize(size uint64) error {
 	s.mutex.Lock()
 	//TODO for multiple LUNs
 	for _, t := range s.Targets {
-		if t.Devices != nil {
-			for i := range t.Devices {
-				t.Devices[i].Size = size
-			}
+		lunMutex.RLock()
+		for i := range t.Devices {
+			atomic.StoreUint64(&t.Devices[i].Size, size)
 		}
+		lunMutex.RUnlock()
 	}
 	s.mutex.Unlock()
 	return nil
@@ -90,15 +100,19 @@ func (s *SCSITargetService) AddCommandQueue(tid int, scmd *api.SCSICommand) erro
 		return fmt.Errorf("Cannot find the target with ID(%d)", tid)
 	}
 	scmd.Target = target
+	target.ITNexusMutex.Lock()
 	for _, it := range target.ITNexus {
 		if uuid.Equal(it.ID, scmd.ITNexusID) {
 			itn = it
 			break
 		}
 	}
+	target.ITNexusMutex.Unlock()
 	scmd.ITNexus = itn
 	lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))
+	lunMutex.RLock()
 	scmd.Device = target.Devices[lun]
+	lunMutex.RUnlock()
 
 	log.Debugf("scsi opcode: 0x%x, LUN: %d", int(scmd.SCB[0]), binary.LittleEndian.Uint64(scmd.Lun[:]))
 
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 24bad05..6935be9 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -44,6 +44,9 @@ var globalSCSILUMap = SCSILUMap{
 	TargetsBSMap:  make(map[string]api.RemoteBackingStore),
 }
 
+// lunMutex guards the LUN maps of the targets, which commands are looked up in
+var lunMutex sync.RWMutex
+
 type LUNMapping struct {
 	TargetName string
 	LUN        uint64
@@ -51,6 +54,8 @@ type LUNMapping struct {
 }
 
 func mappingLUN(lm LUNMapping) error {
+	lunMutex.Lock()
+	defer lunMutex.Unlock()
 	device := globalSCSILUMap.AllDevices[lm.DeviceID]
 	if device == nil {
 		return fmt.Errorf("device %d does not exist", lm.DeviceID)
@@ -133,6 +138,8 @@ func AddLUNMapping(m LUNMapping) error {
 func DelLUNMapping(m LUNMapping) {
 	globalSCSILUMap.mutex.Lock()
 	defer globalSCSILUMap.mutex.Unlock()
+	lunMutex.Lock()
+	defer lunMutex.Unlock()
 	delete(globalSCSILUMap.TargetsLUNMap[m.TargetName], m.LUN)
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 24b9cc0..157eb37 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -417,7 +417,6 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		availLength      uint32 = 0
 		allocationLength uint32
-		devices          = cmd.Target.Devices
 		luns             []uint64
 		buf              *bytes.Buffer = &bytes.Buffer{}
 	)
@@ -429,12 +428,14 @@ func SPCReportLuns(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	//For LUN0
-	if _, ok := devices[0]; !ok {
+	lunMutex.RLock()
+	if _, ok := cmd.Target.Devices[0]; !ok {
 		luns = append(luns, 0)
 	}
-	for lun := range devices {
+	for lun := range cmd.Target.Devices {
 		luns = append(luns, lun)
 	}
+	lunMutex.RUnlock()
 	sort.Slice(luns, func(i, j int) bool { return luns[i] < luns[j] })
 	availLength = 8 * uint32(len(luns))
 
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 3f12696..7fb5398 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -38,10 +38,12 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 		ITNexus:          make(map[uuid.UUID]*api.ITNexus),
 	}
 	tpg := &api.TargetPortGroup{0, []*api.SCSITargetPort{}}
-	s.Targets = append(s.Targets, target)
 	target.Devices = GetTargetLUNMap(target.Name)
 	target.LUN0 = NewLUN0()
 	target.TargetPortGroups = append(target.TargetPortGroups, tpg)
+	s.mutex.Lock()
+	s.Targets = append(s.Targets, target)
+	s.mutex.Unlock()
 	return target, nil
 }
 
@@ -50,7 +52,10 @@ func (s *SCSITargetService) RereadTargetLUNMap() {
 	defer s.mutex.Unlock()
 
 	for _, tgt := range s.Targets {
-		tgt.Devices = GetTargetLUNMap(tgt.Name)
+		devices := GetTargetLUNMap(tgt.Name)
+		lunMutex.Lock()
+		tgt.Devices = devices
+		lunMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From 98f37114bcab1353d80fb27bd275a3d85308db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 15/41] fix: RESERVE keeps other initiators out until RELEASE
 or the end of the session

---
 pkg/scsi/lun.go    |  3 +++
 pkg/scsi/sbc.go    | 29 ++++++++++------------------
 pkg/scsi/spc.go    | 10 +++-------
 pkg/scsi/target.go | 48 ++++++++++++++++++++++++++++------------------
 4 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index da218ba..653159a 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -92,6 +92,9 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		// TODO host := cmd.ITNexus.Host
 		host := 0
 		cmd.State = api.SCSICommandProcessed
+		if fnop.PRConflictBits != 0 && deviceReserved(cmd.Device, cmd.ITNexusID) {
+			return api.SAMStatReservationConflict
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	return api.SAMStatGood
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index d51ac3b..c681b3d 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -20,7 +20,6 @@ package scsi
 import (
 	"encoding/binary"
 	"fmt"
-	"unsafe"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
@@ -158,7 +157,7 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}
 	sbc.SCSIDeviceOps[api.TEST_UNIT_READY] = NewSCSIDeviceOperation(SPCTestUnit, nil, 0)
 	sbc.SCSIDeviceOps[api.REQUEST_SENSE] = NewSCSIDeviceOperation(SPCRequestSense, nil, 0)
-	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, 0)
+	sbc.SCSIDeviceOps[api.FORMAT_UNIT] = NewSCSIDeviceOperation(SBCFormatUnit, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.READ_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_6] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.INQUIRY] = NewSCSIDeviceOperation(SPCInquiry, nil, 0)
@@ -174,14 +173,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	sbc.SCSIDeviceOps[api.READ_CAPACITY] = NewSCSIDeviceOperation(SBCReadCapacity, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_10] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_10] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
-	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
-	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.UNMAP] = NewSCSIDeviceOperation(SBCUnmap, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.MODE_SELECT_10] = NewSCSIDeviceOperation(SBCModeSelect, nil, PR_WE_FA|PR_EA_FA|PR_EA_FN|PR_WE_FN)
 	sbc.SCSIDeviceOps[api.MODE_SENSE_10] = NewSCSIDeviceOperation(SBCModeSense, nil, PR_WE_FA|PR_WE_FN|PR_EA_FA|PR_EA_FN)
@@ -207,14 +206,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	sbc.SCSIDeviceOps[api.READ_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.WRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
 	if EnableORWrite16 {
-		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+		sbc.SCSIDeviceOps[api.ORWRITE_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	}
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_16] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	sbc.SCSIDeviceOps[api.PRE_FETCH_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SYNCHRONIZE_CACHE_16] = NewSCSIDeviceOperation(SBCSyncCache, nil, PR_EA_FA|PR_EA_FN|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, 0)
+	sbc.SCSIDeviceOps[api.WRITE_SAME_16] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.SERVICE_ACTION_IN] = NewSCSIDeviceOperation(SBCServiceAction, nil, 0)
 
 	sbc.SCSIDeviceOps[api.REPORT_LUNS] = NewSCSIDeviceOperation(SPCReportLuns, nil, 0)
@@ -223,8 +222,8 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 	}, 0)
 	sbc.SCSIDeviceOps[api.EXCHANGE_MEDIUM] = NewSCSIDeviceOperation(SPCIllegalOp, nil, 0)
 	sbc.SCSIDeviceOps[api.READ_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
-	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FA|PR_WE_FN)
-	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_EA_FA|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
+	sbc.SCSIDeviceOps[api.WRITE_VERIFY_12] = NewSCSIDeviceOperation(SBCReadWrite, nil, PR_WE_FA|PR_EA_FA|PR_WE_FN|PR_EA_FN)
 	sbc.SCSIDeviceOps[api.VERIFY_12] = NewSCSIDeviceOperation(SBCVerify, nil, PR_EA_FA|PR_EA_FN)
 
 	return sbc
@@ -275,10 +274,6 @@ func SBCFormatUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 		asc = ASC_INVALID_FIELD_IN_CDB
 	)
 
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
 	if !cmd.Device.Attrs.Online {
 		key = NOT_READY
 		asc = ASC_MEDIUM_NOT_PRESENT
@@ -524,11 +519,7 @@ func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SBCRelease(host int, cmd *api.SCSICommand) api.SAMStat {
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
-	if err := deviceRelease(cmd.Target.TID, cmd.ITNexusID, lun, false); err != nil {
-		return api.SAMStatReservationConflict
-	}
-
+	deviceRelease(cmd.Device, cmd.ITNexusID)
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 157eb37..61bdd74 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -472,9 +472,6 @@ func SPCStartStop(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
 		pwrcnd, loej, start byte
 	)
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
 
 	if cmd.InSDBBuffer != nil {
 		cmd.InSDBBuffer.Resid = 0
@@ -534,11 +531,10 @@ func SPCTestUnit(host int, cmd *api.SCSICommand) api.SAMStat {
 }
 
 func SPCPreventAllowMediaRemoval(host int, cmd *api.SCSICommand) api.SAMStat {
-	if err := deviceReserve(cmd); err != nil {
-		return api.SAMStatReservationConflict
-	}
 	// PREVENT_MASK = 0x03
-	cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	if cmd.ITNexusLuInfo != nil {
+		cmd.ITNexusLuInfo.Prevent = int(cmd.SCB[4] & 0x03)
+	}
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 7fb5398..758e8ca 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -18,7 +18,7 @@ package scsi
 
 import (
 	"fmt"
-	"unsafe"
+	"sync"
 
 	"github.com/gostor/gotgt/pkg/api"
 	uuid "github.com/satori/go.uuid"
@@ -98,24 +98,23 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	target.ITNexusMutex.Lock()
 	defer target.ITNexusMutex.Unlock()
 	delete(target.ITNexus, itnexus.ID)
-}
-
-func deviceReserve(cmd *api.SCSICommand) error {
-	var lu *api.SCSILu
-	lun := *(*uint64)(unsafe.Pointer(&cmd.Lun))
 
-	for tgtLUN, lunDev := range cmd.Target.Devices {
-		if tgtLUN == lun {
-			lu = lunDev
-			break
-		}
-	}
-	if lu == nil {
-		log.Errorf("invalid target and lun %d %d", cmd.Target.TID, lun)
-		return nil
+	// the reservations of the nexus end with it
+	lunMutex.RLock()
+	defer lunMutex.RUnlock()
+	for _, lu := range target.Devices {
+		deviceRelease(lu, itnexus.ID)
 	}
+}
 
-	if !uuid.Equal(lu.ReserveID, uuid.Nil) && uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
+// reserveMutex guards SCSILu.ReserveID
+var reserveMutex sync.Mutex
+
+func deviceReserve(cmd *api.SCSICommand) error {
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
+	lu := cmd.Device
+	if !uuid.Equal(lu.ReserveID, uuid.Nil) && !uuid.Equal(lu.ReserveID, cmd.ITNexusID) {
 		log.Errorf("already reserved %d, %d", lu.ReserveID, cmd.ITNexusID)
 		return fmt.Errorf("already reserved")
 	}
@@ -123,7 +122,18 @@ func deviceReserve(cmd *api.SCSICommand) error {
 	return nil
 }
 
-func deviceRelease(tid int, itn uuid.UUID, lun uint64, force bool) error {
-	// TODO
-	return nil
+// deviceReserved tells whether another I_T nexus holds the reservation of the LU
+func deviceReserved(lu *api.SCSILu, itn uuid.UUID) bool {
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
+	return !uuid.Equal(lu.ReserveID, uuid.Nil) && !uuid.Equal(lu.ReserveID, itn)
+}
+
+// deviceRelease ends the reservation of the LU, if this I_T nexus holds it
+func deviceRelease(lu *api.SCSILu, itn uuid.UUID) {
+	reserveMutex.Lock()
+	defer reserveMutex.Unlock()
+	if uuid.Equal(lu.ReserveID, itn) {
+		lu.ReserveID = uuid.Nil
+	}
 }
-- 
2.43.0


From f2ab9f130d1973493a0ae3b981cde04fbf619639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 16/41] fix: persistent reservations can be registered, read,
 held, preempted and are enforced

---
 pkg/scsi/lun.go       |   7 ++
 pkg/scsi/scsi_pr.go   |  82 +++++++++------
 pkg/scsi/scsilumap.go |   2 +
 pkg/scsi/spc.go       | 233 ++++++++++++++++++++----------------------
 4 files changed, 171 insertions(+), 153 deletions(-)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 653159a..2543f9b 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -95,6 +95,13 @@ func luPerformCommand(tid int, cmd *api.SCSICommand) api.SAMStat {
 		if fnop.PRConflictBits != 0 && deviceReserved(cmd.Device, cmd.ITNexusID) {
 			return api.SAMStatReservationConflict
 		}
+		if fnop.PRConflictBits != 0 && reservationConflict(cmd, fnop.PRConflictBits) {
+			return api.SAMStatReservationConflict
+		}
+		if op == int(api.PERSISTENT_RESERVE_IN) || op == int(api.PERSISTENT_RESERVE_OUT) {
+			prMutex.Lock()
+			defer prMutex.Unlock()
+		}
 		return fnop.CommandPerformFunc(host, cmd)
 	}
 	return api.SAMStatGood
diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index f61ec30..cf81272 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -17,6 +17,8 @@ limitations under the License.
 package scsi
 
 import (
+	"sync"
+
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/satori/go.uuid"
 )
@@ -43,6 +45,10 @@ type SCSIReservationOperator interface {
 
 var onePROperator SCSIReservationOperator
 
+// prMutex guards onePROperator and everything in it: each command that reads or
+// changes registrations and reservations does so at once
+var prMutex sync.Mutex
+
 func GetSCSIReservationOperator() SCSIReservationOperator {
 	if onePROperator == nil {
 		onePROperator = &SCSISimpleReservationOperator{
@@ -189,7 +195,6 @@ func (op *SCSISimpleReservationOperator) GetReservationList(tgtName string, devU
 
 func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) {
 	var (
-		i         int = -1
 		ok        bool
 		tmpRes    *api.SCSIReservation
 		LURes     *SCSILUReservation
@@ -205,18 +210,8 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 	resArray := LURes.Reservations
 	curRes := LURes.CurrentReservation
 
-	for i, tmpRes = range resArray {
-		if tmpRes == res {
-			break
-		}
-	}
-
-	if i >= 0 {
-		resArray[i] = resArray[len(resArray)-1]
-		resArray[len(resArray)-1] = nil
-		resArray = resArray[:len(resArray)-1]
-		LURes.Reservations = resArray
-	}
+	op.RemoveReservation(tgtName, devUUID, res)
+	resArray = LURes.Reservations
 
 	if curRes == nil {
 		return
@@ -232,15 +227,9 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 		curRes.Scope = 0
 		curRes.Type = 0
 		LURes.CurrentReservation = nil
-		for i, tmpRes = range resArray {
-			if tmpRes == res {
-				continue
-			}
-			//TODO send sense code
-		}
-		LURes.PRGeneration++
+		//TODO send sense code
 	} else {
-		for i, tmpRes = range resArray {
+		for _, tmpRes = range resArray {
 			if tmpRes != res {
 				//kep scope and type
 				LURes.CurrentReservation = tmpRes
@@ -249,7 +238,6 @@ func (op *SCSISimpleReservationOperator) DeleteAndRemoveReservation(tgtName stri
 				break
 			}
 		}
-		LURes.PRGeneration++
 	}
 
 }
@@ -258,8 +246,6 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	var (
 		LURes     *SCSILUReservation
 		targetRes SCSILUReservationMap
-		tmpRes    *api.SCSIReservation
-		i         int = -1
 		ok        bool
 	)
 	if targetRes, ok = op.targetReservations[tgtName]; !ok {
@@ -270,18 +256,14 @@ func (op *SCSISimpleReservationOperator) RemoveReservation(tgtName string, devUU
 	}
 	resArray := LURes.Reservations
 
-	for i, tmpRes = range resArray {
+	for i, tmpRes := range resArray {
 		if tmpRes == res {
+			// the list may be being walked, leave it as it is
+			resArray = append(append([]*api.SCSIReservation{}, resArray[:i]...), resArray[i+1:]...)
+			LURes.Reservations = resArray
 			break
 		}
 	}
-
-	if i >= 0 {
-		resArray[i] = resArray[len(resArray)-1]
-		resArray[len(resArray)-1] = nil
-		resArray = resArray[:len(resArray)-1]
-		LURes.Reservations = resArray
-	}
 }
 
 func (op *SCSISimpleReservationOperator) AddReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) bool {
@@ -314,7 +296,7 @@ func (op *SCSISimpleReservationOperator) IsKeyExists(tgtName string, devUUID uin
 
 func (op *SCSISimpleReservationOperator) IsCurrentReservation(tgtName string, devUUID uint64, res *api.SCSIReservation) bool {
 	curRes := op.GetCurrentReservation(tgtName, devUUID)
-	if curRes == nil {
+	if curRes == nil || res == nil {
 		return false
 	}
 	if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
@@ -345,6 +327,40 @@ func (op *SCSISimpleReservationOperator) RemoveAllReservation(tgtName string, de
 
 }
 
+// reservationConflict tells whether the persistent reservation of the LU keeps the
+// I_T nexus from a command with these conflict bits
+func reservationConflict(cmd *api.SCSICommand, bits uint8) bool {
+	prMutex.Lock()
+	defer prMutex.Unlock()
+	op := GetSCSIReservationOperator()
+	curRes := op.GetCurrentReservation(cmd.Target.Name, cmd.Device.UUID)
+	if curRes == nil {
+		return false
+	}
+	res := op.GetReservation(cmd.Target.Name, cmd.Device.UUID, cmd.ITNexusID)
+	if op.IsCurrentReservation(cmd.Target.Name, cmd.Device.UUID, res) {
+		return false
+	}
+	switch curRes.Type {
+	case PR_TYPE_WRITE_EXCLUSIVE:
+		return bits&PR_WE_FA != 0
+	case PR_TYPE_EXCLUSIVE_ACCESS:
+		return bits&PR_EA_FA != 0
+	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY, PR_TYPE_WRITE_EXCLUSIVE_ALLREG:
+		if res == nil {
+			return bits&PR_WE_FN != 0
+		}
+	case PR_TYPE_EXCLUSIVE_ACCESS_REGONLY, PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+		if res == nil {
+			return bits&PR_EA_FN != 0
+		}
+	}
+	if res != nil {
+		return bits&PR_RR_FR != 0
+	}
+	return false
+}
+
 func (op *SCSISimpleReservationOperator) Save(tgtName string, devUUID uint64) bool {
 	return true
 }
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 6935be9..3d4e36f 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -128,6 +128,8 @@ func AddLUNMapping(m LUNMapping) error {
 		return err
 	}
 	// Init SCSISimpleReservationOperator
+	prMutex.Lock()
+	defer prMutex.Unlock()
 	op := GetSCSIReservationOperator()
 	if simpleOp, ok := op.(*SCSISimpleReservationOperator); ok {
 		simpleOp.InitLUReservation(m.TargetName, m.DeviceID)
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 61bdd74..148bb7d 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -775,13 +775,14 @@ func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 		addBuf           []byte = []byte{}
 		allocationLength uint16
 		additionLength   uint32
-		l                int = 0
+		data             []byte
 	)
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
 	PRGeneration, _ := scsiResOp.GetPRGeneration(tgtName, devUUID)
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
+	allocationLength = util.GetUnalignedUint16(cmd.SCB[7:9])
 	if allocationLength < 8 {
 		goto sense
 	}
@@ -791,11 +792,11 @@ func SPCPRReadKeys(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 	additionLength = uint32(len(addBuf))
 
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(PRGeneration))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], util.MarshalUint32(additionLength))
-	l += copy(cmd.InSDBBuffer.Buffer[l:], addBuf)
+	data = append(data, util.MarshalUint32(PRGeneration)...)
+	data = append(data, util.MarshalUint32(additionLength)...)
+	data = append(data, addBuf...)
 
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	setDataIn(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -828,7 +829,12 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	if curRes == nil {
 		additionLength = 0
 	} else {
-		addBuf.Write(util.MarshalUint64(curRes.Key))
+		key := curRes.Key
+		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG || curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
+			// every registrant holds it
+			key = 0
+		}
+		addBuf.Write(util.MarshalUint64(key))
 		//Obsolete
 		addBuf.WriteByte(0x00)
 		addBuf.WriteByte(0x00)
@@ -839,6 +845,9 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 		//SCOPE and TYPE
 		scope_type := (curRes.Scope << 4) | curRes.Type
 		addBuf.WriteByte(scope_type)
+		//Obsolete
+		addBuf.WriteByte(0x00)
+		addBuf.WriteByte(0x00)
 		additionLength = uint32(0x10)
 	}
 
@@ -846,13 +855,7 @@ func SPCPRReadReservation(host int, cmd *api.SCSICommand) api.SAMStat {
 	buf.Write(util.MarshalUint32(additionLength))
 	buf.Write(addBuf.Bytes())
 	data = buf.Bytes()
-	if allocationLength < uint16(additionLength) {
-		copy(cmd.InSDBBuffer.Buffer, data[0:allocationLength])
-	} else {
-		copy(cmd.InSDBBuffer.Buffer, data)
-	}
-
-	cmd.InSDBBuffer.Resid = uint32(additionLength)
+	setDataIn(cmd, data, uint32(allocationLength))
 	return api.SAMStatGood
 
 sense:
@@ -864,36 +867,30 @@ sense:
 }
 
 func SPCPRReportCapabilities(host int, cmd *api.SCSICommand) api.SAMStat {
-	var (
-		availLength  uint32 = 8
-		actualLength uint32 = 0
-	)
+	var data = make([]byte, 8)
+
 	allocationLength := uint32(util.GetUnalignedUint16(cmd.SCB[7:9]))
 	if allocationLength < 8 {
 		goto sense
 	}
-	if cmd.InSDBBuffer.Length < allocationLength {
-		goto sense
-	}
-	copy(cmd.InSDBBuffer.Buffer, util.MarshalUint16(uint16(8)))
+	copy(data, util.MarshalUint16(uint16(8)))
 	// Persistent Reservation Type Mask format
 	// Type Mask Valid (TMV)
-	cmd.InSDBBuffer.Buffer[3] |= 0x80
-	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[4] |= 0x80
+	data[3] |= 0x80
+	// PR_TYPE_WRITE_EXCLUSIVE_ALLREG
+	data[4] |= 0x80
 	// PR_TYPE_EXCLUSIVE_ACCESS_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x40
+	data[4] |= 0x40
 	// PR_TYPE_WRITE_EXCLUSIVE_REGONLY
-	cmd.InSDBBuffer.Buffer[4] |= 0x20
+	data[4] |= 0x20
 	// PR_TYPE_EXCLUSIVE_ACCESS
-	cmd.InSDBBuffer.Buffer[4] |= 0x08
+	data[4] |= 0x08
 	// PR_TYPE_WRITE_EXCLUSIVE
-	cmd.InSDBBuffer.Buffer[4] |= 0x02
+	data[4] |= 0x02
 	// PR_TYPE_EXCLUSIVE_ACCESS_ALLREG
-	cmd.InSDBBuffer.Buffer[5] |= 0x01
+	data[5] |= 0x01
 
-	actualLength = availLength
-	cmd.InSDBBuffer.Resid = uint32(actualLength)
+	setDataIn(cmd, data, allocationLength)
 	return api.SAMStatGood
 sense:
 	if cmd.InSDBBuffer != nil {
@@ -903,14 +900,33 @@ sense:
 	return api.SAMStatCheckCondition
 }
 
+// prOutParam returns the parameter list of a PERSISTENT RESERVE OUT command,
+// or nil if it does not have the 24 bytes all of them start with
+func prOutParam(cmd *api.SCSICommand) []byte {
+	paramLen := util.GetUnalignedUint32(cmd.SCB[5:9])
+	if paramLen < 24 {
+		return nil
+	}
+	return bsDataOut(cmd, int64(paramLen))
+}
+
+// prTypeSupported tells whether a reservation of this type can be established
+func prTypeSupported(resType uint8) bool {
+	switch resType {
+	case PR_TYPE_WRITE_EXCLUSIVE,
+		PR_TYPE_EXCLUSIVE_ACCESS,
+		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
+		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
+		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
+		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
+		return true
+	}
+	return false
+}
+
 func reservationCheck(host int, cmd *api.SCSICommand) bool {
-	var (
-		paramLen uint32
-		buf      []byte = cmd.OutSDBBuffer.Buffer
-	)
-	length, _ := SCSICDBBufXLength(cmd.SCB)
-	paramLen = uint32(length)
-	if paramLen != 24 {
+	buf := prOutParam(cmd)
+	if len(buf) != 24 {
 		return false
 	}
 	spec_i_pt := uint8(buf[20] & 0x08)
@@ -925,7 +941,7 @@ func reservationCheck(host int, cmd *api.SCSICommand) bool {
 
 func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf       []byte = cmd.OutSDBBuffer.Buffer
+		buf       []byte = prOutParam(cmd)
 		scb       []byte = cmd.SCB
 		ignoreKey bool   = false
 		ok        bool   = false
@@ -938,7 +954,7 @@ func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 	scsiResOp := GetSCSIReservationOperator()
 	res := scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
 
-	if scb[1] == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
+	if scb[1]&0x1f == PR_OUT_REGISTER_AND_IGNORE_EXISTING_KEY {
 		ignoreKey = true
 	}
 	ok = reservationCheck(host, cmd)
@@ -967,6 +983,9 @@ func SPCPRRegister(host int, cmd *api.SCSICommand) api.SAMStat {
 					ITNexusID: cmd.ITNexusID,
 				}
 				scsiResOp.AddReservation(tgtName, devUUID, newRes)
+			} else {
+				// nothing to do
+				return api.SAMStatGood
 			}
 		} else {
 			return api.SAMStatReservationConflict
@@ -1006,13 +1025,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	resScope = scb[2] & 0xf0 >> 4
 	resType = scb[2] & 0x0f
 
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
+	if !prTypeSupported(resType) {
 		goto sense
 	}
 	if resScope != PR_LU_SCOPE {
@@ -1020,7 +1033,7 @@ func SPCPRReserve(host int, cmd *api.SCSICommand) api.SAMStat {
 	}
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || res.Key != util.GetUnalignedUint64(prOutParam(cmd)[0:8]) {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1050,7 +1063,7 @@ sense:
 
 func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf      []byte = cmd.OutSDBBuffer.Buffer
+		buf      []byte = prOutParam(cmd)
 		scb      []byte = cmd.SCB
 		curRes   *api.SCSIReservation
 		res      *api.SCSIReservation
@@ -1075,7 +1088,7 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 	resKey = util.GetUnalignedUint64(buf[0:8])
 
 	res = scsiResOp.GetReservation(tgtName, devUUID, cmd.ITNexusID)
-	if res == nil {
+	if res == nil || res.Key != resKey {
 		return api.SAMStatReservationConflict
 	}
 
@@ -1088,10 +1101,6 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatGood
 	}
 
-	if resKey != res.Key {
-		return api.SAMStatReservationConflict
-	}
-
 	if curRes.Scope != resScope || curRes.Type != resType {
 		if cmd.InSDBBuffer != nil {
 			cmd.InSDBBuffer.Resid = 0
@@ -1104,18 +1113,6 @@ func SPCPRRelease(host int, cmd *api.SCSICommand) api.SAMStat {
 	res.Scope = 0
 	res.Type = 0
 
-	switch resType {
-	case PR_TYPE_WRITE_EXCLUSIVE,
-		PR_TYPE_EXCLUSIVE_ACCESS,
-		PR_TYPE_WRITE_EXCLUSIVE_REGONLY,
-		PR_TYPE_EXCLUSIVE_ACCESS_REGONLY,
-		PR_TYPE_WRITE_EXCLUSIVE_ALLREG,
-		PR_TYPE_EXCLUSIVE_ACCESS_ALLREG:
-		break
-	default:
-		goto sense
-	}
-
 	resList = scsiResOp.GetReservationList(tgtName, devUUID)
 	for _, tmpRes := range resList {
 		if tmpRes.ID == res.ID {
@@ -1135,7 +1132,7 @@ sense:
 
 func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf    []byte = cmd.OutSDBBuffer.Buffer
+		buf    []byte = prOutParam(cmd)
 		curRes *api.SCSIReservation
 		res    *api.SCSIReservation
 		ok     bool = false
@@ -1176,7 +1173,7 @@ func SPCPRClear(host int, cmd *api.SCSICommand) api.SAMStat {
 		if tmpRes != res {
 			//TODO send sense code
 		}
-		scsiResOp.DeleteAndRemoveReservation(tgtName, devUUID, tmpRes)
+		scsiResOp.RemoveReservation(tgtName, devUUID, tmpRes)
 	}
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
@@ -1191,15 +1188,18 @@ sense:
 
 func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf          []byte = cmd.OutSDBBuffer.Buffer
+		buf          []byte = prOutParam(cmd)
 		scb          []byte = cmd.SCB
 		ok           bool   = false
 		resKey       uint64
 		sAResKey     uint64
 		res          *api.SCSIReservation
 		curRes       *api.SCSIReservation
-		resReleased  bool
+		allReg       bool
+		preempted    bool
 		removeAllRes bool
+		newScope     uint8
+		newType      uint8
 		resScope     uint8
 		resType      uint8
 	)
@@ -1228,58 +1228,43 @@ func SPCPRPreempt(host int, cmd *api.SCSICommand) api.SAMStat {
 		return api.SAMStatReservationConflict
 	}
 
-	if sAResKey != 0 {
-		ok = scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey)
-		if ok {
-			return api.SAMStatReservationConflict
+	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
+	allReg = curRes != nil && (curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
+		curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG)
+	if sAResKey == 0 {
+		if !allReg {
+			BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_PARMS)
+			return api.SAMStatCheckCondition
 		}
+		removeAllRes = true
+	} else if !scsiResOp.IsKeyExists(tgtName, devUUID, sAResKey) {
+		return api.SAMStatReservationConflict
 	}
 
-	curRes = scsiResOp.GetCurrentReservation(tgtName, devUUID)
-	if curRes != nil {
-		if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
-			curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
-			if sAResKey == 0 {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-				removeAllRes = true
-			}
-		} else {
-			if curRes.Key == resKey {
-				if resType != curRes.Type ||
-					resScope != curRes.Scope {
-					resReleased = true
-				}
-				res.Type = resType
-				res.Scope = resScope
-				scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
-			} else {
-				if sAResKey == 0 {
-					goto sense
-				}
-			}
+	if curRes != nil && (removeAllRes || (!allReg && curRes.Key == sAResKey)) {
+		// the reservation itself is preempted
+		if !prTypeSupported(resType) || resScope != PR_LU_SCOPE {
+			goto sense
 		}
+		newType, newScope = resType, resScope
+		preempted = true
+	} else if allReg {
+		// it stays with the registrants that remain, this one at least
+		newType, newScope = curRes.Type, curRes.Scope
+		preempted = true
 	}
 
 	for _, tmpRes := range resList {
-		if tmpRes == res {
-			continue
-		}
-
-		if res.Key == resKey || removeAllRes {
+		if tmpRes != res && (tmpRes.Key == sAResKey || removeAllRes) {
 			//TODO send sense code
-			scsiResOp.RemoveReservation(tgtName, devUUID, res)
-		} else {
-			if resReleased {
-				//TODO send sense code
-			}
+			scsiResOp.RemoveReservation(tgtName, devUUID, tmpRes)
 		}
 	}
+	if preempted {
+		res.Type = newType
+		res.Scope = newScope
+		scsiResOp.SetCurrentReservation(tgtName, devUUID, res)
+	}
 	scsiResOp.IncPRGeneration(tgtName, devUUID)
 	scsiResOp.Save(tgtName, devUUID)
 	return api.SAMStatGood
@@ -1293,7 +1278,7 @@ sense:
 
 func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	var (
-		buf                 []byte = cmd.OutSDBBuffer.Buffer
+		buf                 []byte = prOutParam(cmd)
 		scb                 []byte = cmd.SCB
 		resKey              uint64
 		sAResKey            uint64
@@ -1311,7 +1296,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
-	if paramListLen < 24 {
+	if len(buf) < 24 {
 		goto sense
 	}
 	aptpl = buf[17] & 0x01
@@ -1324,7 +1309,7 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	resKey = util.GetUnalignedUint64(buf[0:8])
 	sAResKey = util.GetUnalignedUint64(buf[8:16])
 
-	tpidDataLen = util.GetUnalignedUint32(buf[20:25])
+	tpidDataLen = util.GetUnalignedUint32(buf[20:24])
 	if tpidDataLen < 24 || (tpidDataLen%4) != 0 {
 		goto sense
 	}
@@ -1343,20 +1328,26 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		}
 	}
 
-	if scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
-		return api.SAMStatGood
+	if res.Key != resKey {
+		return api.SAMStatReservationConflict
 	}
 
-	if res.Key != resKey {
+	if !scsiResOp.IsCurrentReservation(tgtName, devUUID, res) {
 		return api.SAMStatReservationConflict
 	}
 
-	if sAResKey == 0 {
+	if curRes.Type == PR_TYPE_WRITE_EXCLUSIVE_ALLREG ||
+		curRes.Type == PR_TYPE_EXCLUSIVE_ACCESS_ALLREG {
+		// held by every registrant, it cannot be moved to one
 		return api.SAMStatReservationConflict
 	}
 
+	if sAResKey == 0 {
+		goto sense
+	}
+
 	for _, dstReg = range resList {
-		if dstReg.Key == sAResKey {
+		if dstReg != res && dstReg.Key == sAResKey {
 			goto found
 		}
 	}
@@ -1364,6 +1355,8 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 	goto sense
 found:
 	//TODO check transportid
+	dstReg.Scope = curRes.Scope
+	dstReg.Type = curRes.Type
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, dstReg)
 	if unreg != 0 {
 		scsiResOp.RemoveReservation(tgtName, devUUID, res)
-- 
2.43.0


From a7c90f0fda65d54c01a097926b95a30bc01354db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 17/41] fix: targets refer to portals by their configured id,
 and share the SCSI target with its lock

---
 cmd/daemon.go              |  5 +++-
 pkg/port/iscsit/iscsid.go  | 50 ++++++++++++++++++++++++++++++++++----
 pkg/port/iscsit/iscsit.go  | 17 +++++++++----
 pkg/port/iscsit/session.go | 21 ++++++++--------
 4 files changed, 71 insertions(+), 22 deletions(-)

diff --git a/cmd/daemon.go b/cmd/daemon.go
index f32affd..793fba8 100644
--- a/cmd/daemon.go
+++ b/cmd/daemon.go
@@ -95,7 +95,10 @@ func createDaemon(host, driver, level string, blockMultipleHosts bool, port int)
 	}
 
 	for tgtname := range config.ISCSITargets {
-		targetDriver.NewTarget(tgtname, config)
+		if err = targetDriver.NewTarget(tgtname, config); err != nil {
+			log.Error(err)
+			return err
+		}
 	}
 
 	if blockMultipleHosts {
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 0db6b01..defa1ad 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"net"
 	"os"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -109,9 +110,30 @@ func (s *ISCSITargetDriver) ReleaseTSIH(tsih uint16) {
 }
 
 func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if _, ok := s.iSCSITargets[tgtName]; ok {
 		return fmt.Errorf("target name has been existed")
 	}
+	portals := make(map[uint64]string)
+	for _, portal := range configInfo.ISCSIPortals {
+		portals[uint64(portal.ID)] = portal.Portal
+	}
+	targetConfig := configInfo.ISCSITargets[tgtName]
+	tpgts := []int{}
+	for tpgt, portalIDArrary := range targetConfig.TPGTs {
+		tpgtNumber, err := strconv.ParseUint(tpgt, 10, 16)
+		if err != nil {
+			return fmt.Errorf("invalid portal group tag %q of target %s", tpgt, tgtName)
+		}
+		for _, portalID := range portalIDArrary {
+			if _, ok := portals[portalID]; !ok {
+				return fmt.Errorf("no portal %d, in %s,%s", portalID, tgtName, tpgt)
+			}
+		}
+		tpgts = append(tpgts, int(tpgtNumber))
+	}
+	sort.Ints(tpgts)
 	stgt, err := s.SCSI.NewSCSITarget(len(s.iSCSITargets), "iscsi", tgtName)
 	if err != nil {
 		return err
@@ -119,20 +141,27 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 	tgt := newISCSITarget(stgt)
 	s.iSCSITargets[tgtName] = tgt
 	scsiTPG := tgt.SCSITarget.TargetPortGroups[0]
-	targetConfig := configInfo.ISCSITargets[tgtName]
-	for tpgt, portalIDArrary := range targetConfig.TPGTs {
-		tpgtNumber, _ := strconv.ParseUint(tpgt, 10, 16)
+	for _, tpgtNumber := range tpgts {
 		tgt.TPGTs[uint16(tpgtNumber)] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}
 		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
 		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
+	}
+	for tpgt, portalIDArrary := range targetConfig.TPGTs {
+		tpgtNumber, _ := strconv.ParseUint(tpgt, 10, 16)
 		for _, portalID := range portalIDArrary {
-			portal := configInfo.ISCSIPortals[portalID]
-			s.AddiSCSIPortal(tgtName, uint16(tpgtNumber), portal.Portal)
+			s.addiSCSIPortal(tgtName, uint16(tpgtNumber), portals[portalID])
 		}
 	}
 	return nil
 }
 
+// findTarget returns the target with this name, nil if there is none
+func (s *ISCSITargetDriver) findTarget(tgtName string) *ISCSITarget {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.iSCSITargets[tgtName]
+}
+
 func (s *ISCSITargetDriver) SetClusterIP(ip string) {
 	s.clusterIP = ip
 }
@@ -146,6 +175,13 @@ func (s *ISCSITargetDriver) RereadTargetLUNMap() {
 }
 
 func (s *ISCSITargetDriver) AddiSCSIPortal(tgtName string, tpgt uint16, portal string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.addiSCSIPortal(tgtName, tpgt, portal)
+}
+
+// addiSCSIPortal is AddiSCSIPortal with s.mu held
+func (s *ISCSITargetDriver) addiSCSIPortal(tgtName string, tpgt uint16, portal string) error {
 	var (
 		ok       bool
 		target   *ISCSITarget
@@ -176,6 +212,8 @@ func (s *ISCSITargetDriver) HasPortal(tgtName string, tpgt uint16, portal string
 		target   *ISCSITarget
 		tpgtInfo *iSCSITPGT
 	)
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 
 	if target, ok = s.iSCSITargets[tgtName]; !ok {
 		return false
@@ -515,6 +553,8 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 	keys := util.ParseKVText(cmd.RawData)
 	if st, ok := keys["SendTargets"]; ok {
 		if st == "All" {
+			s.mu.RLock()
+			defer s.mu.RUnlock()
 			for name, tgt := range s.iSCSITargets {
 				log.Debugf("iscsi target: %v", name)
 				//log.Debugf("iscsi target portals: %v", tgt.Portals)
diff --git a/pkg/port/iscsit/iscsit.go b/pkg/port/iscsit/iscsit.go
index 9b0d445..c2210f9 100644
--- a/pkg/port/iscsit/iscsit.go
+++ b/pkg/port/iscsit/iscsit.go
@@ -79,7 +79,7 @@ type iSCSITPGT struct {
 }
 
 type ISCSITarget struct {
-	api.SCSITarget
+	*api.SCSITarget
 	api.SCSITargetDriverCommon
 	// TPGT number is the key
 	TPGTs map[uint16]*iSCSITPGT
@@ -111,19 +111,26 @@ func ParseSSID(SSID uint64) (uint64, uint16) {
 }
 
 func (tgt *ISCSITarget) FindTPG(portal string) (uint16, error) {
+	var (
+		found  bool
+		number uint16
+	)
 	for tpgt, TPG := range tgt.TPGTs {
 		for tgtPortal := range TPG.Portals {
-			if strings.EqualFold(portal, tgtPortal) {
-				return tpgt, nil
+			if strings.EqualFold(portal, tgtPortal) && (!found || tpgt < number) {
+				found, number = true, tpgt
 			}
 		}
 	}
-	return 0, fmt.Errorf("No TPGT found with IP(%s)", portal)
+	if !found {
+		return 0, fmt.Errorf("No TPGT found with IP(%s)", portal)
+	}
+	return number, nil
 }
 
 func newISCSITarget(target *api.SCSITarget) *ISCSITarget {
 	return &ISCSITarget{
-		SCSITarget: *target,
+		SCSITarget: target,
 		TPGTs:      make(map[uint16]*iSCSITPGT),
 		Sessions:   make(map[uint16]*ISCSISession),
 	}
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index cd0c072..22645b4 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -312,8 +312,8 @@ func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, i
 		sess *ISCSISession
 		ok   bool
 	)
-	tgt, ok = s.iSCSITargets[tgtName]
-	if !ok {
+	tgt = s.findTarget(tgtName)
+	if tgt == nil {
 		return nil
 	}
 	tgt.SessionsRWMutex.RLock()
@@ -333,7 +333,7 @@ func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
 	target.SessionsRWMutex.Lock()
 	defer target.SessionsRWMutex.Unlock()
 	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(&sess.Target.SCSITarget, sess.ITNexus)
+	scsi.RemoveITNexus(sess.Target.SCSITarget, sess.ITNexus)
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
@@ -350,17 +350,14 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	if conn.loginParam.sessionType == SESSION_DISCOVERY {
 		conn.tid = 0xffff
 	} else {
-		for _, t := range s.iSCSITargets {
-			if t.SCSITarget.Name == conn.loginParam.target {
-				target = t
-				break
-			}
-		}
+		target = s.findTarget(conn.loginParam.target)
 		if target == nil {
 			return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
 		}
 
+		s.mu.RLock()
 		tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
+		s.mu.RUnlock()
 		if err != nil {
 			return err
 		}
@@ -396,7 +393,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
 			//register normal session
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
@@ -418,7 +415,7 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 			}
 
 			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(&newSess.Target.SCSITarget, itnexus)
+			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
 			newSess.ITNexus = itnexus
 			conn.session = newSess
 
@@ -444,12 +441,14 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 		tsih   uint16
 	)
 
+	s.mu.RLock()
 	for _, t := range s.iSCSITargets {
 		if t.TID == conn.tid {
 			target = t
 			break
 		}
 	}
+	s.mu.RUnlock()
 	if target == nil && conn.tid != 0xffff {
 		return nil, fmt.Errorf("No target found with tid(%d)", conn.tid)
 	}
-- 
2.43.0


From ed83bc1b964d95e32932f35e3751cbbf069a4eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 18/41] fix: requests of a connection are served one after the
 other in CmdSN order, sessions end with their connection

Each PDU was handled in a goroutine of its own while the response to the one
before was still sent from shared fields of the connection: responses got lost
or were sent twice. StatSN, ExpCmdSN, residual counts, R2Ts, data segments and
LUN fields follow RFC 7143, PDUs that cannot be served are rejected instead of
stopping the connection, and nothing of a session is left behind.
---
 pkg/port/iscsit/cmd.go     | 103 +++--
 pkg/port/iscsit/conn.go    | 182 ++++----
 pkg/port/iscsit/iscsid.go  | 865 ++++++++++++++-----------------------
 pkg/port/iscsit/iscsit.go  |  29 +-
 pkg/port/iscsit/session.go | 214 +++++----
 pkg/scsi/backingstore.go   |   8 +-
 pkg/scsi/sbc.go            |   8 +
 pkg/scsi/spc.go            |   5 +-
 8 files changed, 602 insertions(+), 812 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index f592568..b9d1c32 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -18,13 +18,13 @@ package iscsit
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"strings"
 	"time"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
-	log "github.com/sirupsen/logrus"
 )
 
 type OpCode int
@@ -98,7 +98,8 @@ type ISCSICommand struct {
 	StartTime          time.Time
 	ExpCmdSN, MaxCmdSN uint32
 	AHSLen             int
-	Resid              uint32
+	// Transferred is what a SCSI command transfers, compared with ExpectedDataLen
+	Transferred uint32
 
 	// Connection ID.
 	ConnID uint16
@@ -164,6 +165,8 @@ func (cmd *ISCSICommand) Bytes() []byte {
 		return cmd.scsiTMFRespBytes()
 	case OpReady:
 		return cmd.r2tRespBytes()
+	case OpReject:
+		return cmd.rejectBytes()
 	}
 	return nil
 }
@@ -217,6 +220,21 @@ func ParseUint(data []byte) uint64 {
 	return out
 }
 
+// parseLUN returns the number of a LUN in the peripheral or flat space
+// addressing of one level, with its lowest byte first. Other LUNs do not exist.
+func parseLUN(data []byte) (lun [8]byte) {
+	number := ^uint64(0)
+	if field := ParseUint(data); field<<16 == 0 {
+		if field >>= 48; field < 0x100 {
+			number = field
+		} else if field>>14 == 1 {
+			number = field & 0x3fff
+		}
+	}
+	binary.LittleEndian.PutUint64(lun[:], number)
+	return
+}
+
 func parseHeader(data []byte) (*ISCSICommand, error) {
 	if len(data) != BHS_SIZE {
 		return nil, fmt.Errorf("garbled header")
@@ -232,7 +250,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	m.StartTime = time.Now()
 	switch m.OpCode {
 	case OpSCSICmd:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpectedDataLen = uint32(ParseUint(data[20:24]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.Read = data[1]&0x40 == 0x40
@@ -247,13 +265,15 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16, api.WRITE_VERIFY, api.WRITE_VERIFY_12, api.WRITE_VERIFY_16:
 			m.Write = true
 		}
-		fallthrough
 	case OpSCSITaskReq:
+		m.LUN = parseLUN(data[8:16])
+		m.CmdSN = uint32(ParseUint(data[24:28]))
+		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.ReferencedTaskTag = uint32(ParseUint(data[20:24]))
 		m.TaskFunc = uint32(data[1] & ISCSI_FLAG_TM_FUNC_MASK)
 	case OpSCSIResp:
 	case OpSCSIOut:
-		m.LUN = [8]byte{data[9]}
+		m.LUN = parseLUN(data[8:16])
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
 		m.DataSN = uint32(ParseUint(data[36:40]))
 		m.BufferOffset = uint32(ParseUint(data[40:44]))
@@ -289,19 +309,23 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	return m, nil
 }
 
+// residual returns the residual count and its flag
+func (m *ISCSICommand) residual() (uint32, byte) {
+	if m.Transferred > m.ExpectedDataLen {
+		return m.Transferred - m.ExpectedDataLen, 0x04
+	} else if m.Transferred < m.ExpectedDataLen {
+		return m.ExpectedDataLen - m.Transferred, 0x02
+	}
+	return 0, 0
+}
+
 func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	// rfc7143 11.4
 	buf := bytes.Buffer{}
 	buf.WriteByte(byte(OpSCSIResp))
 	var flag byte = 0x80
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else {
-			flag |= 0x02
-		}
-	}
-	buf.WriteByte(flag)
+	resid, residFlag := m.residual()
+	buf.WriteByte(flag | residFlag)
 	buf.WriteByte(byte(m.SCSIResponse))
 	buf.WriteByte(byte(m.Status))
 
@@ -321,7 +345,7 @@ func (m *ISCSICommand) scsiCmdRespBytes() []byte {
 	for i := 0; i < 2*4; i++ {
 		buf.WriteByte(0x00)
 	}
-	buf.Write(util.MarshalUint64(uint64(m.Resid))[4:])
+	buf.Write(util.MarshalUint64(uint64(resid))[4:])
 	buf.Write(m.RawData)
 	dl := len(m.RawData)
 	for dl%4 > 0 {
@@ -344,33 +368,22 @@ func (m *ISCSICommand) dataInBytes() []byte {
 	if m.FinalInSeq || m.Final == true {
 		flag |= 0x80
 	}
+	// the status and what comes with it are in the last PDU
 	if m.HasStatus && m.Final == true {
-		flag |= 0x01
-	}
-	log.Debugf("resid: %v, ExpectedDataLen: %v", m.Resid, m.ExpectedDataLen)
-	if m.Resid > 0 {
-		if m.Resid > m.ExpectedDataLen {
-			flag |= 0x04
-		} else if m.Resid < m.ExpectedDataLen {
-			flag |= 0x02
-		}
+		resid, residFlag := m.residual()
+		flag |= 0x01 | residFlag
+		buf[3] = byte(m.Status)
+		copy(buf[24:], util.MarshalUint32(m.StatSN))
+		copy(buf[44:], util.MarshalUint32(resid))
 	}
 	buf[1] = flag
-	//buf.WriteByte(0x00)
-	if m.HasStatus && m.Final == true {
-		flag = byte(m.Status)
-	}
-	//buf.WriteByte(flag)
-	buf[3] = flag
 	copy(buf[5:], util.MarshalUint64(uint64(m.DataLen))[5:])
 	// Skip through to byte 16 Since A bit is not set 11.7.4
 	copy(buf[16:], util.MarshalUint32(m.TaskTag))
-	copy(buf[24:], util.MarshalUint32(m.StatSN))
 	copy(buf[28:], util.MarshalUint32(m.ExpCmdSN))
 	copy(buf[32:], util.MarshalUint32(m.MaxCmdSN))
 	copy(buf[36:], util.MarshalUint32(m.DataSN))
 	copy(buf[40:], util.MarshalUint32(m.BufferOffset))
-	copy(buf[44:], util.MarshalUint32(m.Resid))
 	if m.ExpectedDataLen != 0 {
 		copy(buf[48:], m.RawData[m.BufferOffset:m.BufferOffset+uint32(m.DataLen)])
 	}
@@ -508,3 +521,31 @@ func (m *ISCSICommand) r2tRespBytes() []byte {
 
 	return buf.Bytes()
 }
+
+func (m *ISCSICommand) rejectBytes() []byte {
+	// rfc7143 11.17
+	buf := bytes.Buffer{}
+	buf.WriteByte(byte(OpReject))
+	buf.WriteByte(0x80)
+	buf.WriteByte(m.Result)
+	buf.WriteByte(0x00)
+	buf.WriteByte(0x00)
+	buf.Write(util.MarshalUint64(uint64(len(m.RawData)))[5:]) // 5-8
+	// Skip through to byte 16
+	for i := 0; i < 2*4; i++ {
+		buf.WriteByte(0x00)
+	}
+	buf.Write(util.MarshalUint64(uint64(m.TaskTag))[4:])
+	for i := 0; i < 4; i++ {
+		buf.WriteByte(0x00)
+	}
+	buf.Write(util.MarshalUint64(uint64(m.StatSN))[4:])
+	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
+	buf.Write(util.MarshalUint64(uint64(m.MaxCmdSN))[4:])
+	for i := 0; i < 3*4; i++ {
+		buf.WriteByte(0x00)
+	}
+	// the header that is rejected
+	buf.Write(m.RawData)
+	return buf.Bytes()
+}
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 0b0c14a..5598adb 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -17,13 +17,14 @@ limitations under the License.
 package iscsit
 
 import (
+	"fmt"
 	"io"
 	"net"
 	"sort"
-	"sync"
 
 	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/util"
+	log "github.com/sirupsen/logrus"
 )
 
 const (
@@ -45,11 +46,6 @@ const (
 	CONN_STATE_READY          = 15
 )
 
-var (
-	DATAIN  byte = 0x01
-	DATAOUT byte = 0x10
-)
-
 type iscsiConnection struct {
 	ConnNum   int
 	state     int
@@ -57,15 +53,15 @@ type iscsiConnection struct {
 	session   *ISCSISession
 	tid       int
 	cid       uint16
-	rxIOState int
-	txIOState int
 	refcount  int
 	conn      net.Conn
+	// currentHost is set for a connection from CurrentHostIP
+	currentHost bool
+	// done is closed when the connection has ended and given back what it had
+	done chan struct{}
 
-	rxBuffer []byte
-	txBuffer []byte
-	req      *ISCSICommand
-	resp     *ISCSICommand
+	req  *ISCSICommand
+	resp *ISCSICommand
 
 	loginParam *iscsiLoginParam
 
@@ -78,37 +74,19 @@ type iscsiConnection struct {
 	// ExpCmdSN - the next expected command sequence number at the target
 	expCmdSN uint32
 	// MaxCmdSN - the maximum CmdSN acceptable at the target from this initiator
-	maxCmdSN                 uint32
-	maxRecvDataSegmentLength uint32
-	maxBurstLength           uint32
-	maxSeqCount              uint32
-
-	rxTask *iscsiTask
-	txTask *iscsiTask
-
-	readLock *sync.RWMutex
+	maxCmdSN uint32
 }
 
-type taskState int
-
-const (
-	taskPending taskState = 0
-	taskSCSI    taskState = 1
-)
-
 type iscsiTask struct {
-	tag                uint32
-	conn               *iscsiConnection
-	cmd                *ISCSICommand
-	scmd               *api.SCSICommand
-	state              taskState
-	expectedDataLength int64
-	result             byte
+	tag    uint32
+	conn   *iscsiConnection
+	cmd    *ISCSICommand
+	scmd   *api.SCSICommand
+	result byte
 
-	offset     int
-	r2tCount   int
-	unsolCount int
-	expR2TSN   int
+	// offset is the end of the data received, burstEnd that of the data asked for
+	offset   int
+	burstEnd int
 
 	r2tSN uint32
 }
@@ -116,7 +94,7 @@ type iscsiTask struct {
 func (c *iscsiConnection) init() {
 	c.state = CONN_STATE_FREE
 	c.refcount = 1
-	c.readLock = new(sync.RWMutex)
+	c.done = make(chan struct{})
 	c.loginParam.sessionParam = []ISCSISessionParam{}
 	c.loginParam.tgtCSG = LoginOperationalNegotiation
 	c.loginParam.tgtNSG = LoginOperationalNegotiation
@@ -143,23 +121,61 @@ func (c *iscsiConnection) close() {
 	c.conn.Close()
 }
 
-func (conn *iscsiConnection) ReInstatement(newConn *iscsiConnection) {
-	conn.close()
-	conn.conn = newConn.conn
+// readPDU reads the next PDU of the initiator
+func (c *iscsiConnection) readPDU() (*ISCSICommand, error) {
+	buf := make([]byte, BHS_SIZE)
+	if _, err := c.readData(buf); err != nil {
+		return nil, err
+	}
+	cmd, err := parseHeader(buf)
+	if err != nil {
+		return nil, err
+	}
+	cmd.RawHeader = buf
+	if cmd.DataLen > int(MaxRecvDataSegmentLength) {
+		return nil, fmt.Errorf("data segment of %d bytes", cmd.DataLen)
+	}
+	if cmd.AHSLen > 0 {
+		// none of the additional header segments is supported
+		if _, err := c.readData(make([]byte, cmd.AHSLen)); err != nil {
+			return nil, err
+		}
+	}
+	if cmd.DataLen > 0 {
+		dl := ((cmd.DataLen + DataPadding - 1) / DataPadding) * DataPadding
+		cmd.RawData = make([]byte, dl)
+		if _, err := c.readData(cmd.RawData); err != nil {
+			return nil, err
+		}
+		cmd.RawData = cmd.RawData[:cmd.DataLen]
+	}
+	if log.GetLevel() == log.DebugLevel {
+		log.Debugf("got command: \n%s", cmd.String())
+		log.Debugf("got buffer: %v", buf)
+	}
+	return cmd, nil
+}
+
+// nextStatSN is the StatSN of a PDU that carries a status
+func (conn *iscsiConnection) nextStatSN() uint32 {
+	statSN := conn.statSN
+	conn.statSN++
+	return statSN
 }
 
 func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
-	conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: &api.SCSICommand{}}
-	conn.txIOState = IOSTATE_TX_BHS
-	conn.statSN += 1
-	if task == nil {
-		task = conn.rxTask
+	req := conn.req
+	if task != nil {
+		req = task.cmd
 	}
 	conn.resp = &ISCSICommand{
-		StartTime:       conn.req.StartTime,
-		StatSN:          conn.req.ExpStatSN,
-		TaskTag:         conn.req.TaskTag,
-		ExpectedDataLen: conn.req.ExpectedDataLen,
+		OpCode:          oc,
+		Final:           true,
+		StartTime:       req.StartTime,
+		TaskTag:         req.TaskTag,
+		ExpectedDataLen: req.ExpectedDataLen,
+		ExpCmdSN:        req.CmdSN,
+		MaxCmdSN:        req.CmdSN,
 	}
 	if conn.session != nil {
 		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
@@ -167,58 +183,42 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 	}
 	switch oc {
 	case OpReady:
-		conn.resp.OpCode = OpReady
+		// no status, this only tells the next StatSN
+		conn.resp.StatSN = conn.statSN
 		conn.resp.R2TSN = task.r2tSN
-		conn.resp.Final = true
 		conn.resp.BufferOffset = uint32(task.offset)
-		conn.resp.DesiredLength = uint32(task.r2tCount)
-		if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value; task.r2tCount > int(val) {
-			conn.resp.DesiredLength = uint32(val)
-		}
+		conn.resp.DesiredLength = uint32(task.burstEnd - task.offset)
+		return nil
 	case OpSCSIIn, OpSCSIResp:
-		conn.resp.OpCode = oc
-		conn.resp.SCSIOpCode = conn.req.SCSIOpCode
-		conn.resp.Immediate = true
-		conn.resp.Final = true
+		conn.resp.SCSIOpCode = req.SCSIOpCode
 		conn.resp.SCSIResponse = 0x00
 		conn.resp.HasStatus = true
 		scmd := task.scmd
 		conn.resp.Status = scmd.Result
-		if scmd.Result != 0 && scmd.SenseBuffer != nil {
-			length := util.MarshalUint32(scmd.SenseBuffer.Length)
-			conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
-		} else if scmd.Direction == api.SCSIDataRead || scmd.Direction == api.SCSIDataWrite {
-			if scmd.InSDBBuffer != nil {
-				conn.resp.Resid = scmd.InSDBBuffer.Resid
-				if conn.resp.Resid != 0 && conn.resp.Resid < scmd.InSDBBuffer.Length {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer[:conn.resp.Resid]
-				} else {
-					conn.resp.RawData = scmd.InSDBBuffer.Buffer
-				}
-			} else {
-				conn.resp.RawData = []byte{}
+		if scmd.Result != 0 {
+			if scmd.SenseBuffer != nil {
+				length := util.MarshalUint32(scmd.SenseBuffer.Length)
+				conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
 			}
+		} else if scmd.Direction == api.SCSIDataRead {
+			conn.resp.Transferred = scmd.InSDBBuffer.Resid
+			if oc == OpSCSIIn {
+				conn.resp.RawData = scmd.InSDBBuffer.Buffer
+			}
+		} else if scmd.Direction == api.SCSIDataWrite {
+			conn.resp.Transferred = scmd.OutSDBBuffer.Resid
 		}
-
-	case OpNoopIn, OpReject:
-		conn.resp.OpCode = oc
-		conn.resp.Final = true
-		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 	case OpSCSITaskResp:
-		conn.resp.OpCode = oc
-		conn.resp.Final = true
-		conn.resp.NSG = FullFeaturePhase
-		conn.resp.ExpCmdSN = conn.req.CmdSN + 1
 		conn.resp.Result = task.result
+	case OpNoopIn:
+		conn.resp.RawData = req.RawData
+	case OpReject:
+		conn.resp.TaskTag = 0xffffffff
 	case OpLoginResp:
-		conn.resp.OpCode = OpLoginResp
 		conn.resp.Transit = conn.loginParam.tgtTrans
-		conn.resp.CSG = conn.req.CSG
+		conn.resp.CSG = req.CSG
 		conn.resp.NSG = conn.loginParam.tgtNSG
-		conn.resp.ExpCmdSN = conn.req.CmdSN
-		conn.resp.MaxCmdSN = conn.req.CmdSN
-		if conn.req.CSG != SecurityNegotiation {
+		if req.CSG != SecurityNegotiation {
 			negoKeys, err := conn.processLoginData()
 			if err != nil {
 				return err
@@ -229,8 +229,8 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 			}
 			conn.resp.RawData = util.MarshalKVText(negoKeys)
 		}
-		conn.txTask = nil
 	}
+	conn.resp.StatSN = conn.nextStatSN()
 
 	return nil
 }
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index defa1ad..7a08819 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -18,11 +18,11 @@ package iscsit
 
 import (
 	"fmt"
+	"io"
 	"net"
 	"os"
 	"sort"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -48,7 +48,9 @@ const (
 var (
 	EnableStats   bool
 	CurrentHostIP string
-	IPMutex       sync.Mutex
+	// hostConnections is the number of open connections from CurrentHostIP
+	hostConnections int
+	IPMutex         sync.Mutex
 )
 
 type ISCSITargetDriver struct {
@@ -58,6 +60,7 @@ type ISCSITargetDriver struct {
 	TSIHPool               map[uint16]bool
 	TSIHPoolMutex          sync.Mutex
 	isClientConnected      bool
+	clients                int
 	enableStats            bool
 	mu                     *sync.RWMutex
 	l                      net.Listener
@@ -256,47 +259,62 @@ func (s *ISCSITargetDriver) Run(port int) error {
 			continue
 		}
 
-		remoteIP := strings.Split(conn.RemoteAddr().String(), ":")[0]
+		remoteIP, _, err := net.SplitHostPort(conn.RemoteAddr().String())
+		if err != nil {
+			log.Error(err)
+			conn.Close()
+			continue
+		}
 
 		IPMutex.Lock()
 		if CurrentHostIP == "" {
 			CurrentHostIP = remoteIP
 		}
+		currentIP := CurrentHostIP
+		if remoteIP == currentIP {
+			hostConnections++
+		}
 		IPMutex.Unlock()
 
-		if s.blockMultipleHostLogin && remoteIP != CurrentHostIP {
+		if s.blockMultipleHostLogin && remoteIP != currentIP {
 			conn.Close()
 			log.Infof("rejecting connection: %s target already connected at %s",
-				remoteIP, CurrentHostIP)
+				remoteIP, currentIP)
 			continue
 		}
 
 		log.Info("connection establishing at: ", conn.LocalAddr().String())
-		s.setClientStatus(true)
+		s.addClient(1)
 
 		iscsiConn := &iscsiConnection{conn: conn,
-			loginParam: &iscsiLoginParam{}}
+			currentHost: remoteIP == currentIP,
+			loginParam:  &iscsiLoginParam{}}
 
 		iscsiConn.init()
-		iscsiConn.rxIOState = IOSTATE_RX_BHS
 		log.Infof("Target is connected to initiator: %s", conn.RemoteAddr().String())
-		// start a new thread to do with this command
-		go s.handler(DATAIN, iscsiConn)
+		// start a new thread to serve this connection
+		go s.serve(iscsiConn)
 	}
 	return nil
 }
 
-func (s *ISCSITargetDriver) setClientStatus(ok bool) {
-	s.isClientConnected = ok
+// addClient counts the connections of initiators
+func (s *ISCSITargetDriver) addClient(n int) {
+	s.mu.Lock()
+	s.clients += n
+	s.isClientConnected = s.clients > 0
+	s.mu.Unlock()
 }
 
 func (s *ISCSITargetDriver) isInitiatorConnected() bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	return s.isClientConnected
 }
 func (s *ISCSITargetDriver) Close() error {
 	s.mu.Lock()
 	l := s.l
-	s.setClientStatus(false)
+	s.isClientConnected = false
 	s.mu.Unlock()
 	if l != nil {
 		s.setState(STATE_SHUTTING_DOWN)
@@ -321,161 +339,54 @@ func (s *ISCSITargetDriver) Resize(size uint64) error {
 	return s.SCSI.Resize(size)
 }
 
-func (s *ISCSITargetDriver) handler(events byte, conn *iscsiConnection) {
-
-	if events&DATAIN != 0 {
-		log.Debug("rx handler processing...")
-		go func() {
-			s.rxHandler(conn)
-			if conn.state == CONN_STATE_CLOSE {
-				log.Warningf("iscsi connection[%d] closed", conn.cid)
-				conn.close()
-				IPMutex.Lock()
-				remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-				if CurrentHostIP == remoteIP {
-					CurrentHostIP = ""
-				}
-				IPMutex.Unlock()
-			}
-		}()
+// serve handles a connection from its first PDU to its end
+func (s *ISCSITargetDriver) serve(conn *iscsiConnection) {
+	for conn.state != CONN_STATE_CLOSE {
+		s.rxHandler(conn)
 	}
-	if conn.state != CONN_STATE_CLOSE && events&DATAOUT != 0 {
-		log.Debug("tx handler processing...")
-		s.txHandler(conn)
+	log.Warningf("iscsi connection[%d] closed", conn.cid)
+	conn.close()
+	if conn.session != nil {
+		s.UnBindISCSISession(conn.session)
 	}
-	if conn.state == CONN_STATE_CLOSE {
-		log.Warningf("iscsi connection[%d] closed", conn.cid)
-		conn.close()
+	s.addClient(-1)
+	if conn.currentHost {
 		IPMutex.Lock()
-		remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-		if CurrentHostIP == remoteIP {
+		hostConnections--
+		if hostConnections == 0 {
 			CurrentHostIP = ""
 		}
 		IPMutex.Unlock()
 	}
+	close(conn.done)
 }
 
+// rxHandler reads the next PDU and does what it asks for
 func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
-	var (
-		hdigest uint = 0
-		ddigest uint = 0
-		final   bool = false
-		cmd     *ISCSICommand
-		buf     []byte = make([]byte, BHS_SIZE)
-		length  int
-		err     error
-	)
-	conn.readLock.Lock()
-	defer conn.readLock.Unlock()
-	if conn.state == CONN_STATE_SCSI {
-		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
-		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
-	}
-	for {
-		switch conn.rxIOState {
-		case IOSTATE_RX_BHS:
-			log.Debug("rx handler: IOSTATE_RX_BHS")
-			length, err = conn.readData(buf)
-			if err != nil {
-				log.Error("read BHS failed: ", err)
-				conn.state = CONN_STATE_CLOSE
-				return
-			}
-			if length == 0 {
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-				return
-			}
-			cmd, err = parseHeader(buf)
-			if err != nil {
-				log.Error(err)
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-				return
-			}
-			conn.req = cmd
-			if length == BHS_SIZE && cmd.DataLen != 0 {
-				conn.rxIOState = IOSTATE_RX_INIT_AHS
-				break
-			}
-			if log.GetLevel() == log.DebugLevel {
-				log.Debugf("got command: \n%s", cmd.String())
-				log.Debugf("got buffer: %v", buf)
-			}
-			final = true
-		case IOSTATE_RX_INIT_AHS:
-			conn.rxIOState = IOSTATE_RX_DATA
-			break
-			if hdigest != 0 {
-				conn.rxIOState = IOSTATE_RX_INIT_HDIGEST
-			}
-		case IOSTATE_RX_DATA:
-			if ddigest != 0 {
-				conn.rxIOState = IOSTATE_RX_INIT_DDIGEST
-			}
-			if cmd == nil {
-				return
-			}
-			dl := ((cmd.DataLen + DataPadding - 1) / DataPadding) * DataPadding
-			cmd.RawData = make([]byte, int(dl))
-			length := 0
-			for length < dl {
-				l, err := conn.readData(cmd.RawData[length:])
-				if err != nil {
-					log.Error("read data failed:", err)
-					conn.state = CONN_STATE_CLOSE
-					return
-				}
-				length += l
-			}
-			if length != dl {
-				log.Debugf("get length is %d, but expected %d", length, dl)
-				log.Warning("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-				return
-			}
-			final = true
-		default:
-			log.Errorf("error %d %d\n", conn.state, conn.rxIOState)
-			return
-		}
-
-		if final {
-			break
+	cmd, err := conn.readPDU()
+	if err != nil {
+		if err != io.EOF {
+			log.Error("read PDU failed: ", err)
 		}
+		conn.state = CONN_STATE_CLOSE
+		return
 	}
+	conn.req = cmd
 
-	if conn.state == CONN_STATE_SCSI {
-		s.scsiCommandHandler(conn)
-	} else {
-		conn.txIOState = IOSTATE_TX_BHS
-		conn.resp = &ISCSICommand{}
-		switch conn.req.OpCode {
-		case OpLoginReq:
-			log.Debug("OpLoginReq")
-			if err := s.iscsiExecLogin(conn); err != nil {
-				log.Error(err)
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-			}
-		case OpLogoutReq:
-			log.Debug("OpLogoutReq")
-			s.setClientStatus(false)
-			if err := iscsiExecLogout(conn); err != nil {
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-			}
-		case OpTextReq:
-			log.Debug("OpTextReq")
-			if err := s.iscsiExecText(conn); err != nil {
-				log.Warningf("set connection to close")
-				conn.state = CONN_STATE_CLOSE
-			}
-		default:
-			iscsiExecReject(conn)
+	switch conn.state {
+	case CONN_STATE_SCSI, CONN_STATE_FULL:
+		s.fullFeatureHandler(conn)
+	default:
+		if cmd.OpCode != OpLoginReq {
+			log.Errorf("%s before the login is complete", opCodeMap[cmd.OpCode])
+			conn.state = CONN_STATE_CLOSE
+			return
+		}
+		if err := s.iscsiExecLogin(conn); err != nil {
+			log.Error(err)
+			log.Warningf("set connection to close")
+			conn.state = CONN_STATE_CLOSE
 		}
-		log.Debugf("connection state is %v", conn.State())
-		s.handler(DATAOUT, conn)
 	}
 }
 
@@ -490,16 +401,20 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 	conn.loginParam.isid = cmd.ISID
 	conn.loginParam.tsih = cmd.TSIH
 	conn.expCmdSN = cmd.CmdSN
-	conn.maxBurstLength = MaxBurstLength
-	conn.maxRecvDataSegmentLength = MaxRecvDataSegmentLength
-	conn.maxSeqCount = conn.maxBurstLength / conn.maxRecvDataSegmentLength
+	if conn.state == CONN_STATE_FREE {
+		conn.statSN = cmd.ExpStatSN
+	}
 
 	if conn.loginParam.iniCSG == SecurityNegotiation {
 		if err := conn.processSecurityData(); err != nil {
 			return err
 		}
 		conn.state = CONN_STATE_LOGIN
-		return conn.buildRespPackage(OpLoginResp, nil)
+		if err := conn.buildRespPackage(OpLoginResp, nil); err != nil {
+			return err
+		}
+		s.txHandler(conn)
+		return nil
 	}
 
 	if _, err := conn.processLoginData(); err != nil {
@@ -520,41 +435,28 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 		conn.state = CONN_STATE_LOGIN
 	}
 
-	return conn.buildRespPackage(OpLoginResp, nil)
+	if err := conn.buildRespPackage(OpLoginResp, nil); err != nil {
+		return err
+	}
+	s.txHandler(conn)
+	return nil
 }
 
-func iscsiExecLogout(conn *iscsiConnection) error {
+// iscsiExecLogout answers a logout request, the connection ends with it
+func (s *ISCSITargetDriver) iscsiExecLogout(conn *iscsiConnection) {
 	log.Infof("Logout request received from initiator: %v", conn.conn.RemoteAddr().String())
-	cmd := conn.req
-	conn.resp = &ISCSICommand{
-		OpCode:  OpLogoutResp,
-		StatSN:  cmd.ExpStatSN,
-		TaskTag: cmd.TaskTag,
-	}
-	if conn.session == nil {
-		conn.resp.ExpCmdSN = cmd.CmdSN
-		conn.resp.MaxCmdSN = cmd.CmdSN
-	} else {
-		conn.resp.ExpCmdSN = conn.session.ExpCmdSN
-		conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand
-	}
-	IPMutex.Lock()
-	remoteIP := strings.Split(conn.conn.RemoteAddr().String(), ":")[0]
-	if CurrentHostIP == remoteIP {
-		CurrentHostIP = ""
-	}
-	IPMutex.Unlock()
-	return nil
+	conn.buildRespPackage(OpLogoutResp, nil)
+	s.txHandler(conn)
+	conn.state = CONN_STATE_CLOSE
 }
 
-func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
+func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) {
 	var result = []util.KeyValue{}
 	cmd := conn.req
 	keys := util.ParseKVText(cmd.RawData)
 	if st, ok := keys["SendTargets"]; ok {
 		if st == "All" {
 			s.mu.RLock()
-			defer s.mu.RUnlock()
 			for name, tgt := range s.iSCSITargets {
 				log.Debugf("iscsi target: %v", name)
 				//log.Debugf("iscsi target portals: %v", tgt.Portals)
@@ -583,58 +485,49 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) error {
 					}
 				}
 			}
+			s.mu.RUnlock()
 		}
 	}
 
-	conn.resp = &ISCSICommand{
-		OpCode:   OpTextResp,
-		Final:    true,
-		NSG:      FullFeaturePhase,
-		StatSN:   cmd.ExpStatSN,
-		TaskTag:  cmd.TaskTag,
-		ExpCmdSN: cmd.CmdSN,
-		MaxCmdSN: cmd.CmdSN,
-	}
+	conn.buildRespPackage(OpTextResp, nil)
 	conn.resp.RawData = util.MarshalKVText(result)
-	return nil
+	s.txHandler(conn)
 }
 
-func iscsiExecNoopOut(conn *iscsiConnection) error {
-	return conn.buildRespPackage(OpNoopIn, nil)
+func (s *ISCSITargetDriver) iscsiExecNoopOut(conn *iscsiConnection) {
+	// without a task tag it asks for no answer
+	if conn.req.TaskTag == 0xffffffff {
+		return
+	}
+	conn.buildRespPackage(OpNoopIn, nil)
+	if max := int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value); len(conn.resp.RawData) > max {
+		conn.resp.RawData = conn.resp.RawData[:max]
+	}
+	s.txHandler(conn)
 }
 
-func iscsiExecReject(conn *iscsiConnection) error {
-	return conn.buildRespPackage(OpReject, nil)
+// iscsiExecReject tells the initiator that its request is not served
+func (s *ISCSITargetDriver) iscsiExecReject(conn *iscsiConnection, reason byte) {
+	conn.buildRespPackage(OpReject, nil)
+	conn.resp.Result = reason
+	conn.resp.RawData = conn.req.RawHeader
+	s.txHandler(conn)
 }
 
-func iscsiExecR2T(conn *iscsiConnection) error {
-	return conn.buildRespPackage(OpReady, nil)
+// iscsiExecR2T asks for the next burst of the data of a write
+func (s *ISCSITargetDriver) iscsiExecR2T(conn *iscsiConnection, task *iscsiTask) {
+	task.burstEnd = int(task.cmd.ExpectedDataLen)
+	if burst := int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value); task.burstEnd-task.offset > burst {
+		task.burstEnd = task.offset + burst
+	}
+	conn.buildRespPackage(OpReady, task)
+	task.r2tSN++
+	s.txHandler(conn)
 }
 
+// txHandler sends the response of the connection
 func (s *ISCSITargetDriver) txHandler(conn *iscsiConnection) {
-	var (
-		hdigest uint   = 0
-		ddigest uint   = 0
-		offset  uint32 = 0
-		final   bool   = false
-		count   uint32 = 0
-	)
-	if conn.state == CONN_STATE_SCSI {
-		hdigest = conn.loginParam.sessionParam[ISCSI_PARAM_HDRDGST_EN].Value & DIGEST_CRC32C
-		ddigest = conn.loginParam.sessionParam[ISCSI_PARAM_DATADGST_EN].Value & DIGEST_CRC32C
-	}
-	if conn.state == CONN_STATE_SCSI && conn.txTask == nil {
-		err := s.scsiCommandHandler(conn)
-		if err != nil {
-			log.Error(err)
-			return
-		}
-	}
 	resp := conn.resp
-	segmentLen := conn.maxRecvDataSegmentLength
-	transferLen := len(resp.RawData)
-	resp.DataSN = 0
-	maxCount := conn.maxSeqCount
 
 	if s.enableStats {
 		if resp.OpCode == OpSCSIResp || resp.OpCode == OpSCSIIn {
@@ -642,379 +535,259 @@ func (s *ISCSITargetDriver) txHandler(conn *iscsiConnection) {
 		}
 	}
 
-	/* send data splitted by segmentLen */
-SendRemainingData:
-	if resp.OpCode == OpSCSIIn {
-		resp.BufferOffset = offset
-		if int(offset+segmentLen) < transferLen {
-			count += 1
-			if count < maxCount {
-				resp.FinalInSeq = false
-				resp.Final = false
-			} else {
-				count = 0
-				resp.FinalInSeq = true
-				resp.Final = false
-			}
-			offset = offset + segmentLen
-			resp.DataLen = int(segmentLen)
-		} else {
-			resp.FinalInSeq = true
-			resp.Final = true
-			resp.DataLen = transferLen - int(offset)
-		}
-	}
+	/* send data splitted by the segment and the burst length of the initiator */
+	var (
+		transferLen = len(resp.RawData)
+		segmentLen  = int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value) &^ (DataPadding - 1)
+		burstLen    = int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value)
+		burst       = burstLen
+	)
 	for {
-		switch conn.txIOState {
-		case IOSTATE_TX_BHS:
-			if log.GetLevel() == log.DebugLevel {
-				log.Debug("ready to write response")
-				log.Debugf("response is %s", resp.String())
+		if resp.OpCode == OpSCSIIn {
+			resp.DataLen = transferLen - int(resp.BufferOffset)
+			if resp.DataLen > segmentLen {
+				resp.DataLen = segmentLen
 			}
-			if l, err := conn.write(resp.Bytes()); err != nil {
-				log.Errorf("failed to write data to client: %v", err)
-				return
-			} else {
-				conn.txIOState = IOSTATE_TX_INIT_AHS
-				log.Debugf("success to write %d length", l)
+			if resp.DataLen > burst {
+				resp.DataLen = burst
 			}
-		case IOSTATE_TX_INIT_AHS:
-			if hdigest != 0 {
-				conn.txIOState = IOSTATE_TX_INIT_HDIGEST
-			} else {
-				conn.txIOState = IOSTATE_TX_INIT_DATA
+			burst -= resp.DataLen
+			resp.Final = int(resp.BufferOffset)+resp.DataLen == transferLen
+			resp.FinalInSeq = resp.Final || burst == 0
+			if burst == 0 {
+				burst = burstLen
 			}
-			if conn.txIOState != IOSTATE_TX_AHS {
-				final = true
-			}
-		case IOSTATE_TX_AHS:
-		case IOSTATE_TX_INIT_DATA:
-			final = true
-		case IOSTATE_TX_DATA:
-			if ddigest != 0 {
-				conn.txIOState = IOSTATE_TX_INIT_DDIGEST
-			}
-		default:
-			log.Errorf("error %d %d\n", conn.state, conn.txIOState)
+		}
+		if log.GetLevel() == log.DebugLevel {
+			log.Debugf("response is %s", resp.String())
+		}
+		if _, err := conn.write(resp.Bytes()); err != nil {
+			log.Errorf("failed to write data to client: %v", err)
+			conn.state = CONN_STATE_CLOSE
 			return
 		}
-
-		if final {
-			if resp.OpCode == OpSCSIIn && resp.Final != true {
-				resp.DataSN++
-				conn.txIOState = IOSTATE_TX_BHS
-				goto SendRemainingData
-			} else {
-				break
-			}
+		if resp.OpCode != OpSCSIIn || resp.Final {
+			break
 		}
+		resp.DataSN++
+		resp.BufferOffset += uint32(resp.DataLen)
 	}
 
 	log.Debugf("connection state: %v", conn.State())
-	switch conn.state {
-	case CONN_STATE_CLOSE, CONN_STATE_EXIT:
-		conn.state = CONN_STATE_CLOSE
-	case CONN_STATE_SECURITY_LOGIN:
-		conn.state = CONN_STATE_LOGIN
-	case CONN_STATE_LOGIN:
-		conn.rxIOState = IOSTATE_RX_BHS
-		s.handler(DATAIN, conn)
-	case CONN_STATE_SECURITY_FULL, CONN_STATE_LOGIN_FULL:
+	if conn.state == CONN_STATE_LOGIN_FULL {
 		if conn.session.SessionType == SESSION_NORMAL {
-			conn.state = CONN_STATE_KERNEL
 			conn.state = CONN_STATE_SCSI
 		} else {
 			conn.state = CONN_STATE_FULL
 		}
-		conn.rxIOState = IOSTATE_RX_BHS
-		s.handler(DATAIN, conn)
-	case CONN_STATE_SCSI:
-		conn.txTask = nil
+	}
+}
+
+// fullFeatureHandler acts on a PDU received after the login. Requests are
+// executed in the order of their CmdSN: those that come early wait for the
+// missing ones, duplicates and those outside the command window are ignored.
+func (s *ISCSITargetDriver) fullFeatureHandler(conn *iscsiConnection) {
+	req := conn.req
+	sess := conn.session
+	switch req.OpCode {
+	case OpSCSICmd, OpSCSITaskReq, OpNoopOut, OpTextReq, OpLogoutReq:
+	case OpSCSIOut:
+		s.dataOutHandler(conn)
+		return
+	case OpLoginReq:
+		s.iscsiExecReject(conn, ISCSI_REASON_PROTOCOL_ERROR)
+		return
 	default:
-		log.Warnf("unexpected connection state: %v", conn.State())
-		conn.rxIOState = IOSTATE_RX_BHS
-		s.handler(DATAIN, conn)
+		log.Errorf("Unknown op %s", opCodeMap[req.OpCode])
+		s.iscsiExecReject(conn, ISCSI_REASON_CMD_NOT_SUPPORTED)
+		return
+	}
+
+	if req.Immediate {
+		s.iscsiExecRequest(conn)
+		return
+	}
+	if ahead := req.CmdSN - sess.ExpCmdSN; ahead != 0 {
+		if _, ok := sess.Waiting[req.CmdSN]; ok || ahead > sess.MaxQueueCommand {
+			log.Errorf("unexpected cmd serial number: (%d, %d)", req.CmdSN, sess.ExpCmdSN)
+			return
+		}
+		sess.Waiting[req.CmdSN] = req
+		return
+	}
+	for req != nil && conn.state != CONN_STATE_CLOSE {
+		conn.req = req
+		sess.ExpCmdSN++
+		s.iscsiExecRequest(conn)
+		req = sess.Waiting[sess.ExpCmdSN]
+		delete(sess.Waiting, sess.ExpCmdSN)
 	}
 }
 
-func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) (err error) {
+func (s *ISCSITargetDriver) iscsiExecRequest(conn *iscsiConnection) {
 	req := conn.req
+	if conn.state != CONN_STATE_SCSI && (req.OpCode == OpSCSICmd || req.OpCode == OpSCSITaskReq) {
+		log.Errorf("%s in a discovery session", opCodeMap[req.OpCode])
+		s.iscsiExecReject(conn, ISCSI_REASON_PROTOCOL_ERROR)
+		return
+	}
 	switch req.OpCode {
 	case OpSCSICmd:
-		log.Debugf("SCSI Command processing...")
-		scmd := &api.SCSICommand{
-			ITNexusID:       conn.session.ITNexus.ID,
-			SCB:             req.CDB,
-			SCBLength:       len(req.CDB),
-			Lun:             req.LUN,
-			Tag:             uint64(req.TaskTag),
-			RelTargetPortID: conn.session.TPGT,
-		}
-		if req.Read {
-			if req.Write {
-				scmd.Direction = api.SCSIDataBidirection
-			} else {
-				scmd.Direction = api.SCSIDataRead
-			}
-		} else {
-			if req.Write {
-				scmd.Direction = api.SCSIDataWrite
-			}
-		}
+		s.scsiCommandHandler(conn)
+	case OpSCSITaskReq:
+		s.taskManagementHandler(conn)
+	case OpNoopOut:
+		s.iscsiExecNoopOut(conn)
+	case OpTextReq:
+		s.iscsiExecText(conn)
+	case OpLogoutReq:
+		s.iscsiExecLogout(conn)
+	}
+}
 
-		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: scmd}
-		task.scmd.OpCode = conn.req.SCSIOpCode
-		if scmd.Direction == api.SCSIDataBidirection {
-			task.scmd.Result = api.SAMStatCheckCondition.Stat
-			scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.NO_ADDITIONAL_SENSE)
-			conn.buildRespPackage(OpSCSIResp, task)
-			conn.rxTask = nil
-			break
-		}
+func (s *ISCSITargetDriver) scsiCommandHandler(conn *iscsiConnection) {
+	log.Debugf("SCSI Command processing...")
+	req := conn.req
+	if conn.session.PendingTasks.GetByTag(req.TaskTag) != nil {
+		log.Errorf("task tag %x is in use", req.TaskTag)
+		s.iscsiExecReject(conn, ISCSI_REASON_TASK_IN_PROGRESS)
+		return
+	}
+	scmd := &api.SCSICommand{
+		ITNexusID:       conn.session.ITNexus.ID,
+		SCB:             req.CDB,
+		SCBLength:       len(req.CDB),
+		Lun:             req.LUN,
+		Tag:             uint64(req.TaskTag),
+		RelTargetPortID: conn.session.TPGT,
+	}
+	if req.Read {
 		if req.Write {
-			task.r2tCount = int(req.ExpectedDataLen) - req.DataLen
-			task.expectedDataLength = int64(req.ExpectedDataLen)
-			if !req.Final {
-				task.unsolCount = 1
-			}
-			// new buffer for the data out
-			if scmd.OutSDBBuffer == nil {
-				blen := int(req.ExpectedDataLen)
-				if blen == 0 {
-					blen = int(req.DataLen)
-				}
-				scmd.OutSDBBuffer = &api.SCSIDataBuffer{
-					Length: uint32(blen),
-					Buffer: make([]byte, blen),
-				}
-			}
-			log.Debugf("SCSI write, R2T count: %d, unsol Count: %d, offset: %d", task.r2tCount, task.unsolCount, task.offset)
-
-			if conn.session.SessionParam[ISCSI_PARAM_IMM_DATA_EN].Value == 1 {
-				copy(scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
-				task.offset += conn.req.DataLen
-			}
-			if task.r2tCount > 0 {
-				// prepare to receive more data
-				conn.session.ExpCmdSN += 1
-				task.state = taskPending
-				conn.session.PendingTasksMutex.Lock()
-				conn.session.PendingTasks.Push(task)
-				conn.session.PendingTasksMutex.Unlock()
-				conn.rxTask = task
-				if conn.session.SessionParam[ISCSI_PARAM_INITIAL_R2T_EN].Value == 1 {
-					iscsiExecR2T(conn)
-					break
-				} else {
-					log.Debugf("Not ready to exec the task")
-					conn.rxIOState = IOSTATE_RX_BHS
-					s.handler(DATAIN, conn)
-					return nil
-				}
-			}
-		} else if scmd.InSDBBuffer == nil {
-			scmd.InSDBBuffer = &api.SCSIDataBuffer{
-				Length: uint32(req.ExpectedDataLen),
-				Buffer: make([]byte, int(req.ExpectedDataLen)),
-			}
-		}
-		task.offset = 0
-		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
-			if task.state == taskPending {
-				s.handler(DATAIN, conn)
-				err = nil
-			}
-			return
+			scmd.Direction = api.SCSIDataBidirection
 		} else {
-			if scmd.Direction == api.SCSIDataRead && scmd.SenseBuffer == nil && req.ExpectedDataLen != 0 {
-				conn.buildRespPackage(OpSCSIIn, task)
-			} else {
-				conn.buildRespPackage(OpSCSIResp, task)
-			}
-			conn.rxTask = nil
+			scmd.Direction = api.SCSIDataRead
 		}
-	case OpSCSITaskReq:
-		// task management function
-		task := &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag, scmd: nil}
-		conn.rxTask = task
-		if err = s.iscsiTaskQueueHandler(task); err != nil {
-			return
+	} else {
+		if req.Write {
+			scmd.Direction = api.SCSIDataWrite
 		}
-	case OpSCSIOut:
-		log.Debugf("iSCSI Data-out processing...")
-		conn.session.PendingTasksMutex.RLock()
-		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
-		conn.session.PendingTasksMutex.RUnlock()
-		if task == nil {
-			err = fmt.Errorf("Cannot find iSCSI task with tag[%v]", conn.req.TaskTag)
-			log.Error(err)
-			return
+	}
+
+	task := &iscsiTask{conn: conn, cmd: req, tag: req.TaskTag, scmd: scmd}
+	task.scmd.OpCode = req.SCSIOpCode
+	if scmd.Direction == api.SCSIDataBidirection {
+		scsi.BuildSenseData(task.scmd, scsi.ILLEGAL_REQUEST, scsi.NO_ADDITIONAL_SENSE)
+		task.scmd.Result = api.SAMStatCheckCondition.Stat
+		conn.buildRespPackage(OpSCSIResp, task)
+		s.txHandler(conn)
+		return
+	}
+	if req.Write {
+		// new buffer for the data out
+		scmd.OutSDBBuffer = &api.SCSIDataBuffer{
+			Length: req.ExpectedDataLen,
+			Buffer: req.RawData,
 		}
-		copy(task.scmd.OutSDBBuffer.Buffer[task.offset:], conn.req.RawData)
-		task.offset += conn.req.DataLen
-		task.r2tCount = task.r2tCount - conn.req.DataLen
-		log.Debugf("Final: %v", conn.req.Final)
-		log.Debugf("r2tCount: %v", task.r2tCount)
-		if !conn.req.Final {
-			log.Debugf("Not ready to exec the task")
-			conn.rxIOState = IOSTATE_RX_BHS
-			s.handler(DATAIN, conn)
-			return nil
-		} else if task.r2tCount > 0 {
-			// prepare to receive more data
-			if task.unsolCount == 0 {
-				task.r2tSN += 1
-			} else {
-				task.r2tSN = 0
-				task.unsolCount = 0
-			}
-			conn.rxTask = task
-			iscsiExecR2T(conn)
-			break
+		if uint32(len(req.RawData)) > req.ExpectedDataLen {
+			scmd.OutSDBBuffer.Buffer = req.RawData[:req.ExpectedDataLen]
 		}
-		task.offset = 0
-		log.Debugf("Process the Data-out package")
-		conn.rxTask = task
-		if err = s.iscsiExecTask(task); err != nil {
+		task.offset = len(scmd.OutSDBBuffer.Buffer)
+		if task.offset < int(req.ExpectedDataLen) {
+			// prepare to receive more data
+			conn.session.PendingTasks.Push(task)
+			s.iscsiExecR2T(conn, task)
 			return
-		} else {
-			conn.buildRespPackage(OpSCSIResp, task)
-			conn.rxTask = nil
-			conn.session.PendingTasksMutex.Lock()
-			conn.session.PendingTasks.RemoveByTag(conn.req.TaskTag)
-			conn.session.PendingTasksMutex.Unlock()
 		}
-	case OpNoopOut:
-		iscsiExecNoopOut(conn)
-	case OpLogoutReq:
-		s.setClientStatus(false)
-		conn.txTask = &iscsiTask{conn: conn, cmd: conn.req, tag: conn.req.TaskTag}
-		conn.txIOState = IOSTATE_TX_BHS
-		iscsiExecLogout(conn)
-	case OpTextReq, OpSNACKReq:
-		err = fmt.Errorf("Cannot handle yet %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
+	} else {
+		scmd.InSDBBuffer = &api.SCSIDataBuffer{
+			Length: req.ExpectedDataLen,
+		}
+	}
+	s.iscsiExecTask(conn, task)
+}
+
+// dataOutHandler takes the data a R2T asked for. Data for tasks that are gone
+// is dropped; data nobody asked for ends the connection.
+func (s *ISCSITargetDriver) dataOutHandler(conn *iscsiConnection) {
+	log.Debugf("iSCSI Data-out processing...")
+	req := conn.req
+	task := conn.session.PendingTasks.GetByTag(req.TaskTag)
+	if task == nil {
+		log.Errorf("Cannot find iSCSI task with tag[%v]", req.TaskTag)
 		return
-	default:
-		err = fmt.Errorf("Unknown op %s", opCodeMap[conn.req.OpCode])
-		log.Error(err)
+	}
+	if int64(req.BufferOffset) != int64(task.offset) || len(req.RawData) > task.burstEnd-task.offset {
+		log.Errorf("unexpected data of task[%v]: %d bytes at %d, expected up to %d at %d", req.TaskTag,
+			len(req.RawData), req.BufferOffset, task.burstEnd-task.offset, task.offset)
+		conn.state = CONN_STATE_CLOSE
 		return
 	}
-	conn.rxIOState = IOSTATE_RX_BHS
-	s.handler(DATAIN|DATAOUT, conn)
-	return nil
+	task.scmd.OutSDBBuffer.Buffer = append(task.scmd.OutSDBBuffer.Buffer, req.RawData...)
+	task.offset += len(req.RawData)
+	if !req.Final {
+		log.Debugf("Not ready to exec the task")
+		return
+	}
+	if task.offset < int(task.cmd.ExpectedDataLen) {
+		s.iscsiExecR2T(conn, task)
+		return
+	}
+	conn.session.PendingTasks.RemoveByTag(req.TaskTag)
+	s.iscsiExecTask(conn, task)
 }
 
-func (s *ISCSITargetDriver) iscsiTaskQueueHandler(task *iscsiTask) error {
-	conn := task.conn
-	sess := conn.session
-	cmd := task.cmd
-	if cmd.Immediate {
-		return s.iscsiExecTask(task)
+// iscsiExecTask executes a SCSI command that has all its data and responds to it
+func (s *ISCSITargetDriver) iscsiExecTask(conn *iscsiConnection, task *iscsiTask) {
+	scmd := task.scmd
+	// add scsi target process queue
+	if err := s.SCSI.AddCommandQueue(conn.session.Target.SCSITarget.TID, scmd); err != nil {
+		log.Error(err)
+		scsi.BuildSenseData(scmd, scsi.ILLEGAL_REQUEST, scsi.ASC_LUN_NOT_SUPPORTED)
+		scmd.Result = api.SAMStatCheckCondition.Stat
 	}
-	cmdsn := cmd.CmdSN
-	log.Debugf("CmdSN of command is %d", cmdsn)
-	if cmdsn == sess.ExpCmdSN {
-	retry:
-		cmdsn += 1
-		sess.ExpCmdSN = cmdsn
-		log.Debugf("session's ExpCmdSN is %d", cmdsn)
-
-		log.Debugf("process task(%d)", task.cmd.CmdSN)
-		if err := s.iscsiExecTask(task); err != nil {
-			log.Error(err)
-		}
-		sess.PendingTasksMutex.Lock()
-		if sess.PendingTasks.Len() == 0 {
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task = sess.PendingTasks.Pop()
-		cmd = task.cmd
-		if cmd.CmdSN != cmdsn {
-			sess.PendingTasks.Push(task)
-			sess.PendingTasksMutex.Unlock()
-			return nil
-		}
-		task.state = taskSCSI
-		sess.PendingTasksMutex.Unlock()
-		goto retry
+	if scmd.Direction == api.SCSIDataRead && scmd.Result == api.SAMStatGood.Stat &&
+		scmd.InSDBBuffer.Resid != 0 && task.cmd.ExpectedDataLen != 0 {
+		conn.buildRespPackage(OpSCSIIn, task)
 	} else {
-		if cmd.CmdSN < sess.ExpCmdSN {
-			err := fmt.Errorf("unexpected cmd serial number: (%d, %d)", cmd.CmdSN, sess.ExpCmdSN)
-			log.Error(err)
-			return err
-		}
-		log.Debugf("add task(%d) into task queue", task.cmd.CmdSN)
-		// add this task into queue and set it as a pending task
-		sess.PendingTasksMutex.Lock()
-		task.state = taskPending
-		sess.PendingTasks.Push(task)
-		sess.PendingTasksMutex.Unlock()
-		return fmt.Errorf("pending")
+		conn.buildRespPackage(OpSCSIResp, task)
 	}
-
-	return nil
+	s.txHandler(conn)
 }
 
-func (s *ISCSITargetDriver) iscsiExecTask(task *iscsiTask) error {
-	cmd := task.cmd
-	switch cmd.OpCode {
-	case OpSCSICmd, OpSCSIOut:
-		task.state = taskSCSI
-		// add scsi target process queue
-		err := s.SCSI.AddCommandQueue(task.conn.session.Target.SCSITarget.TID, task.scmd)
-		if err != nil {
-			task.state = 0
-		}
-		return err
-	case OpLogoutReq:
-
-	case OpNoopOut:
-		// just do it in iscsi layer
-	case OpSCSITaskReq:
-		sess := task.conn.session
-		switch cmd.TaskFunc {
-		case ISCSI_TM_FUNC_ABORT_TASK:
-			sess.PendingTasksMutex.Lock()
-			stask := sess.PendingTasks.RemoveByTag(cmd.ReferencedTaskTag)
-			sess.PendingTasksMutex.Unlock()
-			if stask == nil {
-				task.result = ISCSI_TMF_RSP_NO_TASK
-			} else {
-				// abort this task
-				log.Debugf("abort the task[%v]", stask.tag)
-				if stask.scmd == nil {
-					stask.scmd = &api.SCSICommand{Result: api.SAM_STAT_TASK_ABORTED}
-				}
-				stask.conn = task.conn
-				log.Debugf("stask.conn: %#v", stask.conn)
-				stask.conn.buildRespPackage(OpSCSIResp, stask)
-				stask.conn.rxTask = nil
-				s.handler(DATAOUT, stask.conn)
-				task.result = ISCSI_TMF_RSP_COMPLETE
-			}
-		case ISCSI_TM_FUNC_ABORT_TASK_SET:
-		case ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
-		case ISCSI_TM_FUNC_CLEAR_ACA:
-			fallthrough
-		case ISCSI_TM_FUNC_CLEAR_TASK_SET:
-			fallthrough
-		case ISCSI_TM_FUNC_TARGET_WARM_RESET, ISCSI_TM_FUNC_TARGET_COLD_RESET, ISCSI_TM_FUNC_TASK_REASSIGN:
-			task.result = ISCSI_TMF_RSP_NOT_SUPPORTED
-		default:
-			task.result = ISCSI_TMF_RSP_REJECTED
-		}
-		// return response to initiator
-		return task.conn.buildRespPackage(OpSCSITaskResp, task)
+// taskManagementHandler executes a task management function. Commands are
+// executed as soon as they have all their data, so that the tasks that can be
+// aborted are those waiting for data, or for the commands before them.
+func (s *ISCSITargetDriver) taskManagementHandler(conn *iscsiConnection) {
+	req := conn.req
+	sess := conn.session
+	task := &iscsiTask{conn: conn, cmd: req, tag: req.TaskTag}
+	switch req.TaskFunc {
+	case ISCSI_TM_FUNC_ABORT_TASK:
+		task.result = ISCSI_TMF_RSP_NO_TASK
+		if sess.abortTasks(func(cmd *ISCSICommand) bool { return cmd.TaskTag == req.ReferencedTaskTag }) {
+			task.result = ISCSI_TMF_RSP_COMPLETE
+		}
+	case ISCSI_TM_FUNC_ABORT_TASK_SET, ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
+		sess.abortTasks(func(cmd *ISCSICommand) bool { return cmd.LUN == req.LUN && int32(cmd.CmdSN-req.CmdSN) < 0 })
+		task.result = ISCSI_TMF_RSP_COMPLETE
+	case ISCSI_TM_FUNC_CLEAR_ACA:
+		fallthrough
+	case ISCSI_TM_FUNC_CLEAR_TASK_SET:
+		fallthrough
+	case ISCSI_TM_FUNC_TARGET_WARM_RESET, ISCSI_TM_FUNC_TARGET_COLD_RESET, ISCSI_TM_FUNC_TASK_REASSIGN:
+		task.result = ISCSI_TMF_RSP_NOT_SUPPORTED
+	default:
+		task.result = ISCSI_TMF_RSP_REJECTED
 	}
-	return nil
+	// return response to initiator
+	conn.buildRespPackage(OpSCSITaskResp, task)
+	s.txHandler(conn)
 }
 
 func (s *ISCSITargetDriver) Stats() scsi.Stats {
 	s.mu.RLock()
 	stats := s.TargetStats
+	stats.IsClientConnected = s.isClientConnected
 	stats.SCSIIOCount = map[int]int64{}
 	for key, value := range s.TargetStats.SCSIIOCount {
 		stats.SCSIIOCount[key] = value
diff --git a/pkg/port/iscsit/iscsit.go b/pkg/port/iscsit/iscsit.go
index c2210f9..b92d48b 100644
--- a/pkg/port/iscsit/iscsit.go
+++ b/pkg/port/iscsit/iscsit.go
@@ -27,32 +27,11 @@ import (
 
 const iSCSIDriverName = "iscsi"
 
+// Reasons of a Reject
 const (
-	IOSTATE_FREE = iota
-
-	IOSTATE_RX_BHS
-	IOSTATE_RX_INIT_AHS
-	IOSTATE_RX_AHS
-	IOSTATE_RX_INIT_HDIGEST
-	IOSTATE_RX_HDIGEST
-	IOSTATE_RX_CHECK_HDIGEST
-	IOSTATE_RX_INIT_DATA
-	IOSTATE_RX_DATA
-	IOSTATE_RX_INIT_DDIGEST
-	IOSTATE_RX_DDIGEST
-	IOSTATE_RX_CHECK_DDIGEST
-	IOSTATE_RX_END
-
-	IOSTATE_TX_BHS
-	IOSTATE_TX_INIT_AHS
-	IOSTATE_TX_AHS
-	IOSTATE_TX_INIT_HDIGEST
-	IOSTATE_TX_HDIGEST
-	IOSTATE_TX_INIT_DATA
-	IOSTATE_TX_DATA
-	IOSTATE_TX_INIT_DDIGEST
-	IOSTATE_TX_DDIGEST
-	IOSTATE_TX_END
+	ISCSI_REASON_PROTOCOL_ERROR    byte = 0x04
+	ISCSI_REASON_CMD_NOT_SUPPORTED byte = 0x05
+	ISCSI_REASON_TASK_IN_PROGRESS  byte = 0x07
 )
 
 var ISCSI_OPCODE_MASK byte = 0x3F
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 22645b4..075ff34 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -251,41 +251,23 @@ type ISCSISession struct {
 	// currently, this is only one connection per session
 	Connections        map[uint16]*iscsiConnection
 	ConnectionsRWMutex sync.RWMutex
-	Commands           []*ISCSICommand
-	PendingTasks       taskQueue
-	PendingTasksMutex  sync.RWMutex
-	MaxQueueCommand    uint32
-	SessionParam       ISCSISessionParamList
-	Info               string
-	Rdma               int
+	// requests that came before those with a lower CmdSN, by CmdSN
+	Waiting map[uint32]*ISCSICommand
+	// writes that wait for their data
+	PendingTasks    taskQueue
+	MaxQueueCommand uint32
+	SessionParam    ISCSISessionParamList
+	Info            string
+	Rdma            int
 }
 
 type taskQueue []*iscsiTask
 
-func (tq taskQueue) Len() int { return len(tq) }
-
-func (tq taskQueue) Less(i, j int) bool {
-	// We want Pop to give us the highest, not lowest, priority so we use greater than here.
-	return tq[i].cmd.CmdSN > tq[j].cmd.CmdSN
-}
-
-func (tq taskQueue) Swap(i, j int) {
-	tq[i], tq[j] = tq[j], tq[i]
-}
-
 func (tq *taskQueue) Push(x *iscsiTask) {
 	item := x
 	*tq = append(*tq, item)
 }
 
-func (tq *taskQueue) Pop() *iscsiTask {
-	old := *tq
-	n := len(old)
-	item := old[n-1]
-	*tq = old[0 : n-1]
-	return item
-}
-
 func (tq taskQueue) GetByTag(tag uint32) *iscsiTask {
 	for _, t := range tq {
 		if t.tag == tag {
@@ -306,44 +288,49 @@ func (tq *taskQueue) RemoveByTag(tag uint32) *iscsiTask {
 	return nil
 }
 
+// LookupISCSISession returns the session of the target with this initiator, ISID and
+// portal group, and this TSIH unless it is unspecified
 func (s *ISCSITargetDriver) LookupISCSISession(tgtName string, iniName string, isid uint64, tsih uint16, tpgt uint16) *ISCSISession {
-	var (
-		tgt  *ISCSITarget
-		sess *ISCSISession
-		ok   bool
-	)
-	tgt = s.findTarget(tgtName)
+	tgt := s.findTarget(tgtName)
 	if tgt == nil {
 		return nil
 	}
 	tgt.SessionsRWMutex.RLock()
 	defer tgt.SessionsRWMutex.RUnlock()
-	sess, ok = tgt.Sessions[tsih]
-	if !ok {
+	sess := tgt.lookupSession(iniName, isid, tpgt)
+	if sess == nil || (tsih != ISCSI_UNSPEC_TSIH && sess.TSIH != tsih) {
 		return nil
 	}
-	if (sess.ISID == isid) && (sess.TPGT == tpgt) {
-		return sess
+	return sess
+}
+
+// lookupSession finds a session, with SessionsRWMutex held
+func (tgt *ISCSITarget) lookupSession(iniName string, isid uint64, tpgt uint16) *ISCSISession {
+	for _, sess := range tgt.Sessions {
+		if sess.Initiator == iniName && sess.ISID == isid && sess.TPGT == tpgt {
+			return sess
+		}
 	}
 	return nil
 }
 
+// UnBindISCSISession ends a session and gives back what it had
 func (s *ISCSITargetDriver) UnBindISCSISession(sess *ISCSISession) {
-	target := sess.Target
-	target.SessionsRWMutex.Lock()
-	defer target.SessionsRWMutex.Unlock()
-	delete(target.Sessions, sess.TSIH)
-	scsi.RemoveITNexus(sess.Target.SCSITarget, sess.ITNexus)
+	if target := sess.Target; target != nil {
+		scsi.RemoveITNexus(target.SCSITarget, sess.ITNexus)
+		target.SessionsRWMutex.Lock()
+		delete(target.Sessions, sess.TSIH)
+		target.SessionsRWMutex.Unlock()
+	}
+	s.ReleaseTSIH(sess.TSIH)
 }
 
 func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	var (
-		target    *ISCSITarget
-		existSess *ISCSISession
-		existConn *iscsiConnection
-		newSess   *ISCSISession
-		tpgt      uint16
-		err       error
+		target  *ISCSITarget
+		newSess *ISCSISession
+		tpgt    uint16
+		err     error
 	)
 
 	//Find TPGT and Target ID
@@ -365,71 +352,47 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 		conn.tid = target.TID
 	}
 
-	existSess = s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
-		conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt)
-	if existSess != nil {
-		existConn = existSess.LookupConnection(conn.cid)
-	}
-
-	if conn.loginParam.sessionType == SESSION_DISCOVERY &&
-		conn.loginParam.tsih != ISCSI_UNSPEC_TSIH &&
-		existSess != nil {
+	if conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
+		// there is one connection per session, none can be added
+		if s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
+			conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt) == nil {
+			return fmt.Errorf("initiator err, no session")
+		}
 		return fmt.Errorf("initiator err, invalid request")
 	}
 
-	if existSess == nil && conn.loginParam.tsih != 0 &&
-		existSess.TSIH != conn.loginParam.tsih {
-		return fmt.Errorf("initiator err, no session")
+	newSess, err = s.NewISCSISession(conn)
+	if err != nil {
+		return err
 	}
 
-	if existSess == nil {
-		newSess, err = s.NewISCSISession(conn)
-		if err != nil {
-			return err
-		}
+	if newSess.SessionType == SESSION_DISCOVERY {
+		log.Infof("Discovery request received from initiator: %v, Session type: %s, ISID: 0x%x",
+			conn.loginParam.initiator, "Discovery", conn.loginParam.isid)
+		conn.session = newSess
+		return nil
+	}
 
-		if newSess.SessionType == SESSION_NORMAL {
-			log.Infof("Login request received from initiator: %v, Session type: %s, Target name:%v, ISID: 0x%x",
-				conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
-			//register normal session
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
-			newSess.ITNexus = itnexus
-			conn.session = newSess
-
-			newSess.Target.SessionsRWMutex.Lock()
-			newSess.Target.Sessions[newSess.TSIH] = newSess
-			newSess.Target.SessionsRWMutex.Unlock()
-		} else {
-			log.Infof("Discovery request received from initiator: %v, Session type: %s, ISID: 0x%x",
-				conn.loginParam.initiator, "Discovery", conn.loginParam.isid)
-			conn.session = newSess
-		}
-	} else {
-		if conn.loginParam.tsih == ISCSI_UNSPEC_TSIH {
-			log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-				conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-			newSess, err = s.ReInstatement(existConn.session, conn)
-			if err != nil {
-				return err
-			}
-
-			itnexus := &api.ITNexus{uuid.NewV1(), GeniSCSIITNexusID(newSess)}
-			scsi.AddITNexus(newSess.Target.SCSITarget, itnexus)
-			newSess.ITNexus = itnexus
-			conn.session = newSess
-
-			newSess.Target.SessionsRWMutex.Lock()
-			newSess.Target.Sessions[newSess.TSIH] = newSess
-			newSess.Target.SessionsRWMutex.Unlock()
-		} else {
-			if existConn != nil {
-				log.Infof("Connection Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
-					conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
-				existConn.ReInstatement(conn)
-			}
+	log.Infof("Login request received from initiator: %v, Session type: %s, Target name:%v, ISID: 0x%x",
+		conn.loginParam.initiator, "Normal", conn.loginParam.target, conn.loginParam.isid)
+	//register normal session
+	name := GeniSCSIITNexusID(newSess)
+	newSess.ITNexus = &api.ITNexus{uuid.NewV5(uuid.NamespaceOID, name), name}
+	for {
+		target.SessionsRWMutex.Lock()
+		existSess := target.lookupSession(newSess.Initiator, newSess.ISID, newSess.TPGT)
+		if existSess == nil {
+			target.Sessions[newSess.TSIH] = newSess
+			scsi.AddITNexus(target.SCSITarget, newSess.ITNexus)
+			target.SessionsRWMutex.Unlock()
+			break
 		}
+		target.SessionsRWMutex.Unlock()
+		log.Infof("Session Reinstatement initiator name:%v,target name:%v,ISID:0x%x",
+			conn.loginParam.initiator, conn.loginParam.target, conn.loginParam.isid)
+		existSess.close()
 	}
+	conn.session = newSess
 
 	return nil
 }
@@ -471,6 +434,7 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 		MaxQueueCommand: uint32(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_QUEUE_CMD].Value),
 		Rdma:            0,
 		ExpCmdSN:        conn.expCmdSN,
+		Waiting:         map[uint32]*ISCSICommand{},
 	}
 	return sess, nil
 }
@@ -482,19 +446,39 @@ func (sess *ISCSISession) LookupConnection(cid uint16) *iscsiConnection {
 	return conn
 }
 
-func (s *ISCSITargetDriver) ReInstatement(existSess *ISCSISession, conn *iscsiConnection) (*ISCSISession, error) {
-	newSess, err := s.NewISCSISession(conn)
-	if err != nil {
-		return nil, err
+// close closes the connections of a session, which end it, and waits for that
+func (sess *ISCSISession) close() {
+	sess.ConnectionsRWMutex.RLock()
+	defer sess.ConnectionsRWMutex.RUnlock()
+	for _, conn := range sess.Connections {
+		conn.close()
+		<-conn.done
 	}
-	newSess.ExpCmdSN = existSess.ExpCmdSN
-	newSess.MaxCmdSN = existSess.MaxCmdSN + 1
-	s.UnBindISCSISession(existSess)
-	for _, tmpConn := range existSess.Connections {
-		tmpConn.close()
+}
+
+// abortTasks drops the commands of the session that are not executed yet and
+// satisfy the condition, and tells whether there were any
+func (sess *ISCSISession) abortTasks(cond func(cmd *ISCSICommand) bool) bool {
+	found := false
+	kept := taskQueue{}
+	for _, task := range sess.PendingTasks {
+		if cond(task.cmd) {
+			log.Debugf("abort the task[%v]", task.tag)
+			found = true
+		} else {
+			kept.Push(task)
+		}
+	}
+	sess.PendingTasks = kept
+	for sn, cmd := range sess.Waiting {
+		if cmd.OpCode == OpSCSICmd && cond(cmd) {
+			log.Debugf("abort the task[%v]", cmd.TaskTag)
+			found = true
+			// its turn comes, and nothing is done or answered then
+			sess.Waiting[sn] = &ISCSICommand{OpCode: OpNoopOut, CmdSN: sn, TaskTag: 0xffffffff}
+		}
 	}
-	existSess.Connections = map[uint16]*iscsiConnection{}
-	return newSess, nil
+	return found
 }
 
 /*
diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 03aa3e4..4d68ffd 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -71,7 +71,8 @@ func bsWriteSame(bs api.BackingStore, block []byte, offset, tl int64) error {
 	return nil
 }
 
-// bsDataOut returns the tl bytes the command takes from its data-out buffer, or nil if it did not get that many
+// bsDataOut returns the tl bytes the command takes from its data-out buffer
+// (Resid says how many), or nil if it did not get that many
 func bsDataOut(cmd *api.SCSICommand, tl int64) []byte {
 	if tl == 0 {
 		return []byte{}
@@ -79,6 +80,7 @@ func bsDataOut(cmd *api.SCSICommand, tl int64) []byte {
 	if cmd.OutSDBBuffer == nil || int64(len(cmd.OutSDBBuffer.Buffer)) < tl {
 		return nil
 	}
+	cmd.OutSDBBuffer.Resid = uint32(tl)
 	return cmd.OutSDBBuffer.Buffer[:tl]
 }
 
@@ -166,7 +168,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 			// every block from the LBA to the last one
 			tl = int64(luSize(lu)>>lu.BlockShift<<lu.BlockShift - offset)
 		}
-		if err = bsWriteSame(bs, cmd.OutSDBBuffer.Buffer[:1<<lu.BlockShift], int64(offset), tl); err != nil {
+		if err = bsWriteSame(bs, bsDataOut(cmd, 1<<lu.BlockShift), int64(offset), tl); err != nil {
 			key = MEDIUM_ERROR
 			asc = ASC_WRITE_ERROR
 			goto sense
@@ -190,7 +192,7 @@ func bsPerformCommand(bs api.BackingStore, cmd *api.SCSICommand) (err error, key
 		}
 		if cmd.InSDBBuffer != nil {
 			cmd.InSDBBuffer.Resid = uint32(length)
-			copy(cmd.InSDBBuffer.Buffer, rbuf)
+			cmd.InSDBBuffer.Buffer = rbuf
 		}
 	case api.PRE_FETCH_10, api.PRE_FETCH_16:
 		err = bs.DataAdvise(int64(offset), tl, util.POSIX_FADV_WILLNEED)
diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index c681b3d..62936f1 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -230,6 +230,14 @@ func NewSBCDevice(deviceType api.SCSIDeviceType) api.SCSIDeviceProtocol {
 }
 
 func SBCModeSelect(host int, cmd *api.SCSICommand) api.SAMStat {
+	paramLen := int64(cmd.SCB[4])
+	if api.SCSICommandType(cmd.SCB[0]) == api.MODE_SELECT_10 {
+		paramLen = int64(util.GetUnalignedUint16(cmd.SCB[7:9]))
+	}
+	if bsDataOut(cmd, paramLen) == nil {
+		BuildSenseData(cmd, ILLEGAL_REQUEST, ASC_INVALID_FIELD_IN_CDB)
+		return api.SAMStatCheckCondition
+	}
 	return api.SAMStatGood
 }
 
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 148bb7d..a8362a6 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -42,8 +42,11 @@ func setDataIn(cmd *api.SCSICommand, data []byte, allocationLength uint32) {
 	if cmd.InSDBBuffer == nil {
 		cmd.InSDBBuffer = &api.SCSIDataBuffer{}
 	}
-	copy(cmd.InSDBBuffer.Buffer, data)
 	cmd.InSDBBuffer.Resid = uint32(len(data))
+	if uint64(len(data)) > uint64(cmd.InSDBBuffer.Length) {
+		data = data[:cmd.InSDBBuffer.Length]
+	}
+	cmd.InSDBBuffer.Buffer = data
 }
 
 func SPCIllegalOp(host int, cmd *api.SCSICommand) api.SAMStat {
-- 
2.43.0


From 8593b9206b29c62a451447d3f91308462ffe60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 19/41] fix: login checks stage, names and keys and refuses
 with a status, every key is answered, text requests can continue

A login request was answered from the keys it happened to carry, unknown keys
ended the connection, keys were answered with values that were not a legal
outcome of the offer, and a refused login was a closed connection without a
response.
---
 pkg/port/iscsit/cmd.go     |  18 ++-
 pkg/port/iscsit/conn.go    |  30 ++--
 pkg/port/iscsit/iscsid.go  | 283 +++++++++++++++++++++++++++----------
 pkg/port/iscsit/iscsit.go  |   6 +
 pkg/port/iscsit/login.go   | 274 +++++++++++++++++++----------------
 pkg/port/iscsit/logout.go  |  19 ++-
 pkg/port/iscsit/session.go |  42 +++---
 pkg/util/util.go           |  10 +-
 8 files changed, 436 insertions(+), 246 deletions(-)

diff --git a/pkg/port/iscsit/cmd.go b/pkg/port/iscsit/cmd.go
index b9d1c32..be2de82 100644
--- a/pkg/port/iscsit/cmd.go
+++ b/pkg/port/iscsit/cmd.go
@@ -123,6 +123,15 @@ type ISCSICommand struct {
 	// Status serial number.
 	StatSN uint32
 
+	// Lowest version of the protocol the initiator speaks, in a login request.
+	VersionMin uint8
+
+	// Reason of a logout request.
+	LogoutReason byte
+
+	// Target transfer tag of a text request or response.
+	TransferTag uint32
+
 	// For login response.
 	StatusClass  uint8
 	StatusDetail uint8
@@ -280,7 +289,7 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 	case OpLoginReq, OpTextReq, OpNoopOut, OpLogoutReq:
 		m.Transit = m.Final
 		m.Cont = data[1]&0x40 == 0x40
-		if m.Cont && m.Transit {
+		if m.Cont && m.Transit && (m.OpCode == OpLoginReq || m.OpCode == OpTextReq) {
 			// rfc7143 11.12.2
 			return nil, fmt.Errorf("transit and continue bits set in same login request")
 		}
@@ -288,6 +297,9 @@ func parseHeader(data []byte) (*ISCSICommand, error) {
 		m.NSG = iSCSILoginStage(data[1] & 0x3)
 		m.ISID = uint64(ParseUint(data[8:14]))
 		m.TSIH = uint16(ParseUint(data[14:16]))
+		m.VersionMin = data[3]
+		m.LogoutReason = data[1] & ISCSI_LOGOUT_REASON_MASK
+		m.TransferTag = uint32(ParseUint(data[20:24]))
 		m.ConnID = uint16(ParseUint(data[20:22]))
 		m.CmdSN = uint32(ParseUint(data[24:28]))
 		m.ExpStatSN = uint32(ParseUint(data[28:32]))
@@ -414,9 +426,7 @@ func (m *ISCSICommand) textRespBytes() []byte {
 		buf.WriteByte(0x00)
 	}
 	buf.Write(util.MarshalUint64(uint64(m.TaskTag))[4:])
-	for i := 0; i < 4; i++ {
-		buf.WriteByte(0xff)
-	}
+	buf.Write(util.MarshalUint32(m.TransferTag))
 	buf.Write(util.MarshalUint64(uint64(m.StatSN))[4:])
 	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
 	buf.Write(util.MarshalUint64(uint64(m.MaxCmdSN))[4:])
diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index 5598adb..accdf35 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -63,6 +63,10 @@ type iscsiConnection struct {
 	req  *ISCSICommand
 	resp *ISCSICommand
 
+	// text received of a request that continues, and text left to send
+	textIn  []byte
+	textOut []byte
+
 	loginParam *iscsiLoginParam
 
 	// StatSN - the status sequence number on this connection
@@ -96,8 +100,6 @@ func (c *iscsiConnection) init() {
 	c.refcount = 1
 	c.done = make(chan struct{})
 	c.loginParam.sessionParam = []ISCSISessionParam{}
-	c.loginParam.tgtCSG = LoginOperationalNegotiation
-	c.loginParam.tgtNSG = LoginOperationalNegotiation
 	for _, param := range sessionKeys {
 		c.loginParam.sessionParam = append(c.loginParam.sessionParam,
 			ISCSISessionParam{idx: param.idx, Value: param.def})
@@ -163,7 +165,7 @@ func (conn *iscsiConnection) nextStatSN() uint32 {
 	return statSN
 }
 
-func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error {
+func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) {
 	req := conn.req
 	if task != nil {
 		req = task.cmd
@@ -188,7 +190,7 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 		conn.resp.R2TSN = task.r2tSN
 		conn.resp.BufferOffset = uint32(task.offset)
 		conn.resp.DesiredLength = uint32(task.burstEnd - task.offset)
-		return nil
+		return
 	case OpSCSIIn, OpSCSIResp:
 		conn.resp.SCSIOpCode = req.SCSIOpCode
 		conn.resp.SCSIResponse = 0x00
@@ -215,24 +217,16 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) error
 	case OpReject:
 		conn.resp.TaskTag = 0xffffffff
 	case OpLoginResp:
-		conn.resp.Transit = conn.loginParam.tgtTrans
 		conn.resp.CSG = req.CSG
-		conn.resp.NSG = conn.loginParam.tgtNSG
-		if req.CSG != SecurityNegotiation {
-			negoKeys, err := conn.processLoginData()
-			if err != nil {
-				return err
-			}
-			if !conn.loginParam.keyDeclared {
-				negoKeys = loginKVDeclare(conn, negoKeys)
-				conn.loginParam.keyDeclared = true
-			}
-			conn.resp.RawData = util.MarshalKVText(negoKeys)
+		conn.resp.ISID = req.ISID
+		conn.resp.TSIH = req.TSIH
+		if conn.session != nil {
+			conn.resp.TSIH = conn.session.TSIH
 		}
+	case OpTextResp:
+		conn.resp.TransferTag = 0xffffffff
 	}
 	conn.resp.StatSN = conn.nextStatSN()
-
-	return nil
 }
 
 func (conn *iscsiConnection) State() string {
diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 7a08819..95e2d35 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -390,55 +390,121 @@ func (s *ISCSITargetDriver) rxHandler(conn *iscsiConnection) {
 	}
 }
 
+// iscsiExecLogin answers a login request. A login that is refused is answered
+// with the reason, the error tells that the connection ends.
 func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
-	var cmd = conn.req
-
-	conn.cid = cmd.ConnID
-	conn.loginParam.iniCSG = cmd.CSG
-	conn.loginParam.iniNSG = cmd.NSG
-	conn.loginParam.iniCont = cmd.Cont
-	conn.loginParam.iniTrans = cmd.Transit
-	conn.loginParam.isid = cmd.ISID
-	conn.loginParam.tsih = cmd.TSIH
-	conn.expCmdSN = cmd.CmdSN
 	if conn.state == CONN_STATE_FREE {
-		conn.statSN = cmd.ExpStatSN
+		conn.statSN = conn.req.ExpStatSN
 	}
-
-	if conn.loginParam.iniCSG == SecurityNegotiation {
-		if err := conn.processSecurityData(); err != nil {
-			return err
-		}
-		conn.state = CONN_STATE_LOGIN
-		if err := conn.buildRespPackage(OpLoginResp, nil); err != nil {
-			return err
+	negoKeys, err := s.processLogin(conn)
+	conn.buildRespPackage(OpLoginResp, nil)
+	if err != nil {
+		if refused, ok := err.(*loginError); ok {
+			conn.resp.StatusClass = refused.class
+			conn.resp.StatusDetail = refused.detail
+			s.txHandler(conn)
 		}
-		s.txHandler(conn)
-		return nil
+		return err
+	}
+	conn.resp.Transit = conn.req.Transit
+	if conn.req.Transit {
+		conn.resp.NSG = conn.req.NSG
 	}
+	conn.resp.RawData = util.MarshalKVText(negoKeys)
+	s.txHandler(conn)
+	return nil
+}
 
-	if _, err := conn.processLoginData(); err != nil {
-		return err
+// processLogin does what a login request asks for and returns the answers to its keys
+func (s *ISCSITargetDriver) processLogin(conn *iscsiConnection) ([]util.KeyValue, error) {
+	var (
+		cmd   = conn.req
+		param = conn.loginParam
+		first = conn.state == CONN_STATE_FREE
+	)
+
+	if cmd.VersionMin > ISCSI_VERSION {
+		return nil, &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_NO_VERSION, "version not supported"}
+	}
+	if first {
+		conn.cid = cmd.ConnID
+		param.isid = cmd.ISID
+		param.tsih = cmd.TSIH
+		param.tgtCSG = cmd.CSG
+	}
+	conn.expCmdSN = cmd.CmdSN
+	if cmd.CSG != param.tgtCSG || cmd.ConnID != conn.cid || cmd.ISID != param.isid || cmd.TSIH != param.tsih {
+		return nil, loginInitiatorError("login request of another login or stage")
+	}
+	if cmd.CSG != SecurityNegotiation && cmd.CSG != LoginOperationalNegotiation {
+		return nil, loginInitiatorError("stage %d", cmd.CSG)
+	}
+	if cmd.Transit && (cmd.NSG <= cmd.CSG || (cmd.NSG != LoginOperationalNegotiation && cmd.NSG != FullFeaturePhase)) {
+		return nil, loginInitiatorError("transit from stage %d to stage %d", cmd.CSG, cmd.NSG)
 	}
+	conn.state = CONN_STATE_LOGIN
 
-	if !conn.loginParam.paramInit {
-		if err := s.BindISCSISession(conn); err != nil {
-			conn.state = CONN_STATE_EXIT
-			return err
+	param.text = append(param.text, cmd.RawData...)
+	if len(param.text) > ISCSI_MAX_TEXT {
+		return nil, loginInitiatorError("%d bytes of keys", len(param.text))
+	}
+	if cmd.Cont {
+		return nil, nil
+	}
+	loginKV := util.ParseKVText(param.text)
+	param.text = nil
+
+	if err := conn.processLoginNames(loginKV); err != nil {
+		return nil, err
+	}
+	negoKeys, err := conn.processLoginData(loginKV)
+	if err != nil {
+		return nil, err
+	}
+	if !param.paramInit {
+		if err := s.findPortal(conn); err != nil {
+			return nil, err
 		}
-		conn.loginParam.paramInit = true
+		if param.sessionType == SESSION_NORMAL {
+			negoKeys = append(negoKeys, util.KeyValue{"TargetPortalGroupTag", numberKeyInConv(uint(param.tpgt))})
+		}
+		param.paramInit = true
 	}
-	if conn.loginParam.tgtNSG == FullFeaturePhase &&
-		conn.loginParam.tgtTrans {
-		conn.state = CONN_STATE_LOGIN_FULL
-	} else {
-		conn.state = CONN_STATE_LOGIN
+	if cmd.CSG != SecurityNegotiation && !param.keyDeclared {
+		negoKeys = loginKVDeclare(conn, negoKeys)
+		param.keyDeclared = true
+	}
+	if cmd.Transit {
+		if cmd.NSG == FullFeaturePhase {
+			if err := s.BindISCSISession(conn); err != nil {
+				return nil, err
+			}
+			conn.state = CONN_STATE_LOGIN_FULL
+		}
+		param.tgtCSG = cmd.NSG
 	}
+	return negoKeys, nil
+}
 
-	if err := conn.buildRespPackage(OpLoginResp, nil); err != nil {
-		return err
+// findPortal finds the target the initiator named, and the portal group it came through
+func (s *ISCSITargetDriver) findPortal(conn *iscsiConnection) error {
+	if conn.loginParam.sessionType == SESSION_DISCOVERY {
+		conn.tid = 0xffff
+		return nil
 	}
-	s.txHandler(conn)
+	target := s.findTarget(conn.loginParam.target)
+	if target == nil {
+		return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_NOT_FOUND,
+			fmt.Sprintf("No target found with name(%s)", conn.loginParam.target)}
+	}
+	s.mu.RLock()
+	tpgt, err := target.FindTPG(conn.conn.LocalAddr().String())
+	s.mu.RUnlock()
+	if err != nil {
+		return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_NOT_FOUND, err.Error()}
+	}
+	conn.loginParam.tpgt = tpgt
+	conn.tid = target.TID
 	return nil
 }
 
@@ -446,51 +512,126 @@ func (s *ISCSITargetDriver) iscsiExecLogin(conn *iscsiConnection) error {
 func (s *ISCSITargetDriver) iscsiExecLogout(conn *iscsiConnection) {
 	log.Infof("Logout request received from initiator: %v", conn.conn.RemoteAddr().String())
 	conn.buildRespPackage(OpLogoutResp, nil)
+	switch req := conn.req; {
+	case req.LogoutReason == ISCSI_LOGOUT_RECOVERY:
+		conn.resp.Result = ISCSI_LOGOUT_RSP_NO_RECOVERY
+	case req.LogoutReason == ISCSI_LOGOUT_CONNECTION && req.ConnID != conn.cid:
+		conn.resp.Result = ISCSI_LOGOUT_RSP_NO_CID
+	}
 	s.txHandler(conn)
-	conn.state = CONN_STATE_CLOSE
+	if conn.resp.Result == ISCSI_LOGOUT_RSP_COMPLETE {
+		conn.state = CONN_STATE_CLOSE
+	}
 }
 
-func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) {
-	var result = []util.KeyValue{}
-	cmd := conn.req
-	keys := util.ParseKVText(cmd.RawData)
-	if st, ok := keys["SendTargets"]; ok {
-		if st == "All" {
-			s.mu.RLock()
-			for name, tgt := range s.iSCSITargets {
-				log.Debugf("iscsi target: %v", name)
-				//log.Debugf("iscsi target portals: %v", tgt.Portals)
-
+// sendTargets lists the targets with this name, or all of them, and their addresses
+func (s *ISCSITargetDriver) sendTargets(all bool, tgtName string) []util.KeyValue {
+	var (
+		result = []util.KeyValue{}
+		names  = []string{}
+	)
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	for name := range s.iSCSITargets {
+		if all || name == tgtName {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		tgt := s.iSCSITargets[name]
+		log.Debugf("iscsi target: %v", name)
+		//log.Debugf("iscsi target portals: %v", tgt.Portals)
+
+		result = append(result, util.KeyValue{
+			Key:   "TargetName",
+			Value: name,
+		})
+		if s.clusterIP == "" {
+			for _, tpgt := range tgt.TPGTs {
+				for portal := range tpgt.Portals {
+					targetPort := fmt.Sprintf("%s,%d", portal, tpgt.TPGT)
+					result = append(result, util.KeyValue{
+						Key:   "TargetAddress",
+						Value: targetPort,
+					})
+				}
+			}
+		} else {
+			for _, tpgt := range tgt.TPGTs {
+				targetPort := fmt.Sprintf("%s,%d", s.clusterIP, tpgt.TPGT)
 				result = append(result, util.KeyValue{
-					Key:   "TargetName",
-					Value: name,
+					Key:   "TargetAddress",
+					Value: targetPort,
 				})
-				if s.clusterIP == "" {
-					for _, tpgt := range tgt.TPGTs {
-						for portal := range tpgt.Portals {
-							targetPort := fmt.Sprintf("%s,%d", portal, tpgt.TPGT)
-							result = append(result, util.KeyValue{
-								Key:   "TargetAddress",
-								Value: targetPort,
-							})
-						}
-					}
-				} else {
-					for _, tpgt := range tgt.TPGTs {
-						targetPort := fmt.Sprintf("%s,%d", s.clusterIP, tpgt.TPGT)
-						result = append(result, util.KeyValue{
-							Key:   "TargetAddress",
-							Value: targetPort,
-						})
-					}
-				}
 			}
-			s.mu.RUnlock()
 		}
 	}
+	return result
+}
+
+// processText answers the keys of a text request
+func (s *ISCSITargetDriver) processText(conn *iscsiConnection, keys map[string]string) []util.KeyValue {
+	var result = []util.KeyValue{}
+	discovery := conn.session.SessionType == SESSION_DISCOVERY
+	for key, val := range keys {
+		switch key {
+		case "SendTargets":
+			// a session with a target only asks for that one
+			if discovery && val != "" {
+				result = append(result, s.sendTargets(val == "All", val)...)
+			} else if !discovery && (val == "" || val == conn.session.Target.SCSITarget.Name) {
+				result = append(result, s.sendTargets(false, conn.session.Target.SCSITarget.Name)...)
+			} else {
+				result = append(result, util.KeyValue{key, "Reject"})
+			}
+		case "MaxRecvDataSegmentLength":
+			if err := conn.loginParam.setMaxXmitDataSegmentLength(val); err != nil {
+				result = append(result, util.KeyValue{key, "Reject"})
+			}
+		case "InitiatorAlias":
+		default:
+			if _, ok := sessionKeys[key]; ok {
+				// only to be negotiated at the login
+				result = append(result, util.KeyValue{key, "Reject"})
+			} else {
+				result = append(result, util.KeyValue{key, "NotUnderstood"})
+			}
+		}
+	}
+	return result
+}
+
+// iscsiExecText answers a text request. Both the request and the answer may
+// need several PDUs, those after the first have a target transfer tag.
+func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) {
+	req := conn.req
+	if req.TransferTag == 0xffffffff {
+		conn.textIn, conn.textOut = nil, nil
+	}
+	conn.textIn = append(conn.textIn, req.RawData...)
+	if len(conn.textIn) > ISCSI_MAX_TEXT {
+		conn.textIn = nil
+		s.iscsiExecReject(conn, ISCSI_REASON_PROTOCOL_ERROR)
+		return
+	}
+	if !req.Cont {
+		conn.textOut = append(conn.textOut, util.MarshalKVText(s.processText(conn, util.ParseKVText(conn.textIn)))...)
+		conn.textIn = nil
+	}
 
 	conn.buildRespPackage(OpTextResp, nil)
-	conn.resp.RawData = util.MarshalKVText(result)
+	length := int(conn.loginParam.sessionParam[ISCSI_PARAM_MAX_XMIT_DLENGTH].Value)
+	if length > len(conn.textOut) {
+		length = len(conn.textOut)
+	}
+	conn.resp.RawData = conn.textOut[:length:length]
+	conn.textOut = conn.textOut[length:]
+	conn.resp.Cont = len(conn.textOut) > 0
+	conn.resp.Final = req.Final && !conn.resp.Cont
+	if !conn.resp.Final {
+		conn.resp.TransferTag = uint32(conn.cid)
+	}
 	s.txHandler(conn)
 }
 
diff --git a/pkg/port/iscsit/iscsit.go b/pkg/port/iscsit/iscsit.go
index b92d48b..a5bcbee 100644
--- a/pkg/port/iscsit/iscsit.go
+++ b/pkg/port/iscsit/iscsit.go
@@ -27,6 +27,12 @@ import (
 
 const iSCSIDriverName = "iscsi"
 
+// ISCSI_VERSION is the version of the protocol
+const ISCSI_VERSION uint8 = 0x00
+
+// ISCSI_MAX_TEXT is the longest list of keys taken from an initiator
+const ISCSI_MAX_TEXT = 16384
+
 // Reasons of a Reject
 const (
 	ISCSI_REASON_PROTOCOL_ERROR    byte = 0x04
diff --git a/pkg/port/iscsit/login.go b/pkg/port/iscsit/login.go
index 7451e5b..2b26bff 100644
--- a/pkg/port/iscsit/login.go
+++ b/pkg/port/iscsit/login.go
@@ -19,29 +19,12 @@ package iscsit
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/gostor/gotgt/pkg/util"
 )
 
-var (
-	iSCSILoginParamTextKV = []util.KeyValue{
-		{"HeaderDigest", "None"},
-		{"DataDigest", "None"},
-		{"ImmediateData", "Yes"},
-		{"InitialR2T", "Yes"},
-		{"MaxBurstLength", "262144"},
-		{"FirstBurstLength", "65536"},
-		{"MaxRecvDataSegmentLength", "65536"},
-		{"DefaultTime2Wait", "2"},
-		{"DefaultTime2Retain", "0"},
-		{"MaxOutstandingR2T", "1"},
-		{"IFMarker", "No"},
-		{"OFMarker", "No"},
-		{"DataPDUInOrder", "Yes"},
-		{"DataSequenceInOrder", "Yes"}}
-)
-
 type iSCSILoginStage int
 
 const (
@@ -62,12 +45,40 @@ func (s iSCSILoginStage) String() string {
 	return "Unknown Stage"
 }
 
+// Status classes and details of a login response
+const (
+	ISCSI_STATUS_INITIATOR_ERR uint8 = 0x02
+	ISCSI_STATUS_TARGET_ERR    uint8 = 0x03
+
+	ISCSI_STATUS_MISC           uint8 = 0x00
+	ISCSI_STATUS_AUTH_FAILED    uint8 = 0x01
+	ISCSI_STATUS_NOT_FOUND      uint8 = 0x03
+	ISCSI_STATUS_NO_VERSION     uint8 = 0x05
+	ISCSI_STATUS_TOO_MANY_CONNS uint8 = 0x06
+	ISCSI_STATUS_MISSING_FIELDS uint8 = 0x07
+	ISCSI_STATUS_SESSION_TYPE   uint8 = 0x09
+	ISCSI_STATUS_NO_SESSION     uint8 = 0x0a
+	// of ISCSI_STATUS_TARGET_ERR
+	ISCSI_STATUS_NO_RESOURCES uint8 = 0x02
+)
+
+// loginError is the reason why a login is refused
+type loginError struct {
+	class, detail uint8
+	reason        string
+}
+
+func (e *loginError) Error() string {
+	return "login refused: " + e.reason
+}
+
+func loginInitiatorError(format string, args ...interface{}) error {
+	return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_MISC, fmt.Sprintf(format, args...)}
+}
+
 func loginKVDeclare(conn *iscsiConnection, negoKV []util.KeyValue) []util.KeyValue {
-	negoKV = append(negoKV, util.KeyValue{"TargetPortalGroupTag",
-		numberKeyInConv(uint(conn.loginParam.tpgt))})
-	negoKV = append(negoKV, util.KeyValue{"MaxRecvDataSegmentLength",
+	return append(negoKV, util.KeyValue{"MaxRecvDataSegmentLength",
 		numberKeyInConv(sessionKeys["MaxRecvDataSegmentLength"].def)})
-	return negoKV
 }
 
 func stringsContains(s []string, p string) bool {
@@ -79,131 +90,146 @@ func stringsContains(s []string, p string) bool {
 	return false
 }
 
-func (conn *iscsiConnection) processSecurityData() error {
-	securityKV := util.ParseKVText(conn.req.RawData)
-
-	for key, val := range securityKV {
-		if key == "AuthMethod" {
-			// It can be a list.
-			vals := strings.Split(val, ",")
-			if !stringsContains(vals, "None") {
-				// TODO: respond with Reject message, rather
-				// than terminating TCP connection.
-				return fmt.Errorf("client requesting AuthMethod:%s, only support None", val)
-			}
-			conn.loginParam.tgtNSG = LoginOperationalNegotiation
-			conn.loginParam.tgtTrans = true
-			conn.loginParam.authMethod = AuthNone
-		} else if key == "TargetName" {
-			conn.loginParam.target = val
-		} else if key == "InitiatorName" {
-			conn.loginParam.initiator = val
+// processLoginNames takes the keys that tell who logs in to what. They are
+// given in the first request, later ones must not change them.
+func (conn *iscsiConnection) processLoginNames(loginKV map[string]string) error {
+	param := conn.loginParam
+	initiator, target, sessionType := loginKV["InitiatorName"], loginKV["TargetName"], SESSION_NORMAL
+	switch loginKV["SessionType"] {
+	case "", "Normal":
+	case "Discovery":
+		sessionType = SESSION_DISCOVERY
+	default:
+		return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_SESSION_TYPE,
+			fmt.Sprintf("session type %s", loginKV["SessionType"])}
+	}
+	if param.paramInit {
+		if _, ok := loginKV["SessionType"]; (ok && sessionType != param.sessionType) ||
+			(initiator != "" && initiator != param.initiator) || (target != "" && target != param.target) {
+			return loginInitiatorError("names changed")
 		}
+		return nil
 	}
-
+	if initiator == "" {
+		return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_MISSING_FIELDS, "no InitiatorName"}
+	}
+	if target == "" && sessionType == SESSION_NORMAL {
+		return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_MISSING_FIELDS, "no TargetName"}
+	}
+	param.initiator, param.target, param.sessionType = initiator, target, sessionType
 	return nil
 }
 
-func (conn *iscsiConnection) processLoginData() ([]util.KeyValue, error) {
+// processLoginData answers the keys of a login request in the order of their names
+func (conn *iscsiConnection) processLoginData(loginKV map[string]string) ([]util.KeyValue, error) {
 	var (
-		uintVal    uint
-		ok         bool
-		defSessKey *iscsiSessionKeys
-		negoKV     []util.KeyValue
-		kvChanges  int
+		negoKV []util.KeyValue
+		keys   []string
+		param  = conn.loginParam
 	)
-	loginKV := util.ParseKVText(conn.req.RawData)
-
-	for key, val := range loginKV {
-		// The MaxRecvDataSegmentLength of initiator
-		// is the MaxXmitDataSegmentLength of target
-		if key == "MaxRecvDataSegmentLength" {
-			defSessKey, ok = sessionKeys["MaxXmitDataSegmentLength"]
-			uintVal, ok = defSessKey.conv(val)
-			conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
-			continue
-		}
+	for key := range loginKV {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
 
-		if key == "InitiatorName" {
-			conn.loginParam.initiator = val
-			continue
-		} else if key == "InitiatorAlias" {
-			conn.loginParam.initiatorAlias = val
-			continue
-		} else if key == "TargetName" {
-			conn.loginParam.target = val
-			continue
-		} else if key == "SessionType" {
-			if val == "Normal" {
-				conn.loginParam.sessionType = SESSION_NORMAL
+	for _, key := range keys {
+		val := loginKV[key]
+		switch key {
+		case "InitiatorName", "TargetName", "SessionType":
+		case "InitiatorAlias":
+			param.initiatorAlias = val
+		case "AuthMethod":
+			// It can be a list.
+			if !stringsContains(strings.Split(val, ","), "None") {
+				return nil, &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_AUTH_FAILED,
+					fmt.Sprintf("client requesting AuthMethod:%s, only support None", val)}
+			}
+			param.authMethod = AuthNone
+			negoKV = append(negoKV, util.KeyValue{key, "None"})
+		case "MaxRecvDataSegmentLength":
+			if err := param.setMaxXmitDataSegmentLength(val); err != nil {
+				return nil, err
+			}
+		default:
+			if conn.req.CSG == SecurityNegotiation {
+				negoKV = append(negoKV, util.KeyValue{key, "Reject"})
 			} else {
-				conn.loginParam.sessionType = SESSION_DISCOVERY
+				negoKV = append(negoKV, util.KeyValue{key, param.negotiate(key, val)})
 			}
-			continue
 		}
+	}
+	// a first burst is not longer than a burst
+	for i := range negoKV {
+		first, max := &param.sessionParam[ISCSI_PARAM_FIRST_BURST], &param.sessionParam[ISCSI_PARAM_MAX_BURST]
+		if negoKV[i].Key == "FirstBurstLength" && negoKV[i].Value != "Reject" && first.Value > max.Value {
+			first.Value = max.Value
+			negoKV[i].Value = numberKeyInConv(first.Value)
+		}
+	}
+	return negoKV, nil
+}
 
-		defSessKey, ok = sessionKeys[key]
-		if ok {
-			uintVal, ok = defSessKey.conv(val)
+// setMaxXmitDataSegmentLength takes the MaxRecvDataSegmentLength of the
+// initiator, which is the MaxXmitDataSegmentLength of the target
+func (param *iscsiLoginParam) setMaxXmitDataSegmentLength(val string) error {
+	key := sessionKeys["MaxXmitDataSegmentLength"]
+	length, ok := key.conv(val)
+	if !ok || length < key.min || length > key.max {
+		return loginInitiatorError("MaxRecvDataSegmentLength=%s", val)
+	}
+	param.sessionParam[key.idx].Value = length
+	return nil
+}
 
-			//hack here
-			if key == "HeaderDigest" || key == "DataDigest" {
-				if uintVal == DIGEST_ALL {
-					uintVal = DIGEST_NONE
-				}
-			}
-			if ok {
-				if defSessKey.constValue {
-					//the Negotiation Key cannot be changed! Uses Target default key
-					if uintVal != defSessKey.def {
-						kvChanges++
-					}
-					negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-				} else {
-					if (uintVal >= defSessKey.min) && (uintVal <= defSessKey.max) {
-						conn.loginParam.sessionParam[defSessKey.idx].Value = uintVal
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(uintVal)})
-					} else {
-						// the value out of the acceptable range, Uses target default key
-						negoKV = append(negoKV, util.KeyValue{key, defSessKey.inConv(defSessKey.def)})
-						kvChanges++
-					}
-				}
-			}
-		} else {
-			//Unknown Key, reject it
-			return negoKV, fmt.Errorf("Unknowen Nego KV [%s:%s]", key, val)
+// negotiate returns the answer to what the initiator offers for a key
+func (param *iscsiLoginParam) negotiate(key, val string) string {
+	sessKey, ok := sessionKeys[key]
+	if !ok || sessKey.idx >= ISCSI_PARAM_FIRST_LOCAL {
+		return "NotUnderstood"
+	}
+	switch sessKey.idx {
+	case ISCSI_PARAM_HDRDGST_EN, ISCSI_PARAM_DATADGST_EN:
+		// no digest is supported
+		if !stringsContains(strings.Split(val, ","), "None") {
+			return "Reject"
 		}
+		return "None"
+	case ISCSI_PARAM_OFMARKINT, ISCSI_PARAM_IFMARKINT, ISCSI_PARAM_TARGET_RDSL,
+		ISCSI_PARAM_INITIATOR_RDSL, ISCSI_PARAM_MAX_OUTST_PDU:
+		// there are no markers, and no RDMA
+		return "Irrelevant"
 	}
-
-	if kvChanges == 0 {
-		if (conn.loginParam.iniNSG == FullFeaturePhase) && conn.loginParam.iniTrans {
-			conn.loginParam.tgtNSG = FullFeaturePhase
-			conn.loginParam.tgtTrans = true
-		} else {
-			//Currently, we just reject these kind of cases
-			return negoKV, fmt.Errorf("reject CSG=%s,NSG=%s,trans=%t",
-				conn.loginParam.iniCSG, conn.loginParam.iniNSG, conn.loginParam.iniTrans)
+	offer, ok := sessKey.conv(val)
+	if !ok || offer < sessKey.min || offer > sessKey.max {
+		return "Reject"
+	}
+	result := sessKey.def
+	switch sessKey.idx {
+	case ISCSI_PARAM_INITIAL_R2T_EN, ISCSI_PARAM_PDU_INORDER_EN, ISCSI_PARAM_DATASEQ_INORDER_EN,
+		ISCSI_PARAM_DEFAULTTIME2WAIT:
+		// yes if one of them says so, and the longer time
+		if result < offer {
+			result = offer
+		}
+	default:
+		// yes if both of them say so, and the lower number
+		if result > offer {
+			result = offer
 		}
-	} else {
-		conn.loginParam.tgtNSG = FullFeaturePhase
-		conn.loginParam.tgtTrans = true
 	}
-	return negoKV, nil
+	param.sessionParam[sessKey.idx].Value = result
+	return sessKey.inConv(result)
 }
 
 type iscsiLoginParam struct {
+	// paramInit is set when the names of the initiator and the target are known
 	paramInit bool
 
-	iniCSG   iSCSILoginStage
-	iniNSG   iSCSILoginStage
-	iniTrans bool
-	iniCont  bool
+	// text is what the initiator sent of a key list that continues
+	text []byte
 
-	tgtCSG   iSCSILoginStage
-	tgtNSG   iSCSILoginStage
-	tgtTrans bool
-	tgtCont  bool
+	// tgtCSG is the stage the login is in
+	tgtCSG iSCSILoginStage
 
 	sessionType  int
 	sessionParam ISCSISessionParamList
diff --git a/pkg/port/iscsit/logout.go b/pkg/port/iscsit/logout.go
index 4f41d9a..c508fbb 100644
--- a/pkg/port/iscsit/logout.go
+++ b/pkg/port/iscsit/logout.go
@@ -6,11 +6,28 @@ import (
 	"github.com/gostor/gotgt/pkg/util"
 )
 
+const (
+	ISCSI_LOGOUT_REASON_MASK byte = 0x7F
+
+	// Reason codes
+	ISCSI_LOGOUT_SESSION    byte = 0
+	ISCSI_LOGOUT_CONNECTION byte = 1
+	ISCSI_LOGOUT_RECOVERY   byte = 2
+
+	// Response values
+	// connection or session closed
+	ISCSI_LOGOUT_RSP_COMPLETE byte = 0
+	// CID not found
+	ISCSI_LOGOUT_RSP_NO_CID byte = 1
+	// connection recovery is not supported
+	ISCSI_LOGOUT_RSP_NO_RECOVERY byte = 2
+)
+
 func (m *ISCSICommand) logoutRespBytes() []byte {
 	buf := &bytes.Buffer{}
 	buf.WriteByte(byte(OpLogoutResp))
 	buf.WriteByte(0x80)
-	buf.WriteByte(0x00) // response
+	buf.WriteByte(m.Result) // response
 	buf.WriteByte(0x00)
 	for i := 4; i < 16; i++ {
 		buf.WriteByte(0x00)
diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 075ff34..6e40f1d 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -154,11 +154,16 @@ func digestKeyInConv(value uint) string {
 }
 
 func numberKeyConv(value string) (uint, bool) {
-	v, err := strconv.Atoi(value)
-	if err == nil {
-		return uint(v), true
+	var (
+		v   uint64
+		err error
+	)
+	if strings.HasPrefix(value, "0x") || strings.HasPrefix(value, "0X") {
+		v, err = strconv.ParseUint(value[2:], 16, 32)
+	} else {
+		v, err = strconv.ParseUint(value, 10, 32)
 	}
-	return uint(v), false
+	return uint(v), err == nil
 }
 
 func numberKeyInConv(value uint) string {
@@ -200,9 +205,9 @@ var sessionKeys map[string]*iscsiSessionKeys = map[string]*iscsiSessionKeys{
 	// ISCSI_PARAM_MAX_BURST
 	"MaxBurstLength": {ISCSI_PARAM_MAX_BURST, true, 262144, 512, 16777215, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_PDU_INORDER_EN
-	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataPDUInOrder": {ISCSI_PARAM_PDU_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_DATASEQ_INORDER_EN
-	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, numberKeyConv, numberKeyInConv},
+	"DataSequenceInOrder": {ISCSI_PARAM_DATASEQ_INORDER_EN, true, 1, 0, 1, boolKeyConv, boolKeyInConv},
 	// ISCSI_PARAM_ERL
 	"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2, numberKeyConv, numberKeyInConv},
 	// ISCSI_PARAM_IFMARKER_EN
@@ -329,36 +334,20 @@ func (s *ISCSITargetDriver) BindISCSISession(conn *iscsiConnection) error {
 	var (
 		target  *ISCSITarget
 		newSess *ISCSISession
-		tpgt    uint16
 		err     error
 	)
 
-	//Find TPGT and Target ID
-	if conn.loginParam.sessionType == SESSION_DISCOVERY {
-		conn.tid = 0xffff
-	} else {
+	if conn.loginParam.sessionType == SESSION_NORMAL {
 		target = s.findTarget(conn.loginParam.target)
-		if target == nil {
-			return fmt.Errorf("No target found with name(%s)", conn.loginParam.target)
-		}
-
-		s.mu.RLock()
-		tpgt, err = target.FindTPG(conn.conn.LocalAddr().String())
-		s.mu.RUnlock()
-		if err != nil {
-			return err
-		}
-		conn.loginParam.tpgt = tpgt
-		conn.tid = target.TID
 	}
 
 	if conn.loginParam.tsih != ISCSI_UNSPEC_TSIH {
 		// there is one connection per session, none can be added
 		if s.LookupISCSISession(conn.loginParam.target, conn.loginParam.initiator,
 			conn.loginParam.isid, conn.loginParam.tsih, conn.loginParam.tpgt) == nil {
-			return fmt.Errorf("initiator err, no session")
+			return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_NO_SESSION, "no session with this TSIH"}
 		}
-		return fmt.Errorf("initiator err, invalid request")
+		return &loginError{ISCSI_STATUS_INITIATOR_ERR, ISCSI_STATUS_TOO_MANY_CONNS, "session has a connection"}
 	}
 
 	newSess, err = s.NewISCSISession(conn)
@@ -418,7 +407,8 @@ func (s *ISCSITargetDriver) NewISCSISession(conn *iscsiConnection) (*ISCSISessio
 
 	tsih = s.AllocTSIH()
 	if tsih == ISCSI_UNSPEC_TSIH {
-		return nil, fmt.Errorf("TSIH Pool exhausted tid(%d)", conn.tid)
+		return nil, &loginError{ISCSI_STATUS_TARGET_ERR, ISCSI_STATUS_NO_RESOURCES,
+			fmt.Sprintf("TSIH Pool exhausted tid(%d)", conn.tid)}
 	}
 
 	sess := &ISCSISession{
diff --git a/pkg/util/util.go b/pkg/util/util.go
index 5ef830f..802bdd6 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -53,12 +53,18 @@ func ParseKVText(txt []byte) map[string]string {
 			}
 			continue
 		}
-		if txt[i] == 0 && key != "" {
-			m[key] = string(txt[sep+1 : i])
+		if txt[i] == 0 {
+			if key != "" {
+				m[key] = string(txt[sep+1 : i])
+			}
 			key = ""
 			kv = i + 1
 		}
 	}
+	// the last value may lack its delimiter
+	if key != "" {
+		m[key] = string(txt[sep+1:])
+	}
 	return m
 }
 
-- 
2.43.0


From 57997ec67ec744b2b21d8b091078b15e279c8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 20/41] fix: the transmit segment length and the command queue
 length are different parameters

---
 pkg/port/iscsit/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 6e40f1d..249dc9f 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -70,7 +70,7 @@ const (
 	ISCSI_PARAM_MAX_OUTST_PDU
 	/* "local" parmas, never sent to the initiator */
 	ISCSI_PARAM_FIRST_LOCAL
-	ISCSI_PARAM_MAX_XMIT_DLENGTH = ISCSI_PARAM_FIRST_LOCAL
+	ISCSI_PARAM_MAX_XMIT_DLENGTH = iota - 1
 	ISCSI_PARAM_MAX_QUEUE_CMD
 	/* must always be last */
 	ISCSI_PARAM_MAX
-- 
2.43.0


From 2c685ee9c412cebe6f2137a66c038dbf8fafd14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 21/41] fix: a LUN number that cannot be addressed is refused

---
 pkg/scsi/scsilumap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 3d4e36f..0d7d4a0 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -47,6 +47,9 @@ var globalSCSILUMap = SCSILUMap{
 // lunMutex guards the LUN maps of the targets, which commands are looked up in
 var lunMutex sync.RWMutex
 
+// maxLUN is the highest number flat space addressing can express
+const maxLUN = 0x3fff
+
 type LUNMapping struct {
 	TargetName string
 	LUN        uint64
@@ -54,6 +57,9 @@ type LUNMapping struct {
 }
 
 func mappingLUN(lm LUNMapping) error {
+	if lm.LUN > maxLUN {
+		return fmt.Errorf("LUN %d is above %d and cannot be addressed", lm.LUN, maxLUN)
+	}
 	lunMutex.Lock()
 	defer lunMutex.Unlock()
 	device := globalSCSILUMap.AllDevices[lm.DeviceID]
-- 
2.43.0


From caebe8bc52770daf49617db23030c7d242d6ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 22/41] fix: REGISTER AND MOVE moves to the initiator port its
 TransportID names

---
 pkg/port/iscsit/session.go |  6 +-----
 pkg/scsi/scsi_pr.go        | 27 +++++++++++++++++++++++++++
 pkg/scsi/spc.go            | 21 +++++++++++----------
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/pkg/port/iscsit/session.go b/pkg/port/iscsit/session.go
index 249dc9f..9ee949a 100644
--- a/pkg/port/iscsit/session.go
+++ b/pkg/port/iscsit/session.go
@@ -475,9 +475,5 @@ func (sess *ISCSISession) abortTasks(cond func(cmd *ISCSICommand) bool) bool {
  * iSCSI I_T nexus identifer = (iSCSI Initiator Name + 'i' + ISID, iSCSI Target Name + 't' + Portal Group Tag)
  */
 func GeniSCSIITNexusID(sess *ISCSISession) string {
-	strID := fmt.Sprintf("%si0x%12x,%st%d",
-		sess.Initiator, sess.ISID,
-		sess.Target.SCSITarget.Name,
-		sess.TPGT)
-	return strID
+	return scsi.ISCSINexusName(sess.Initiator, sess.ISID, sess.Target.SCSITarget.Name, sess.TPGT)
 }
diff --git a/pkg/scsi/scsi_pr.go b/pkg/scsi/scsi_pr.go
index cf81272..efe131f 100644
--- a/pkg/scsi/scsi_pr.go
+++ b/pkg/scsi/scsi_pr.go
@@ -17,6 +17,9 @@ limitations under the License.
 package scsi
 
 import (
+	"fmt"
+	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/gostor/gotgt/pkg/api"
@@ -361,6 +364,30 @@ func reservationConflict(cmd *api.SCSICommand, bits uint8) bool {
 	return false
 }
 
+// ISCSINexusName names the I_T nexus of an iSCSI initiator port and a target port
+func ISCSINexusName(initiator string, isid uint64, target string, tpgt uint16) string {
+	return fmt.Sprintf("%si0x%12x,%st%d", initiator, isid, target, tpgt)
+}
+
+// transportIDNexus returns the I_T nexus of the iSCSI initiator port that a
+// TransportID names and the target port with this relative identifier
+func transportIDNexus(target *api.SCSITarget, relPortID uint16, tid []byte) (uuid.UUID, bool) {
+	// only an initiator port can be the destination, not an initiator device
+	if tid[0] != 1<<6|PIV_ISCSI || FindTargetPort(target, relPortID) == nil {
+		return uuid.Nil, false
+	}
+	port := strings.SplitN(string(tid[4:]), "\x00", 2)[0]
+	i := strings.LastIndex(port, ",i,0x")
+	if i < 0 {
+		return uuid.Nil, false
+	}
+	isid, err := strconv.ParseUint(port[i+5:], 16, 48)
+	if err != nil {
+		return uuid.Nil, false
+	}
+	return uuid.NewV5(uuid.NamespaceOID, ISCSINexusName(port[:i], isid, target.Name, relPortID)), true
+}
+
 func (op *SCSISimpleReservationOperator) Save(tgtName string, devUUID uint64) bool {
 	return true
 }
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index a8362a6..3c102cf 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -1290,13 +1290,13 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		unreg               uint8
 		aptpl               uint8
 		tpidDataLen         uint32
-		//idLen        uint32
+		dstNexus            uuid.UUID
+		ok                  bool
 	)
 
 	tgtName := cmd.Target.Name
 	devUUID := cmd.Device.UUID
 	scsiResOp := GetSCSIReservationOperator()
-	resList := scsiResOp.GetReservationList(tgtName, devUUID)
 
 	paramListLen = util.GetUnalignedUint32(scb[5:9])
 	if len(buf) < 24 {
@@ -1349,15 +1349,16 @@ func SPCPRRegisterAndMove(host int, cmd *api.SCSICommand) api.SAMStat {
 		goto sense
 	}
 
-	for _, dstReg = range resList {
-		if dstReg != res && dstReg.Key == sAResKey {
-			goto found
-		}
+	dstNexus, ok = transportIDNexus(cmd.Target, util.GetUnalignedUint16(buf[18:20]), buf[24:24+tpidDataLen])
+	if !ok || uuid.Equal(dstNexus, cmd.ITNexusID) {
+		goto sense
 	}
-
-	goto sense
-found:
-	//TODO check transportid
+	dstReg = scsiResOp.GetReservation(tgtName, devUUID, dstNexus)
+	if dstReg == nil {
+		dstReg = &api.SCSIReservation{ID: uuid.NewV1(), ITNexusID: dstNexus}
+		scsiResOp.AddReservation(tgtName, devUUID, dstReg)
+	}
+	dstReg.Key = sAResKey
 	dstReg.Scope = curRes.Scope
 	dstReg.Type = curRes.Type
 	scsiResOp.SetCurrentReservation(tgtName, devUUID, dstReg)
-- 
2.43.0


From 87b2192d2e129a6c3bb0951a0230fa674559a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:10 +0000
Subject: [PATCH 23/41] fix: the ports of a new target are added under the lock
 its listing takes

---
 pkg/port/iscsit/iscsid.go | 2 +-
 pkg/scsi/scsi.go          | 7 ++++++-
 pkg/scsi/target.go        | 7 +++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 95e2d35..8954406 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -147,7 +147,7 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 	for _, tpgtNumber := range tpgts {
 		tgt.TPGTs[uint16(tpgtNumber)] = &iSCSITPGT{uint16(tpgtNumber), make(map[string]struct{})}
 		targetPortName := fmt.Sprintf("%s,t,0x%02x", tgtName, tpgtNumber)
-		scsiTPG.TargetPortGroup = append(scsiTPG.TargetPortGroup, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
+		s.SCSI.AddTargetPort(scsiTPG, &api.SCSITargetPort{uint16(tpgtNumber), targetPortName})
 	}
 	for tpgt, portalIDArrary := range targetConfig.TPGTs {
 		tpgtNumber, _ := strconv.ParseUint(tpgt, 10, 16)
diff --git a/pkg/scsi/scsi.go b/pkg/scsi/scsi.go
index 24291c9..ad66a2d 100644
--- a/pkg/scsi/scsi.go
+++ b/pkg/scsi/scsi.go
@@ -55,7 +55,12 @@ func (s *SCSITargetService) GetTargetList() ([]api.SCSITarget, error) {
 		r := &result[i]
 		r.Name, r.TID, r.LID, r.State = t.Name, t.TID, t.LID, t.State
 		r.Devices, r.LUN0 = t.Devices, t.LUN0
-		r.TargetPortGroups, r.SCSITargetDriver = t.TargetPortGroups, t.SCSITargetDriver
+		r.SCSITargetDriver = t.SCSITargetDriver
+		r.TargetPortGroups = make([]*api.TargetPortGroup, len(t.TargetPortGroups))
+		for j, tpg := range t.TargetPortGroups {
+			ports := append([]*api.SCSITargetPort{}, tpg.TargetPortGroup...)
+			r.TargetPortGroups[j] = &api.TargetPortGroup{tpg.GroupID, ports}
+		}
 		r.ITNexus = make(map[uuid.UUID]*api.ITNexus)
 		t.ITNexusMutex.Lock()
 		for id, itn := range t.ITNexus {
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 758e8ca..18f0e93 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -47,6 +47,13 @@ func (s *SCSITargetService) NewSCSITarget(tid int, driverName, name string) (*ap
 	return target, nil
 }
 
+// AddTargetPort adds a port to a target port group
+func (s *SCSITargetService) AddTargetPort(tpg *api.TargetPortGroup, port *api.SCSITargetPort) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	tpg.TargetPortGroup = append(tpg.TargetPortGroup, port)
+}
+
 func (s *SCSITargetService) RereadTargetLUNMap() {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
-- 
2.43.0


From 2b64ff235eb692c04bb0729c1c72c3b1200a46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:58 +0000
Subject: [PATCH 24/41] fix: ABORT TASK SET takes in commands sent for
 immediate delivery

---
 pkg/port/iscsit/iscsid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 8954406..05bc9d1 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -909,7 +909,7 @@ func (s *ISCSITargetDriver) taskManagementHandler(conn *iscsiConnection) {
 			task.result = ISCSI_TMF_RSP_COMPLETE
 		}
 	case ISCSI_TM_FUNC_ABORT_TASK_SET, ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
-		sess.abortTasks(func(cmd *ISCSICommand) bool { return cmd.LUN == req.LUN && int32(cmd.CmdSN-req.CmdSN) < 0 })
+		sess.abortTasks(func(cmd *ISCSICommand) bool { return cmd.LUN == req.LUN && int32(cmd.CmdSN-req.CmdSN) <= 0 })
 		task.result = ISCSI_TMF_RSP_COMPLETE
 	case ISCSI_TM_FUNC_CLEAR_ACA:
 		fallthrough
-- 
2.43.0


From 7e3ccff967b00a7ee017bae9ccfb30085b1a3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 25/41] fix: LOGICAL UNIT RESET ends the reservation of the
 logical unit

---
 pkg/port/iscsit/iscsid.go |  3 +++
 pkg/scsi/target.go        | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 05bc9d1..4e75f7b 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -910,6 +910,9 @@ func (s *ISCSITargetDriver) taskManagementHandler(conn *iscsiConnection) {
 		}
 	case ISCSI_TM_FUNC_ABORT_TASK_SET, ISCSI_TM_FUNC_LOGICAL_UNIT_RESET:
 		sess.abortTasks(func(cmd *ISCSICommand) bool { return cmd.LUN == req.LUN && int32(cmd.CmdSN-req.CmdSN) <= 0 })
+		if req.TaskFunc == ISCSI_TM_FUNC_LOGICAL_UNIT_RESET {
+			scsi.ResetLU(sess.Target.SCSITarget, req.LUN)
+		}
 		task.result = ISCSI_TMF_RSP_COMPLETE
 	case ISCSI_TM_FUNC_CLEAR_ACA:
 		fallthrough
diff --git a/pkg/scsi/target.go b/pkg/scsi/target.go
index 18f0e93..b48076d 100644
--- a/pkg/scsi/target.go
+++ b/pkg/scsi/target.go
@@ -17,6 +17,7 @@ limitations under the License.
 package scsi
 
 import (
+	"encoding/binary"
 	"fmt"
 	"sync"
 
@@ -114,6 +115,18 @@ func RemoveITNexus(target *api.SCSITarget, itnexus *api.ITNexus) {
 	}
 }
 
+// ResetLU ends the reservation of a LU of the target, whoever holds it
+func ResetLU(target *api.SCSITarget, lun [8]uint8) {
+	lunMutex.RLock()
+	lu := target.Devices[binary.LittleEndian.Uint64(lun[:])]
+	lunMutex.RUnlock()
+	if lu != nil {
+		reserveMutex.Lock()
+		lu.ReserveID = uuid.Nil
+		reserveMutex.Unlock()
+	}
+}
+
 // reserveMutex guards SCSILu.ReserveID
 var reserveMutex sync.Mutex
 
-- 
2.43.0


From 079f5431c8cacdb96ba9ffb9a5b6b51ed98668c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:20 +0000
Subject: [PATCH 26/41] fix: the API answers the versioned paths its own client
 asks for

---
 pkg/apiserver/apiserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 6803fd6..6918e6a 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -39,7 +39,7 @@ import (
 
 // versionMatcher defines a variable matcher to be parsed by the router
 // when a request is about to be served.
-const versionMatcher = "/v{version:[0-9.]+(?:-dirty)}"
+const versionMatcher = "/v{version:[^/]+}"
 
 // Config provides the configuration for the API server
 type Config struct {
-- 
2.43.0


From 5e4048553de79cb42cea5dfd9126a16e6985015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 27/41] fix: the target list can be restricted to one name

---
 pkg/apiserver/router/target/target.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/router/target/target.go b/pkg/apiserver/router/target/target.go
index 87cbc9a..6bcdf44 100644
--- a/pkg/apiserver/router/target/target.go
+++ b/pkg/apiserver/router/target/target.go
@@ -18,6 +18,7 @@ package target
 import (
 	"net/http"
 
+	"github.com/gostor/gotgt/pkg/api"
 	"github.com/gostor/gotgt/pkg/apiserver/httputils"
 	"github.com/gostor/gotgt/pkg/apiserver/router"
 	"github.com/gostor/gotgt/pkg/scsi"
@@ -61,7 +62,14 @@ func (r *targetRouter) getTargetList(ctx context.Context, w http.ResponseWriter,
 	if err != nil {
 		return err
 	}
-	return httputils.WriteJSON(w, http.StatusOK, tgts)
+	name := req.FormValue("name")
+	list := []*api.SCSITarget{}
+	for i := range tgts {
+		if name == "" || tgts[i].Name == name {
+			list = append(list, &tgts[i])
+		}
+	}
+	return httputils.WriteJSON(w, http.StatusOK, list)
 }
 
 func (r *targetRouter) postTargetCreate(ctx context.Context, w http.ResponseWriter, req *http.Request, vars map[string]string) error {
-- 
2.43.0


From 93e67c9b657d35c6084213f5cc5e1ef7144ceeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 28/41] fix: operations that are not implemented are not
 reported as done

---
 cmd/create.go                               | 2 +-
 cmd/list.go                                 | 2 +-
 cmd/remove.go                               | 2 +-
 pkg/api/client/target_delete.go             | 2 +-
 pkg/apiserver/httputils/httputils.go        | 5 +++++
 pkg/apiserver/router/discovery/discovery.go | 5 +++--
 pkg/apiserver/router/lu/lu.go               | 7 ++++---
 pkg/apiserver/router/target/target.go       | 6 +++---
 8 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/cmd/create.go b/cmd/create.go
index aaf0e07..09f94ff 100644
--- a/cmd/create.go
+++ b/cmd/create.go
@@ -91,5 +91,5 @@ func createTarget(cli *client.Client, opts api.TargetCreateRequest) error {
 }
 
 func createLu(cli *client.Client) error {
-	return nil
+	return fmt.Errorf("not implemented")
 }
diff --git a/cmd/list.go b/cmd/list.go
index d752629..3ad9ac7 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -104,5 +104,5 @@ func listTarget(cli *client.Client, opts api.TargetListOptions) error {
 }
 
 func listLu(cli *client.Client) error {
-	return nil
+	return fmt.Errorf("not implemented")
 }
diff --git a/cmd/remove.go b/cmd/remove.go
index fa89495..2207a99 100644
--- a/cmd/remove.go
+++ b/cmd/remove.go
@@ -83,5 +83,5 @@ func removeTarget(cli *client.Client, opts api.TargetRemoveOptions) error {
 }
 
 func removeLu(cli *client.Client) error {
-	return nil
+	return fmt.Errorf("not implemented")
 }
diff --git a/pkg/api/client/target_delete.go b/pkg/api/client/target_delete.go
index b35d833..a81faf9 100644
--- a/pkg/api/client/target_delete.go
+++ b/pkg/api/client/target_delete.go
@@ -29,7 +29,7 @@ func (cli *Client) TargetRemove(ctx context.Context, options api.TargetRemoveOpt
 	if options.Force {
 		query.Set("force", "1")
 	}
-	resp, err := cli.delete(ctx, "/targets/"+options.Name, query, nil)
+	resp, err := cli.delete(ctx, "/target/"+options.Name, query, nil)
 	ensureReaderClosed(resp)
 	return err
 }
diff --git a/pkg/apiserver/httputils/httputils.go b/pkg/apiserver/httputils/httputils.go
index 0927bbb..9d31aa3 100644
--- a/pkg/apiserver/httputils/httputils.go
+++ b/pkg/apiserver/httputils/httputils.go
@@ -19,6 +19,7 @@ package httputils
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"mime"
@@ -33,6 +34,9 @@ import (
 // APIVersionKey is the client's requested API version.
 const APIVersionKey = "api-version"
 
+// ErrNotImplemented is the answer to operations the server does not have yet
+var ErrNotImplemented = errors.New("not implemented")
+
 // APIFunc is an adapter to allow the use of ordinary functions as Docker API endpoints.
 // Any function that has the appropriate signature can be register as a API endpoint (e.g. getVersion).
 type APIFunc func(ctx context.Context, w http.ResponseWriter, r *http.Request, vars map[string]string) error
@@ -134,6 +138,7 @@ func WriteError(w http.ResponseWriter, err error) {
 		"impossible":            http.StatusNotAcceptable,
 		"wrong login/password":  http.StatusUnauthorized,
 		"hasn't been activated": http.StatusForbidden,
+		"not implemented":       http.StatusNotImplemented,
 	} {
 		if strings.Contains(errStr, keyword) {
 			statusCode = status
diff --git a/pkg/apiserver/router/discovery/discovery.go b/pkg/apiserver/router/discovery/discovery.go
index 7aa5c69..54f6e86 100644
--- a/pkg/apiserver/router/discovery/discovery.go
+++ b/pkg/apiserver/router/discovery/discovery.go
@@ -18,6 +18,7 @@ package discovery
 import (
 	"net/http"
 
+	"github.com/gostor/gotgt/pkg/apiserver/httputils"
 	"github.com/gostor/gotgt/pkg/apiserver/router"
 	"golang.org/x/net/context"
 )
@@ -52,9 +53,9 @@ func (r *discoveryRouter) initRoutes() {
 }
 
 func (s *discoveryRouter) getDiscovery(ctx context.Context, w http.ResponseWriter, r *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
 
 func (s *discoveryRouter) postDiscoveryCreate(ctx context.Context, w http.ResponseWriter, r *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
diff --git a/pkg/apiserver/router/lu/lu.go b/pkg/apiserver/router/lu/lu.go
index f4bb166..7374c60 100644
--- a/pkg/apiserver/router/lu/lu.go
+++ b/pkg/apiserver/router/lu/lu.go
@@ -18,6 +18,7 @@ package lu
 import (
 	"net/http"
 
+	"github.com/gostor/gotgt/pkg/apiserver/httputils"
 	"github.com/gostor/gotgt/pkg/apiserver/router"
 	"golang.org/x/net/context"
 )
@@ -53,13 +54,13 @@ func (r *luRouter) initRoutes() {
 }
 
 func (s *luRouter) getLu(ctx context.Context, w http.ResponseWriter, r *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
 
 func (s *luRouter) postLuCreate(ctx context.Context, w http.ResponseWriter, r *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
 
 func (s *luRouter) deleteLu(ctx context.Context, w http.ResponseWriter, r *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
diff --git a/pkg/apiserver/router/target/target.go b/pkg/apiserver/router/target/target.go
index 6bcdf44..5072256 100644
--- a/pkg/apiserver/router/target/target.go
+++ b/pkg/apiserver/router/target/target.go
@@ -73,13 +73,13 @@ func (r *targetRouter) getTargetList(ctx context.Context, w http.ResponseWriter,
 }
 
 func (r *targetRouter) postTargetCreate(ctx context.Context, w http.ResponseWriter, req *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
 
 func (r *targetRouter) postTargetUp(ctx context.Context, w http.ResponseWriter, req *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
 
 func (r *targetRouter) deleteTarget(ctx context.Context, w http.ResponseWriter, req *http.Request, vars map[string]string) error {
-	return nil
+	return httputils.ErrNotImplemented
 }
-- 
2.43.0


From 36fd75aa2e06f0788bc5d6964e47209a1a91e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:03 +0000
Subject: [PATCH 29/41] fix: a configuration file with anything after the
 configuration is refused

---
 pkg/config/config.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index a21d3f7..dff3b34 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -20,6 +20,7 @@ package config
 import (
 	"encoding/json"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -165,13 +166,14 @@ func Load(configDir string) (*Config, error) {
 		return config, fmt.Errorf("%s - %v", filename, err)
 	}
 	defer file.Close()
-	if err = json.NewDecoder(file).Decode(config); err != nil {
-		return config, err
+	dec := json.NewDecoder(file)
+	if err = dec.Decode(config); err != nil {
+		return config, fmt.Errorf("%s - %v", filename, err)
 	}
-	if err != nil {
-		err = fmt.Errorf("%s - %v", filename, err)
+	if _, err = dec.Token(); err != io.EOF {
+		return config, fmt.Errorf("%s - unexpected data after the configuration", filename)
 	}
-	return config, err
+	return config, nil
 }
 
 // Save encodes and writes out all the authorization information
-- 
2.43.0


From 6193c5b537ee574980bf962ed83be7ddd85a6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:05 +0000
Subject: [PATCH 30/41] fix: a block shift no block size can have is refused

---
 pkg/scsi/lun.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 2543f9b..c38c78e 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -17,6 +17,7 @@ package scsi
 
 import (
 	"errors"
+	"fmt"
 	"strings"
 	"sync/atomic"
 
@@ -24,6 +25,12 @@ import (
 	"github.com/gostor/gotgt/pkg/config"
 )
 
+// block sizes that can be configured: 512 bytes to 64 KiB
+const (
+	minBlockShift = 9
+	maxBlockShift = 16
+)
+
 // NewSCSILu: create a new SCSI LU
 // path format <protocol>:/absolute/file/path
 func NewSCSILu(bs *config.BackendStorage) (*api.SCSILu, error) {
@@ -34,6 +41,10 @@ func NewSCSILu(bs *config.BackendStorage) (*api.SCSILu, error) {
 	backendType := pathinfo[0]
 	backendPath := pathinfo[1]
 
+	if bs.BlockShift != 0 && (bs.BlockShift < minBlockShift || bs.BlockShift > maxBlockShift) {
+		return nil, fmt.Errorf("block shift %d of device %d is not between %d and %d", bs.BlockShift, bs.DeviceID, minBlockShift, maxBlockShift)
+	}
+
 	sbc := NewSBCDevice(api.TYPE_DISK)
 	backing, err := NewBackingStore(backendType)
 	if err != nil {
-- 
2.43.0


From be4bef50c25bcb51c39e261b387ac89926420562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 31/41] fix: storage without room for a block is refused

---
 pkg/scsi/lun.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index c38c78e..380dc29 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -65,6 +65,10 @@ func NewSCSILu(bs *config.BackendStorage) (*api.SCSILu, error) {
 	}
 	lu.Size = backing.Size(lu)
 	lu.DeviceProtocol.InitLu(lu)
+	if lu.Size>>lu.BlockShift == 0 {
+		backing.Close(lu)
+		return nil, fmt.Errorf("device %d has no room for a block", bs.DeviceID)
+	}
 	lu.Attrs.ThinProvisioning = bs.ThinProvisioning
 	lu.Attrs.Online = bs.Online
 	lu.Attrs.Lbppbe = 3
-- 
2.43.0


From 913f300bf86c3798491021c2f4ff01518c4f5719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 32/41] fix: a LUN or portal group given twice in different
 spellings is refused

---
 pkg/port/iscsit/iscsid.go | 5 +++++
 pkg/scsi/scsilumap.go     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 4e75f7b..76cbc54 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -129,6 +129,11 @@ func (s *ISCSITargetDriver) NewTarget(tgtName string, configInfo *config.Config)
 		if err != nil {
 			return fmt.Errorf("invalid portal group tag %q of target %s", tpgt, tgtName)
 		}
+		for _, t := range tpgts {
+			if t == int(tpgtNumber) {
+				return fmt.Errorf("portal group tag %d of target %s is given twice", t, tgtName)
+			}
+		}
 		for _, portalID := range portalIDArrary {
 			if _, ok := portals[portalID]; !ok {
 				return fmt.Errorf("no portal %d, in %s,%s", portalID, tgtName, tpgt)
diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 0d7d4a0..3d32301 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -159,11 +159,16 @@ func InitSCSILUMap(config *config.Config) error {
 	}
 
 	for tgtName, tgt := range config.ISCSITargets {
+		luns := map[uint64]bool{}
 		for lunstr, deviceID := range tgt.LUNs {
 			lun, err := strconv.ParseUint(lunstr, 10, 64)
 			if err != nil {
 				return fmt.Errorf("LU Number must be a number")
 			}
+			if luns[lun] {
+				return fmt.Errorf("LUN %d of target %s is given twice", lun, tgtName)
+			}
+			luns[lun] = true
 			m := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}
 			if err := AddLUNMapping(m); err != nil {
 				return err
-- 
2.43.0


From ee023389f0b16d463ec870167178f34d1075ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:03 +0000
Subject: [PATCH 33/41] fix: a storage path with an empty kind is refused
 instead of crashing the start

---
 pkg/scsi/backingstore.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/scsi/backingstore.go b/pkg/scsi/backingstore.go
index 4d68ffd..350f2ff 100644
--- a/pkg/scsi/backingstore.go
+++ b/pkg/scsi/backingstore.go
@@ -41,9 +41,6 @@ func RegisterBackingStore(name string, f BackingStoreFunc) {
 }
 
 func NewBackingStore(name string) (api.BackingStore, error) {
-	if name == "" {
-		return nil, nil
-	}
 	f, ok := registeredBSPlugins[name]
 	if !ok {
 		return nil, fmt.Errorf("Backend storage %s is not found.", name)
-- 
2.43.0


From 58e0b753cecf63ef17d9ee7eecd29355b6d73bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 34/41] fix: a daemon without a driver is refused instead of
 crashing

---
 pkg/scsi/drivers.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/scsi/drivers.go b/pkg/scsi/drivers.go
index 42e6344..d1e129e 100644
--- a/pkg/scsi/drivers.go
+++ b/pkg/scsi/drivers.go
@@ -62,9 +62,6 @@ func RegisterTargetDriver(name string, f TargetDriverFunc) {
 }
 
 func NewTargetDriver(tgtDriver string, s *SCSITargetService) (SCSITargetDriver, error) {
-	if tgtDriver == "" {
-		return nil, nil
-	}
 	targetInitFunc, ok := registeredPlugins[tgtDriver]
 	if !ok {
 		return nil, fmt.Errorf("SCSI target driver %s is not found.", tgtDriver)
-- 
2.43.0


From e1775407a771f663b4d8435cba4f3e963bfa1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 35/41] fix: WRITE SAME with LBDATA or PBDATA is refused
 instead of writing the block as it is

---
 pkg/scsi/sbc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/sbc.go b/pkg/scsi/sbc.go
index 62936f1..9f862fb 100644
--- a/pkg/scsi/sbc.go
+++ b/pkg/scsi/sbc.go
@@ -439,8 +439,8 @@ func SBCReadWrite(host int, cmd *api.SCSICommand) api.SAMStat {
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
 		}
-		// LBDATA and PBDATA can not both be set
-		if (scb[1] & 0x06) == 0x06 {
+		// we dont support LBDATA and PBDATA
+		if scb[1]&0x06 != 0 {
 			key = ILLEGAL_REQUEST
 			asc = ASC_INVALID_FIELD_IN_CDB
 			goto sense
-- 
2.43.0


From 4244a92454c179514ad91576dc7d14f251609cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 36/41] fix: device ids that do not fit into the NAA designator
 are refused instead of sharing one

---
 pkg/scsi/lun.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 380dc29..38fc7ea 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -44,6 +44,10 @@ func NewSCSILu(bs *config.BackendStorage) (*api.SCSILu, error) {
 	if bs.BlockShift != 0 && (bs.BlockShift < minBlockShift || bs.BlockShift > maxBlockShift) {
 		return nil, fmt.Errorf("block shift %d of device %d is not between %d and %d", bs.BlockShift, bs.DeviceID, minBlockShift, maxBlockShift)
 	}
+	// the NAA designator has room for 60 bits of it
+	if bs.DeviceID>>60 != 0 {
+		return nil, fmt.Errorf("device id %d is above %d", bs.DeviceID, uint64(1)<<60-1)
+	}
 
 	sbc := NewSBCDevice(api.TYPE_DISK)
 	backing, err := NewBackingStore(backendType)
-- 
2.43.0


From edf5f3c1dc12bda65816d12f137846a96fe682da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 37/41] fix: device ids that do not fit into the NAA designator
 get a T10 designator instead of sharing an NAA

---
 pkg/scsi/lun.go |  4 ----
 pkg/scsi/spc.go | 28 ++++++++++++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/scsi/lun.go b/pkg/scsi/lun.go
index 38fc7ea..380dc29 100644
--- a/pkg/scsi/lun.go
+++ b/pkg/scsi/lun.go
@@ -44,10 +44,6 @@ func NewSCSILu(bs *config.BackendStorage) (*api.SCSILu, error) {
 	if bs.BlockShift != 0 && (bs.BlockShift < minBlockShift || bs.BlockShift > maxBlockShift) {
 		return nil, fmt.Errorf("block shift %d of device %d is not between %d and %d", bs.BlockShift, bs.DeviceID, minBlockShift, maxBlockShift)
 	}
-	// the NAA designator has room for 60 bits of it
-	if bs.DeviceID>>60 != 0 {
-		return nil, fmt.Errorf("device id %d is above %d", bs.DeviceID, uint64(1)<<60-1)
-	}
 
 	sbc := NewSBCDevice(api.TYPE_DISK)
 	backing, err := NewBackingStore(backendType)
diff --git a/pkg/scsi/spc.go b/pkg/scsi/spc.go
index 3c102cf..5d6c483 100644
--- a/pkg/scsi/spc.go
+++ b/pkg/scsi/spc.go
@@ -148,14 +148,26 @@ func InquiryPage0x83(host int, cmd *api.SCSICommand) (*bytes.Buffer, uint16) {
 	//target name
 	descBuf.Write([]byte(cmd.Target.Name))
 
-	//DESCRIPTOR 2 NNA Locally
-	descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_BIN)
-	descBuf.WriteByte(0x80 | (ASS_LU << 4) | DESG_NAA)
-	descBuf.WriteByte(0x00)
-	//length
-	descBuf.WriteByte(0x08)
-	//NNA
-	binary.Write(descBuf, binary.BigEndian, (cmd.Device.UUID | (uint64(NAA_LOCAL) << 60)))
+	if cmd.Device.UUID>>60 == 0 {
+		//DESCRIPTOR 2 NNA Locally
+		descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_BIN)
+		descBuf.WriteByte(0x80 | (ASS_LU << 4) | DESG_NAA)
+		descBuf.WriteByte(0x00)
+		//length
+		descBuf.WriteByte(0x08)
+		//NNA
+		binary.Write(descBuf, binary.BigEndian, (cmd.Device.UUID | (uint64(NAA_LOCAL) << 60)))
+	} else {
+		//DESCRIPTOR 2 T10 vendor ID, NNA has no room for the top bits
+		vendorID := fmt.Sprintf("%-8.8s%d", cmd.Device.Attrs.VendorID, cmd.Device.UUID)
+		descBuf.WriteByte((PIV_ISCSI << 4) | INQ_CODE_ASCII)
+		descBuf.WriteByte(0x80 | (ASS_LU << 4) | DESG_T10)
+		descBuf.WriteByte(0x00)
+		//length
+		descBuf.WriteByte(byte(len(vendorID)))
+		//vendor ID and device id
+		descBuf.WriteString(vendorID)
+	}
 
 	//TODO: Target Port Group(0x05), Relative Target port identifier(0x04)
 
-- 
2.43.0


From ab54c512c1f04d0772cd7e13c78a52f94c522321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 38/41] fix: a text request with more keys is refused while the
 last answer is not fetched

The answers piled up without bound, since every request added more of them
than one response carries.
---
 pkg/port/iscsit/iscsid.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/port/iscsit/iscsid.go b/pkg/port/iscsit/iscsid.go
index 76cbc54..fc70937 100644
--- a/pkg/port/iscsit/iscsid.go
+++ b/pkg/port/iscsit/iscsid.go
@@ -615,8 +615,9 @@ func (s *ISCSITargetDriver) iscsiExecText(conn *iscsiConnection) {
 		conn.textIn, conn.textOut = nil, nil
 	}
 	conn.textIn = append(conn.textIn, req.RawData...)
-	if len(conn.textIn) > ISCSI_MAX_TEXT {
-		conn.textIn = nil
+	// more keys may only come once the whole answer to the last ones is fetched
+	if len(conn.textIn) > ISCSI_MAX_TEXT || len(conn.textIn) > 0 && len(conn.textOut) > 0 {
+		conn.textIn, conn.textOut = nil, nil
 		s.iscsiExecReject(conn, ISCSI_REASON_PROTOCOL_ERROR)
 		return
 	}
-- 
2.43.0


From 2a9eefc9faadf90b48a6cff8789ae0c258ad6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 39/41] fix: the residual of a data-in command sent without the
 read flag is reported

A command with neither direction flag and an expected length of zero was
answered without the overflow that the same command with the flag gets.
---
 pkg/port/iscsit/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/port/iscsit/conn.go b/pkg/port/iscsit/conn.go
index accdf35..4a6587c 100644
--- a/pkg/port/iscsit/conn.go
+++ b/pkg/port/iscsit/conn.go
@@ -202,7 +202,7 @@ func (conn *iscsiConnection) buildRespPackage(oc OpCode, task *iscsiTask) {
 				length := util.MarshalUint32(scmd.SenseBuffer.Length)
 				conn.resp.RawData = append(length[2:4], scmd.SenseBuffer.Buffer...)
 			}
-		} else if scmd.Direction == api.SCSIDataRead {
+		} else if scmd.InSDBBuffer != nil {
 			conn.resp.Transferred = scmd.InSDBBuffer.Resid
 			if oc == OpSCSIIn {
 				conn.resp.RawData = scmd.InSDBBuffer.Buffer
-- 
2.43.0


From faa058afb8107046a52e550dafed865f7ca975d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 40/41] fix: sockets passed by a service manager that cannot be
 used are refused

---
 pkg/apiserver/apiserver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 6918e6a..1eb4710 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -288,6 +288,11 @@ func listenFD(addr string, tlsConfig *tls.Config) ([]net.Listener, error) {
 
 	// default to all fds just like unix:// and tcp://
 	if addr == "" || addr == "*" {
+		for i, ls := range listeners {
+			if ls == nil {
+				return nil, fmt.Errorf("failed to listen on systemd activated file at fd %d", i+3)
+			}
+		}
 		return listeners, nil
 	}
 
@@ -296,6 +301,9 @@ func listenFD(addr string, tlsConfig *tls.Config) ([]net.Listener, error) {
 		return nil, fmt.Errorf("failed to parse systemd address, should be number: %v", err)
 	}
 	fdOffset := fdNum - 3
+	if fdOffset < 0 {
+		return nil, fmt.Errorf("fd %d is no systemd activated file", fdNum)
+	}
 	if len(listeners) < int(fdOffset)+1 {
 		return nil, fmt.Errorf("Too few socket activated files passed in")
 	}
-- 
2.43.0


From 2f97e60fc130b9d8bc2976f7992572065922e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 41/41] fix: a storage is opened without holding the lock of
 the LUN map

---
 pkg/scsi/scsilumap.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/scsi/scsilumap.go b/pkg/scsi/scsilumap.go
index 3d32301..600fb56 100644
--- a/pkg/scsi/scsilumap.go
+++ b/pkg/scsi/scsilumap.go
@@ -106,17 +106,25 @@ func GetTargetBSMap(tgtName string) (api.RemoteBackingStore, error) {
 }
 
 func AddBackendStorage(bs config.BackendStorage) error {
-	globalSCSILUMap.mutex.Lock()
-	defer globalSCSILUMap.mutex.Unlock()
+	globalSCSILUMap.mutex.RLock()
 	_, ok := globalSCSILUMap.AllDevices[bs.DeviceID]
+	globalSCSILUMap.mutex.RUnlock()
 	if ok {
 		return fmt.Errorf("device %d already exists", bs.DeviceID)
 	}
 
+	// Opened without the lock: a remote store looks itself up in the map.
 	lu, err := NewSCSILu(&bs)
 	if err != nil {
 		return fmt.Errorf("Init SCSI LU map error: %v", err)
 	}
+
+	globalSCSILUMap.mutex.Lock()
+	defer globalSCSILUMap.mutex.Unlock()
+	if _, ok = globalSCSILUMap.AllDevices[bs.DeviceID]; ok {
+		lu.Storage.Close(lu)
+		return fmt.Errorf("device %d already exists", bs.DeviceID)
+	}
 	globalSCSILUMap.AllDevices[bs.DeviceID] = lu
 	return nil
 }
-- 
2.43.0

