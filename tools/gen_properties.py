#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
IS = "pkg/port/iscsit/"
SC = "pkg/scsi/"
p("C01", "Reads return exactly what was last written",
  "For every LUN and every supported block size (512 to 4096 bytes), a completed read of any form returns, byte for byte, the most recently completed write to each addressed block, and blocks no write addressed keep their content. This holds for every write form (WRITE 6/10/12/16, WRITE AND VERIFY 10/12/16, WRITE SAME 10/16, ORWRITE 16), every LBA up to the capacity, and however the data was delivered: immediate data, R2T-solicited Data-Out in any segmentation, or interleaved with other outstanding writes. On a file-backed LUN the same bytes are found in the file and after a restart of the server.",
  ["inputs", "histories"], "every sequence of read/write commands, transfer path, PDU segmentation, block size and LBA on one session",
  "libiscsi functional tests write a handful of fixed patterns of one size at 512-byte blocks; transfer-path combinations, block sizes, large LBAs and long histories are never compared with a model.",
  [SC+"sbc.go", SC+"backingstore.go", SC+"backingstore/common.go", SC+"backingstore/remote/remote.go", SC+"scsi.go", IS+"iscsid.go", IS+"conn.go"],
  [("SBCReadWrite", SC+"sbc.go"), ("bsPerformCommand", SC+"backingstore.go"), ("getSCSIReadWriteOffset/Count", SC+"scsi.go"), ("scsiCommandHandler (SCSI command, Data-Out)", IS+"iscsid.go")],
  ["data returned by reads at the initiator", "content of the backing store or file"])
p("C02", "Concurrent block access is linearizable and never cross-talks",
  "When several initiators read and write the same LUNs concurrently over their own sessions, each with several commands outstanding, every logical block behaves as an atomic register: the history of completed commands is linearizable per block. Data and status of one command never appear in another command's response, and writes to one LUN are never visible on another.",
  ["schedules", "histories"], "every interleaving of concurrent sessions, LUNs and outstanding commands",
  "no existing test opens two sessions at once.",
  [IS+"iscsid.go", IS+"session.go", SC+"scsi.go", SC+"backingstore.go"],
  [("per-connection rx/tx serialisation", IS+"iscsid.go"), ("AddCommandQueue routing", SC+"scsi.go")],
  ["call/return events and values at each initiator", "backing store content at quiescence"])
p("C03", "Commands outside the medium are refused and touch nothing",
  "A read, write, verify, write-same, or-write, pre-fetch or synchronize-cache command whose block range is not entirely inside the capacity (including ranges that wrap 64-bit arithmetic), or that carries unsupported protection bits, completes with CHECK CONDITION, ILLEGAL REQUEST and the matching additional sense code, without any access to the medium. No command ever changes a byte, or reaches an offset of the backing store, outside the blocks it addresses, however much or little data the initiator sends, and the last addressable block is always usable.",
  ["inputs"], "every opcode, LBA, length, flag byte, expected data length and amount of data sent; a length of zero at LBA == capacity is left open",
  "tests try a few out-of-range LBAs of each opcode; the boundary/overflow space, mismatched transfer lengths and effects on the store are not observed.",
  [SC+"sbc.go", SC+"scsi.go", SC+"backingstore.go"],
  [("range check in SBCReadWrite/SBCVerify", SC+"sbc.go"), ("LBA/length decoding", SC+"scsi.go")],
  ["status and sense at the initiator", "every backing store call (kind, offset, length)"])
p("C04", "Acknowledged durable writes survive a crash",
  "Once the target has answered GOOD to a write with FUA set, or to a SYNCHRONIZE CACHE covering earlier completed writes, that data has been handed to the backing store and the store's sync covering those blocks has completed before the answer was sent; a crash of the backing store's volatile state at any later point cannot lose it. A synchronize with length zero covers everything from its LBA to the end of the medium, and the caching mode page tells the truth about the write cache.",
  ["crash_points", "histories", "inputs"], "every history of writes, FUA writes and synchronizes, and a crash after every command",
  "unit tests never look at sync calls and cannot crash the medium.",
  [SC+"backingstore.go", SC+"sbc.go", SC+"backingstore/common.go", SC+"backingstore/remote/remote.go", "pkg/util/util_linux.go"],
  [("FUA / WCE handling after write", SC+"backingstore.go"), ("SBCSyncCache", SC+"sbc.go"), ("DataSync implementations", SC+"backingstore/common.go")],
  ["order of store write, store sync and SCSI response", "stable image of a volatile/stable store model"])
p("C05", "Backing store failures are reported, never papered over",
  "If the backing store fails or comes up short on any call a command needs (read, write, sync, unmap), that command completes with CHECK CONDITION and a MEDIUM ERROR or HARDWARE ERROR sense, never GOOD and never with made-up data. Commands whose own store calls succeed are unaffected, and after the fault clears the same session works normally with the data the store really holds.",
  ["fault_sequences", "histories"], "every placement and kind of backing store failure in a command history",
  "no test injects a storage failure.",
  [SC+"backingstore.go", SC+"sbc.go", SC+"backingstore/common.go", SC+"backingstore/remote/remote.go"],
  [("error paths of bsPerformCommand", SC+"backingstore.go"), ("short transfer checks", SC+"backingstore/common.go")],
  ["status, sense and data at the initiator against injected faults"])
p("C06", "Every command gets exactly one well-formed, truthful response",
  "Each SCSI command receives exactly one final response carrying its own initiator task tag, and nothing is sent for a tag after it. Read data arrives as Data-In PDUs with consecutive DataSN and contiguous offsets from 0, never more than the expected length nor the initiator's declared segment size per PDU, with final/status bits only where the protocol allows; the underflow/overflow flags and residual count equal the difference between the expected transfer length and what the command really transferred. A PDU the target refuses is answered by a Reject that carries the complete header of that PDU.",
  ["inputs", "histories"], "every mix of pipelined commands, transfer lengths, expected lengths and negotiated segment sizes",
  "libiscsi tests check data, not PDU framing, residuals or pipelined responses.",
  [IS+"iscsid.go", IS+"conn.go", IS+"cmd.go", SC+"sbc.go", SC+"spc.go"],
  [("buildRespPackage", IS+"conn.go"), ("txHandler Data-In splitting", IS+"iscsid.go"), ("scsiCmdRespBytes/dataInBytes", IS+"cmd.go")],
  ["PDU stream at the initiator"])
p("C07", "Command and status numbering follows the protocol and never wedges",
  "On every connection status-bearing PDUs carry consecutive StatSN values, ExpCmdSN advances by exactly one per non-immediate command (never for immediate ones) and MaxCmdSN never shrinks, across 32-bit wrap-around. Commands reach execution in CmdSN order (writes as soon as their data is there); duplicates and commands outside the window are silently ignored without executing, and whatever mix of PDU types, immediate or not, was sent, later valid commands are still served; NOP-Out pings are answered with their tag and data echoed. After the response to a logout nothing more is sent on the connection.",
  ["histories", "inputs"], "every sequence of immediate/non-immediate SCSI, NOP-Out, Text, task management and Data-Out PDUs and every starting CmdSN/StatSN",
  "the tests use one well-behaved initiator library with sequential commands.",
  [IS+"iscsid.go", IS+"conn.go", IS+"session.go", IS+"cmd.go"],
  [("iscsiTaskQueueHandler", IS+"iscsid.go"), ("StatSN/ExpCmdSN/MaxCmdSN in buildRespPackage", IS+"conn.go")],
  ["sequence numbers in every PDU received", "order of execution at the backing store"],
  [("session.ExpCmdSN", "next command sequence number expected", IS+"session.go")])
p("C08", "R2Ts solicit exactly the missing data",
  "For every write the data the target solicits with R2Ts, together with the immediate data sent, covers the expected transfer exactly once: each R2T stays inside the transfer, asks for bytes not yet received, has 1 to MaxBurstLength bytes and consecutive R2TSN, and no R2T is sent for a command that needs no more data. The command executes exactly once, only after all its data arrived, with each byte placed at the offset the initiator gave it, even when several writes are in progress.",
  ["inputs", "histories"], "every transfer size, amount of immediate data, Data-Out segmentation and interleaving of outstanding writes",
  "only the library's default segmentation is ever exercised.",
  [IS+"iscsid.go", IS+"conn.go", IS+"session.go"],
  [("OpSCSICmd/OpSCSIOut handling", IS+"iscsid.go"), ("OpReady in buildRespPackage", IS+"conn.go")],
  ["R2T PDUs at the initiator", "writes reaching the backing store"],
  [("task.r2tCount/offset", "remaining and received byte counts of a write", IS+"conn.go")])
p("C09", "Nothing is served before a valid login",
  "A connection reaches full feature phase only by a login naming an existing target through one of that target's configured portals (or a discovery session), with an initiator name, and with authentication method None acceptable; every other login attempt is refused. Before that, no SCSI command, task management or text request is ever executed or allowed to reach the backing store, discovery sessions never get SCSI access, and the session lands on the target it named with the portal group of the portal it came through.",
  ["inputs", "histories", "configurations"], "every login PDU sequence, key set, stage flag combination and configuration of targets and portals",
  "tests only perform successful logins.",
  [IS+"login.go", IS+"session.go", IS+"iscsid.go", IS+"iscsit.go"],
  [("BindISCSISession / FindTPG", IS+"session.go"), ("processSecurityData", IS+"login.go"), ("state dispatch in rxHandler", IS+"iscsid.go")],
  ["login responses, connection fate", "backing store calls", "which LUNs answer"])
p("C10", "Negotiated parameters are legal and honoured",
  "Every negotiation answer is a legal outcome of what was offered (a chosen list value was offered, booleans follow the AND/OR rule, numeric results never exceed the minimum rule and stay in range, no key is answered that was not offered except declarations), and the target never declares a digest or feature it does not implement. After login the target honours the outcome: Data-In segments within the initiator's MaxRecvDataSegmentLength, bursts within MaxBurstLength, R2T and immediate data as agreed, whatever order or values the keys had.",
  ["inputs", "configurations"], "every set, order and value of negotiation keys",
  "tests log in with one library's fixed key set.",
  [IS+"login.go", IS+"session.go", IS+"conn.go", "pkg/util/util.go"],
  [("processLoginData", IS+"login.go"), ("sessionKeys table", IS+"session.go")],
  ["login response text keys", "sizes of PDUs after login"])
p("C11", "Discovery reports exactly the configured targets and portals",
  "SendTargets=All in a discovery session returns every configured target exactly once, each with exactly the portal addresses and portal group tags that the configuration assigns to it (portals are referred to by their configured id), or the cluster address when one is set, and nothing else; asking for one target by name returns only that target. The answer is the same however the request, and the answer, is spread over several text PDUs, and an exchange left unfinished does not spoil the next one. Without a cluster address, an initiator can log in to every (target, address) pair so reported.",
  ["configurations", "inputs"], "every configuration of targets, portal ids, portal groups and cluster address",
  "the tests configure one target with one portal.",
  [IS+"iscsid.go", "pkg/config/config.go", "pkg/util/util.go"],
  [("iscsiExecText", IS+"iscsid.go"), ("NewTarget/AddiSCSIPortal", IS+"iscsid.go")],
  ["SendTargets text responses"])
p("C12", "LUN maps are exact, isolated and uniquely identified",
  "For every configuration, REPORT LUNS lists exactly the LUNs configured for the session's target (and a LUN-0 placeholder that offers no medium, if LUN 0 is not configured), addressing a reported LUN reaches exactly the storage it maps to, and every other LUN address is refused for medium access (INQUIRY, if answered, says no device) without reaching any storage of this or another target. Identification data is well formed, equal on every path and across restarts for the same LUN, and distinct for distinct devices; adding or removing LUN mappings at run time takes effect for later commands and for those LUNs only.",
  ["configurations", "inputs", "histories"], "every LUN map, LUN numbers 0 to 16383 (peripheral and flat addressing), and sequence of map changes",
  "tests use a single LUN.",
  [SC+"scsilumap.go", SC+"scsi.go", SC+"spc.go", SC+"lun.go", SC+"target.go"],
  [("AddCommandQueue device lookup", SC+"scsi.go"), ("SPCReportLuns/SPCInquiry", SC+"spc.go"), ("mappingLUN", SC+"scsilumap.go")],
  ["REPORT LUNS, INQUIRY and media commands at the initiator", "which store is called"])
p("C13", "Hostile input is contained",
  "Whatever bytes one connection sends, in any phase of the protocol, the server keeps running, other sessions keep being served with correct data, new logins still succeed, the hostile connection's writes touch only what well-formed commands address, and data merely announced but not sent costs no memory. The connection itself is either still usable or closed; it never silently stops answering valid requests.",
  ["inputs", "histories"], "every byte stream before and after login, truncated at any point, in parallel with regular sessions",
  "no test sends malformed PDUs.",
  [IS+"iscsid.go", IS+"cmd.go", IS+"login.go", IS+"session.go", SC+"spc.go", SC+"sbc.go", SC+"scsi_pr.go", "pkg/util/util.go"],
  [("parseHeader", IS+"cmd.go"), ("rxHandler", IS+"iscsid.go"), ("parameter checks in command handlers", SC+"spc.go")],
  ["process liveness", "a victim session's data and responses", "fresh logins"])
p("C14", "Reported capacity is coherent everywhere",
  "READ CAPACITY (10) and (16), the mode parameter block descriptor and the limit enforced on I/O agree at all times for every device size and block size: last LBA is size divided by block size minus one, with the defined all-ones saturation in the short forms. After a resize every later command on every session uses the new size everywhere, growing exposes the added blocks, shrinking fences the removed ones, and the thin-provisioning bit matches the configuration.",
  ["configurations", "inputs", "histories"], "every device size (including beyond 2^32 blocks), block size and sequence of resizes",
  "tests check a single small size.",
  [SC+"sbc.go", SC+"spc.go", SC+"scsi.go", SC+"lun.go"],
  [("SBCReadCapacity/16", SC+"sbc.go"), ("InitLu mode block descriptor", SC+"sbc.go"), ("Resize", SC+"scsi.go")],
  ["capacity data, mode sense data and I/O outcome at the initiator"])
p("C15", "Descriptive data is well formed at every allocation length",
  "INQUIRY (standard and every advertised vital product page), MODE SENSE (6) and (10), REPORT LUNS, READ CAPACITY, REQUEST SENSE and REPORT SUPPORTED OPERATION CODES return self-consistent data whose length fields match the full data, and for any allocation length the returned bytes are exactly the prefix of the full data. Unsupported pages, page codes and reporting options are refused with ILLEGAL REQUEST, every advertised page is readable and every operation code reported as supported is.",
  ["inputs"], "every page code, subpage, service action, page control and allocation length (REPORT LUNS may refuse less than 16 bytes)",
  "tests look at a few pages with one or two allocation lengths.",
  [SC+"spc.go", SC+"sbc.go", SC+"cmd.go"],
  [("SPCInquiry", SC+"spc.go"), ("SPCModeSense", SC+"spc.go"), ("SPCReportSupportedOperationCodes", SC+"spc.go")],
  ["parameter data at the initiator"])
p("C16", "Persistent reservations follow their state machine",
  "For every history of PERSISTENT RESERVE OUT service actions (register, register-and-ignore, reserve, release, clear, preempt, register-and-move) issued by several initiators on a LUN, status, registered keys, reservation holder, type and generation reported by PERSISTENT RESERVE IN match the SPC-3 state machine: only registered nexuses with the right key act, a holder excludes conflicting reserves, preempt removes exactly the named key's registrations; commands of other nexuses conflict exactly as the reservation's type demands, without effect. Registrations belong to the I_T nexus, so that a new login of the same nexus still has them, and reservations of one LUN never affect another.",
  ["histories", "inputs"], "every sequence of PR commands, keys, types, medium-access commands and logins of several initiators",
  "libiscsi's PR tests are not among the stable ones and unit tests touch none of it.",
  [SC+"scsi_pr.go", SC+"spc.go", SC+"sbc.go"],
  [("SPCPR* service actions", SC+"spc.go"), ("SCSISimpleReservationOperator", SC+"scsi_pr.go")],
  ["status and PR IN data at every initiator against a model"])
p("C17", "RESERVE/RELEASE gives one initiator exclusive use",
  "While one initiator holds a LUN through RESERVE(6), every other initiator's RESERVE and medium-access commands on that LUN end with RESERVATION CONFLICT and have no effect, the holder may reserve again and use the LUN, and other LUNs are unaffected. The holder's RELEASE, or the end of its session, frees it; a RELEASE by anyone else changes nothing; no other command takes or drops a reservation. TEST UNIT READY, INQUIRY, REPORT LUNS, REQUEST SENSE, READ CAPACITY and RELEASE are never in conflict.",
  ["histories", "schedules"], "every interleaving of reserve, release, media commands and disconnects of several initiators",
  "the tests that need two initiators are not run.",
  [SC+"target.go", SC+"sbc.go", SC+"spc.go", SC+"scsi.go"],
  [("deviceReserve/deviceRelease", SC+"target.go"), ("SBCReserve/SBCRelease", SC+"sbc.go")],
  ["status at each initiator", "backing store calls"])
p("C18", "Concurrent use is free of data races and fatal errors",
  "Under any concurrent mix of logins, logouts, dropped connections, I/O on shared LUNs, reservations, management listing, statistics, resize, LUN map changes and shutdown, no two goroutines access shared state without synchronisation and the process neither panics nor deadlocks.",
  ["schedules"], "every interleaving of sessions, management calls and connection churn",
  "the tests run one client at a time without the race detector.",
  [IS+"iscsid.go", IS+"session.go", IS+"conn.go", SC+"scsi.go", SC+"scsilumap.go", SC+"scsi_pr.go", SC+"target.go", "pkg/apiserver/router/target/target.go"],
  [("driver/session/target mutexes", IS+"iscsid.go"), ("LUN map mutex", SC+"scsilumap.go"), ("ITNexus mutex", SC+"target.go")],
  ["Go race detector reports of the server process", "process exit"])
p("C19", "Connections give back everything they took",
  "However a session ends (logout, client close, reset, failed login, malformed PDU, mid-transfer disconnect), the server closes its socket and releases the session: after any number of connect/disconnect cycles the number of open descriptors, goroutines, sessions and initiator nexuses returns to the baseline, and new logins keep succeeding, also beyond the number of session handles.",
  ["histories", "fault_sequences"], "every sequence of ways to start and end sessions",
  "tests open a few sessions and never look at leaks.",
  [IS+"iscsid.go", IS+"session.go", IS+"conn.go", SC+"target.go"],
  [("connection close path", IS+"iscsid.go"), ("TSIH pool", IS+"iscsid.go"), ("UnBindISCSISession", IS+"session.go")],
  ["server fd and goroutine counts", "nexus list of the management API", "fresh logins"],
  [("TSIHPool", "allocated session handles", IS+"iscsid.go")])
p("C20", "Task management tells the truth and leaves the session working",
  "ABORT TASK answers 'complete' only for a command of the same session that was outstanding and then guarantees that command has no effect on the medium and sends no GOOD status; for finished, unknown or foreign tags it answers 'task does not exist' and no other command is disturbed. ABORT TASK SET does the same to the session's outstanding commands on the addressed LUN, LOGICAL UNIT RESET to all outstanding commands on it. Each task management request gets exactly one response with its own tag, unsupported functions are reported as such, and commands before and after it work normally.",
  ["histories", "inputs"], "every function code, referenced tag and moment in the life of the referenced command",
  "the stable tests issue no abort while a command is outstanding.",
  [IS+"iscsid.go", IS+"task.go", IS+"session.go", IS+"cmd.go"],
  [("OpSCSITaskReq in iscsiExecTask", IS+"iscsid.go"), ("PendingTasks queue", IS+"session.go")],
  ["task management responses, command responses", "backing store writes"])
p("C21", "The management interface reports the real state",
  "The target list returned by the management API and printed by the command line names exactly the configured targets, portal groups and currently connected initiators, whatever sessions come and go meanwhile, and a name filter selects exactly that target. Unknown paths and methods are refused with the proper HTTP status and never disturb the targets, and an operation that was not done is never reported as done.",
  ["configurations", "histories", "inputs"], "every configuration and login/logout history, every request path and method",
  "client tests talk to a fake server.",
  ["pkg/apiserver/apiserver.go", "pkg/apiserver/router/target/target.go", "pkg/apiserver/httputils/httputils.go", "pkg/api/client/client.go", "cmd/list.go", SC+"scsi.go"],
  [("getTargetList/GetTargetList", "pkg/apiserver/router/target/target.go"), ("CLI list", "cmd/list.go")],
  ["HTTP responses and CLI output against the configuration and session history"])
p("C22", "I/O statistics conserve commands and bytes",
  "With statistics enabled, at every quiescent point the per-opcode counters equal the number of SCSI commands answered with that opcode since start, the read and write operation counters equal the number of read and write commands of all sizes, and the transferred-amount totals equal the sums of their expected data lengths; nothing is lost or counted twice under concurrency, aborted commands are not counted, time totals never exceed what the initiators measured, and a snapshot handed out never changes afterwards.",
  ["histories", "schedules"], "every mix of commands, transfer paths and sessions",
  "no test enables statistics.",
  [IS+"iscsid.go", IS+"conn.go", SC+"drivers.go"],
  [("UpdateStats/Stats", IS+"iscsid.go")],
  ["Stats() snapshots against the initiators' own counts"])
p("C23", "Single-host mode admits one host at a time",
  "With multiple hosts blocked, while any connection from one host address is open every connection attempt from another address is dropped without service, further connections from the same host are served, and once the last connection of that host is gone another host is admitted. Without the option hosts never exclude each other.",
  ["histories", "schedules"], "every interleaving of connects and disconnects from several addresses",
  "never tested.",
  [IS+"iscsid.go", "cmd/daemon.go"],
  [("CurrentHostIP admission in Run", IS+"iscsid.go")],
  ["which connections are served, by source address"])
p("C24", "Configuration is loaded, saved and enforced faithfully",
  "Saving a configuration and loading it back yields an equal configuration, also when it overwrites an older longer file, and a server started from a file serves exactly the targets, LUNs, block sizes and portals in it. A configuration that is malformed or names unusable storage is refused with an error at start-up instead of serving something else, and no start-up modifies the storage files.",
  ["configurations", "inputs"], "every configuration value and every corruption of the file",
  "no test loads a configuration with more than one entry of a kind.",
  ["pkg/config/config.go", "cmd/daemon.go", SC+"scsilumap.go", SC+"lun.go"],
  [("Load/Save", "pkg/config/config.go"), ("InitSCSILUMap/NewSCSILu", SC+"scsilumap.go")],
  ["loaded values, server behaviour and exit status"])
p("C25", "Every command block gets a defined answer with full sense",
  "Every operation code and service action, with any CDB content, is answered: supported ones as specified, all others with CHECK CONDITION, ILLEGAL REQUEST / INVALID COMMAND OPERATION CODE (or INVALID FIELD IN CDB for unknown service actions), without medium access; a supported command asking for a feature the target lacks (protection information, WRITE SAME with ANCHOR, LBDATA, PBDATA or, if not thin, UNMAP, FORMAT UNIT data) or announcing parameter data it did not send is refused with ILLEGAL REQUEST and no effect. Every CHECK CONDITION carries complete fixed or descriptor sense data, consistent with its length fields and independent of the CDB's lengths, and commands on one nexus never change the answers of unrelated later commands.",
  ["inputs", "histories"], "all 256 operation codes, all service actions, arbitrary remaining CDB bytes and expected lengths",
  "tests send only well-formed supported commands.",
  [SC+"sbc.go", SC+"spc.go", SC+"scsi.go", SC+"error.go"],
  [("SCSIDeviceOps dispatch", SC+"sbc.go"), ("SPCIllegalOp / SPCServiceAction", SC+"spc.go"), ("BuildSenseData", SC+"scsi.go")],
  ["status and sense at the initiator", "backing store calls"])
p("C26", "VERIFY and UNMAP do exactly what they say",
  "VERIFY with byte check succeeds if and only if the data sent equals the addressed blocks, otherwise it reports MISCOMPARE, without byte check it only validates the range, and it never modifies the medium. UNMAP hands the backing store exactly the block ranges of its descriptor list, in order and only if all are inside the capacity, refuses malformed or out-of-range lists with ILLEGAL REQUEST and no effect, and an empty list succeeds with no effect.",
  ["inputs", "histories"], "every verify range and payload difference, every descriptor list and truncation of it",
  "tests use one or two descriptors and one differing byte.",
  [SC+"sbc.go", SC+"backingstore.go"],
  [("SBCVerify", SC+"sbc.go"), ("SBCUnmap", SC+"sbc.go")],
  ["status and sense at the initiator", "store calls and content"])
p("C27", "Sessions belong to one nexus and never disturb each other",
  "A login by the same initiator name, ISID and target portal group as a live session replaces exactly that session: its connection is closed and its unfinished commands have no later effect. Logins, failed logins and ends of sessions of any other combination (another name, an ISID differing in any bit, another target or portal group, discovery sessions) leave every live session untouched. Live sessions have distinct non-zero session handles and are distinct nexuses: a reservation held by one excludes all others.",
  ["histories", "schedules", "inputs"], "every history of logins, failed logins and session ends by any set of initiator names, ISIDs, targets and portal groups, including concurrent logins of one identity",
  "tests open at most one session.",
  [IS+"session.go", IS+"iscsid.go", IS+"login.go", SC+"target.go"],
  [("LookupISCSISession", IS+"session.go"), ("BindISCSISession", IS+"session.go")],
  ["which connections end", "whether every other session is still served", "content of the medium after a replaced session"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
