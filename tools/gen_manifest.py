#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below. A property without a check in harness/checks goes to not_applicable."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Holds on the executions observed only. Trusts the harness's initiator, the monitored store and the reference model; the target is the real code built from /repo. "
T = {
"C01": ("exploration", "reference byte model checked against every read, the monitored store and the file", "Histories of random read/write commands over transfer paths, block sizes 512-4096 and LBAs up to a 64 TiB sparse medium."),
"C02": ("exploration", "offline linearizability checking (porcupine) of recorded concurrent histories, per block", "Concurrent sessions with injected store delays; per-block atomic register model; stamps detect cross-talk."),
"C03": ("exploration", "range oracle over boundary-biased CDBs with a monitored store as witness of every access", "Boundary and random LBA/length/protection/EDTL combinations."),
"C04": ("fault_enumeration", "durability oracle on the store's sync/write order, crash injection after every acknowledgement", "Crash of the volatile image after acknowledgements; sync gates; strace of the file store."),
"C05": ("fault_enumeration", "fault injection at each store call with status/sense/data oracle", "Fault kind x opcode matrix, random fault schedules, and real ENOSPC/EFBIG/truncation on files."),
"C06": ("exploration", "online trace monitor of responses, Data-In sequencing and residuals", "All command forms with expected lengths around the true length."),
"C07": ("exploration", "online sequence-number monitor plus order and no-effect oracles at the store", "Random PDU mixes, wrap-around starts, duplicate, early and out-of-window numbers."),
"C08": ("exploration", "online R2T monitor over hand-fed held writes, store as witness", "Random burst/segment parameters, up to ten writes in progress, partial data at random."),
"C09": ("exploration", "login-gate oracle over generated login conversations, store and LUN identity as witnesses", "Stage/flag/key/auth combinations, PDUs before login, several targets, portals and groups."),
"C10": ("exploration", "negotiation oracle (RFC 7143 key rules) plus size monitor after login", "Random key sets, orders and values, split over several PDUs; honouring checked with I/O afterwards."),
"C11": ("exploration", "exact-set oracle over SendTargets answers against the configuration, logins to each reported pair", "Generated configurations incl. many targets/portals, sparse portal ids, cluster address."),
"C12": ("exploration", "LUN map oracle with the monitored stores as witness of what a LUN reaches", "Random LUN maps 0-16383, both addressings, live map changes, restarts."),
"C13": ("exploration", "generated hostile peers against a live victim session, with process, connection and memory watchdogs", "Ten kinds of hostile connection; crash, hang, corruption and announced-memory oracles."),
"C14": ("exploration", "capacity oracle over every report and every enforced limit, before and after online resizes", "Devices from one block to 2^60 bytes x block sizes; resize chains under I/O."),
"C15": ("exploration", "structure and consistency oracle over every descriptive page, at every allocation length", "INQUIRY/VPD/MODE SENSE/REPORT LUNS/REQUEST SENSE/REPORT SUPPORTED OPERATION CODES x allocation lengths."),
"C16": ("exploration", "persistent-reservation state machine (nondeterministic where the standard leaves room) followed alongside random histories", "Seven I_T nexuses, two targets, random PR histories with access probes."),
"C17": ("exploration", "RESERVE/RELEASE ownership model followed alongside random histories", "Several nexuses with logouts, connection losses, resets and reinstatement."),
"C18": ("exploration", "Go race detector over the whole target under eight kinds of concurrent use, plus crash and deadlock watch", "Race build; slow lock-free store; sessions, LUN changes, resizes, listings, reservations, stats, hostile peers at once."),
"C19": ("exploration", "conservation oracle: descriptors, sockets, goroutines, sessions, nexuses and memory return to the level before, after each of 35 ways to end a connection", "Rounds of each way of ending or half-opening connections, then quiescence is compared with the baseline."),
"C20": ("exploration", "table of outstanding commands deciding each task-management answer, byte model and monitored store deciding effects", "Histories of held, early, blocked and finished writes with every function code on three sessions."),
"C21": ("exploration", "list oracle over the API's and command line's answers against the configuration and a login/logout history", "The real daemon and CLI under generated configurations, sessions coming and going, and every kind of request path and method."),
"C22": ("exploration", "conservation oracle: the initiators' own counts of commands and bytes against every snapshot", "Mixed commands on several sessions at once, aborted and refused commands, snapshots held over later traffic."),
"C23": ("exploration", "admission oracle by source address over interleaved connects and disconnects", "Several 127/8 source addresses, half-open and failed logins, resets, with and without the option, library and real daemon."),
"C24": ("exploration", "round-trip oracle on Save/Load and behaviour oracle on a daemon started from generated and damaged files", "Random configurations, damaged JSON, unusable storage; the daemon's service, exit status and the storage files are observed."),
"C25": ("exploration", "answer/sense oracle over all operation codes and service actions, canary commands repeated on the same and another nexus", "256 codes x 32 service actions x CDB contents x expected lengths, on disk, absent LUN and placeholder."),
"C26": ("exploration", "compare oracle for VERIFY over single-byte and compensating differences; exact-range oracle for UNMAP at the monitored store", "VERIFY 10/12/16 on monitored and file stores; UNMAP lists of 0-255 descriptors with every kind of cut and out-of-range entry."),
"C27": ("exploration", "table of live sessions by nexus identity deciding which connection must end and which must go on being served", "Histories of logins whose identity differs by one bit, one name, one target or one group from a live one, reinstatement over held and blocked writes, simultaneous logins."),
}
done = []
for f in os.listdir(R + "/harness/checks"):
    done += re.findall(r'All\["(C\d\d)"\]', open(R + "/harness/checks/" + f).read())
checks, na = [], []
for l in open(R + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in T and i in done:
        lv, te, no = T[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": "runtime monitoring: " + te, "level": lv, "level_note": NOTE + no})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the monitors sit on the wire, behind the exported backing-store interface and on exported functions."},
    open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
