#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks below."""
import json, subprocess

HOOK_COMMITS = ["62a6e9a6910260242f9538509cb8e124bf16c6e8", "c2326188240f022dc34ba84654aecfe7c97f73a6"]
T_SESS = "stateless bounded exhaustive exploration of the real client against a reference server model"
CHECKS = {
    "C01": (T_SESS, "model_checking",
            "Every sequence of operations up to the stated depth over the stated alphabet is executed on the real "
            "client against an independent server state machine; complete within these bounds. Trusts the reference "
            "server and the assumption that the behaviour beyond the bounds is like within them."),
    "C02": ("exhaustive enumeration of transport behaviours (splits, pending polls, delays, buffering) on the real client, compared with the ideal transport", "fault_enumeration",
            "Every transport with one deviation at any offset, all chunk sizes, all pairs of deviations of a session and all "
            "segmentations of windows around packet headers; complete within these bounds and for the listed sessions."),
    "C03": ("exhaustive enumeration of interruption points (dropped future at every poll, stall, failure or end of the transport at every byte, malformed packet) on the real client, compared with the reference server", "fault_enumeration",
            "Every interruption point of every listed session is executed; what follows is compared with what the server answers "
            "to it. Complete within these bounds; trusts the reference server."),
    "C04": ("exhaustive enumeration of the points at which the transport stops, pauses or is late, on the real client under a virtual clock, in builds with and without the feature `time`", "fault_enumeration",
            "Every byte offset and flush of sessions using every part of the protocol, with exact checks of time and error. Complete "
            "within these bounds; time is virtual."),
    "C05": ("exhaustive enumeration of message sizes, chunkings and transports around the packet limit on the real client, against an independent reassembler", "exploration",
            "Every size in windows around 0, the buffer sizes and the multiples of 16,777,215 in both directions, every sequence id "
            "including the wrap; complete within these bounds, sizes between them are represented by samples."),
    "C06": ("exhaustive enumeration of wrong sequence ids at every packet of sessions, on the real client", "fault_enumeration",
            "Every packet of every listed session with every wrong id; complete within these bounds."),
    "C07": ("exhaustive enumeration of the position and content of server errors in sessions of the real client against a reference server model", "model_checking",
            "Every position at which a server may send an error, with the following command; complete within the stated bounds."),
    "C08": ("exhaustive exploration of adversarial server strategies (trees of packets up to a depth) against the real client's authentication", "model_checking",
            "Every sequence, up to the depth, of packets from an alphabet of everything the client can react to; all bytes sent are "
            "classified. The packets outside the alphabet are represented by it."),
    "C09": ("exhaustive exploration of the authentication protocol (plugins, switches, cached keys, verdicts, passwords) on the real client against a verifying reference server", "model_checking",
            "Every path of the authentication state machine for every combination of the stated configurations, with proofs verified "
            "by an independent implementation."),
    "C11": ("exhaustive enumeration of parameter lists (all small values, all shapes, all NULL patterns, all neighbours and successive executions) on the real client against an independent decoder", "exploration",
            "Complete within the stated domains; wide domains (32 and 64 bit integers, floats, long strings) are represented by all "
            "their corners."),
    "C12": ("exhaustive enumeration of result rows (all small values, all shapes, all NULL patterns, all neighbours) sent by a reference server to the real client in the binary protocol", "exploration",
            "Complete within the stated domains; wide domains are represented by all their corners."),
    "C13": ("exhaustive enumeration of result rows (all small values, all shapes, all NULL patterns, all neighbours) sent by a reference server to the real client in the text protocol", "exploration",
            "Complete within the stated domains; wide domains are represented by all their corners. The same values are used as in "
            "C12, so both protocols are compared with the same expected values."),
    "C10": ("exhaustive enumeration of modulus and message lengths, seeds, and mutations of DER and PEM up to a size, against an independent RSA-OAEP decryption and reference parsers", "exploration",
            "Complete within the stated bounds; the randomness of the padding is enumerated by the hook, and end to end by real "
            "authentications."),
    "C14": ("exhaustive enumeration of values of every Rust type and of every database variant, converted by the real code and compared with an independent definition", "exploration",
            "Complete within the stated domains; wide domains are represented by all their corners."),
    "C15": ("exhaustive enumeration of all characters in context, all short strings over the special characters and all corners of values, read back by an independent lexer of MySQL's rules", "exploration",
            "Complete within the stated bounds; trusts the independent lexer."),
    "C16": ("exhaustive enumeration of greetings, column definitions, OK packets and ends of results (all lengths around the limits of encodings, all statuses, flags, types, capabilities) sent by a reference server to the real client", "exploration",
            "Complete within the stated domains; 64 bit numbers and long names are represented by all their corners."),
    "C17": ("exhaustive enumeration of result shapes (all orders of columns, all one-column extensions around the model's names, all sets of missing columns, all misfit values) for 124 generated derived models, results computed by an independent SQL engine and decoded by the real code", "exploration",
            "Complete for the generated family of models within the stated bounds; models with more than three fields are not generated."),
    "C18": ("exhaustive enumeration of set/unset fields and reference states (unset, given key, nested insert) of 124 generated derived models, and of the failure of every command, executed by the real code against an independent SQL engine whose whole content is compared", "exploration",
            "Complete for the generated family of models; models with more than three fields are not generated, faults in nested inserts of depth three only in thorough."),
    "C19": ("stateless exhaustive exploration of the real pool under a controlled scheduler: all interleavings of operations on shared data within a preemption bound, with a ledger of items compared at every step", "model_checking",
            "Complete for 2-3 (thorough 4) threads with one or two operations each, pools of 1-3 items and the stated preemption bounds, under sequential consistency; the queues of crossbeam are assumed linearizable."),
    "C20": ("stateless exhaustive exploration of the real pool under a controlled scheduler that runs waiting threads only when they are woken; a deadlock is a lost wake-up", "model_checking",
            "Complete for 2-3 (thorough 4) threads with one or two operations each, pools of 1-3 items and the stated preemption bounds, under sequential consistency; the queues of crossbeam are assumed linearizable."),
    "C21": ("stateless exhaustive exploration of the real pool under a controlled scheduler with every creation failing or being cancelled, and exhaustive fault enumeration on real connections returned to a pool", "model_checking",
            "Complete for the same bounds as C19; faults of connections: one failure or cancellation at every byte, flush or poll of 13 operations and of the handshake."),
    "C22": ("stateless exhaustive exploration of the real pool under a controlled scheduler (all interleavings within a preemption bound) and of all sequences of gets, fillings and returns of buffers up to a depth", "model_checking",
            "Complete for 2-4 threads with one or two operations each and histories of six (thorough: seven) operations, under sequential consistency."),
    "C23": ("stateful exhaustive exploration of histories of migrator calls against a reference database, compared with a model after every call", "model_checking",
     "All lists of up to six migrations in three versions (four sets of versions and three of names), all applied subsets, all calls and target versions; sequences of up to three calls."),
    "C24": ("exhaustive enumeration of faults (every statement, connection, step and poll) in migrator calls against a reference database, with retries", "fault_enumeration",
     "Every single fault in every call on lists of up to three (thorough: five) migrations, and every pair of faults on lists of two (thorough: three), with retries on the same and on a new migrator."),
    "C25": ("bounded-exhaustive enumeration of hostile server input against the real client under virtual time and measured memory", "exploration",
     "Every single change (cut, byte, length, header, dictionary packet before/instead/after, lost, twice) of every packet of ten sessions; every sequence of packets of an alphabet up to a depth as answers in the login and to commands; every combination of parts of greetings; every changed value of every type; every pair of changes from a smaller set."),
    "C26": ("exhaustive enumeration of options, conversations and ends of connections of the real client over real sockets", "exploration",
     "All pairs (thorough: triples) of connections to 12 addresses with and without no-delay; all conversations of one (thorough: two) of 108 operations, four ways to log in and four segmentations; packets of up to 5 MB (thorough: 16 MB); an end or reset after every number of bytes up to 400 (thorough: 900). How the kernel joins segments is not controlled."),
    "C27": ("stateful exhaustive exploration of histories of a connection against a reference server that counts open statements", "model_checking",
     "Complete for cycles of up to three (thorough: four) of 21 operations repeated four times, sequences of five (thorough: six) of 9, three operations dropped after every poll, sequences of six (thorough: seven) of 7 operations on models."),
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": CHECKS[i][0],
            "level": CHECKS[i][1],
            "level_note": CHECKS[i][2],
        }
        for i in ids if i in CHECKS
    ],
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in CHECKS],
}
if HOOK_COMMITS:
    m["hooks"] = {
        "guard": "--cfg mysql_connector_mc=...",
        "enable": "RUSTFLAGS='--cfg mysql_connector_mc=\"crypt\"' for C10, ...=\"pool\" for C19-C22, set by check.sh",
        "source_commits": HOOK_COMMITS,
    }
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
