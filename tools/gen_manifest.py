#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitoring: strict receiving server unstuffs the recorded wire bytes of every send; exhaustive short contents, random and boundary contents",
 "C02": "runtime monitoring: differential oracle (reader vs. same bytes) and server-side monitor under reader splits, delays and failures",
 "C03": "runtime monitoring: trace oracle relating returned results to the replies the server model gave, systematic refusals and random histories",
 "C04": "runtime monitoring: trace oracle on the commands recorded for each send against the given envelope",
 "C05": "runtime monitoring: online monitor of what had been read when each command's first byte was written",
 "C06": "runtime monitoring: differential oracle, lock-step against pipelined run of the same decisions",
 "C07": "runtime monitoring: offline checker over session histories (exactly-once, order, attribution of replies by unique ids), with refusals, cancellation and late replies injected",
 "C08": "runtime monitoring: flush monitor on a transport that shows the server nothing before a flush",
 "C09": "runtime monitoring: logical-deadlock detector over a transport with bounded buffers and a blocking server",
 "C10": "runtime monitoring: reference parser as oracle on enumerated, random and mutated replies, and on replies received in sessions",
 "C11": "runtime monitoring: every code at every step (enumerated) and injected I/O failures, results compared with the replies the server gave",
 "C12": "runtime monitoring: reference reading of EHLO replies as oracle, features observed in what the session does",
 "C13": "runtime monitoring: trace oracle on MAIL/RCPT parameters over all offers and settings",
 "C14": "runtime monitoring: every character and random strings against a reference predicate; wire monitor for addresses",
 "C15": "runtime monitoring: strict xtext decoder as oracle on every character and random strings",
 "C16": "runtime monitoring: independent decoder of the recorded authentication exchanges, mechanism-choice oracle",
 "C17": "runtime monitoring: trace oracle over authentication dialogues, systematic and random, followed by another operation",
 "C18": "runtime monitoring: trace oracle on STARTTLS sessions including the bytes left in the stream handed over",
 "C19": "runtime monitoring: trace oracle on set-up and QUIT dialogues",
 "C20": "fault injection at every byte and flush of recorded sessions, judged by trace oracles and a stall detector",
 "C21": "runtime monitoring: differential oracle, random transport schedules against plain transport",
 "C22": "runtime monitoring: differential oracle, digests of the same sessions in the tokio and the async-std build",
 "C23": "runtime monitoring: interleaved and multi-threaded sessions compared with the same sessions alone; ThreadSanitizer build",
 "C24": "Miri and AddressSanitizer on the real code, with address, poll and drop monitors in self-referential readers, sends abandoned at every suspension point",
 "C25": "runtime monitoring: hostile servers under panic, stall, spin, processor-time and memory monitors, overflow checks on",
 "C26": "runtime monitoring: independent rendering as oracle for every command, and wire monitor",
 "C27": "cancellation injected at every suspension point of recorded sessions, judged by trace oracles on what later operations do",
 "C28": "runtime monitoring: sessions moved between threads, with changing wakers and needless polls, compared with the plain run; real loopback sessions on both runtimes; ThreadSanitizer build; auto-trait probes",
 "C29": "runtime monitoring: tracer values as secrets and contents, searched for in wire, errors, Debug output and captured log records",
 "C30": "runtime monitoring: reference reading of every reply and injected I/O error as oracle for error texts, sources and accessors",
 "C31": "runtime monitoring: counting allocator and drop monitor around connections on a server which allocates nothing, operations repeated, connections ended in every way",
}
NOTE = {
 "C01": "Contents over {'.', CR, LF, 'a'} are exhaustive up to length 8 (10 thorough); longer ones are sampled. The receiving server is strict about RFC 5321 line ends.",
 "C09": "The peer is one which handles a command at a time; replies are at most 512 bytes each; recipients up to 1500 (5000 thorough).",
 "C10": "Exhaustive over all three-digit codes and separators and over strings of an 8-letter alphabet up to 6 (7) characters after several prefixes; sampled beyond.",
 "C14": "Exhaustive over all single characters and pairs of ASCII characters; sampled beyond.",
 "C15": "Exhaustive over all single characters and pairs of ASCII characters; sampled beyond.",
 "C20": "Every byte offset of both directions and every flush of each base session (evenly spread ones of them for the few longest sessions) with each kind of fault; the base sessions are sampled.",
 "C22": "Any difference seen between the builds on the sampled sessions is a violation; the sessions of the other checks run in both builds too.",
 "C24": "Miri interprets a bounded number of cases per run (Tree Borrows); the monitors see many more in native and AddressSanitizer builds.",
 "C27": "Every suspension point of each base session, with each of several following operations; the base sessions and their schedules are sampled.",
 "C31": "Repetitions of the same operations under other names; growth has to go on over 40 times as many before it counts, so that a buffer or cache of bounded size is none.",
 "C28": "Auto traits are decided for the listed types and futures; schedules are sampled. The loopback sessions use the real network stack and are judged on what does not depend on timing.",
}
DEFAULT = "Sampled sessions of a deterministic simulation of transport and server; each run's evidence counts what its monitors observed."
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": TECH[p],
                 "level": "fault_enumeration" if p in ("C20", "C27") else "exploration", "level_note": NOTE.get(p, DEFAULT)} for p in props],
     "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
