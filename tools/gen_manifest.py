#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOT = {
    "C15": "Transport parameters are built and serialised by a pure function that nothing in the crate calls: no concurrency, time, I/O, history or second party for a simulation to vary.",
    "C16": "A pure, total mapping from an enum to a number, with no schedule, fault or history to explore; enumeration or a unit test settles it.",
}
SERVER = "Server world: the real socket, routing, connection table, queues, packet decoding and building; threads, UDP socket, clients, random source and hash seeds are simulated and every interleaving and fault comes from one seed."
LINK = "Link world: two real or reference endpoints of one or more connections over a simulated network (loss, duplication, reordering, delay, corruption, splicing, misdirection); the oracle is an independent RFC 9000/9001 implementation."
NOTE = {
    "C01": SERVER + " " + LINK + " Panics, aborts, runaway allocation, livelock and genuine traffic lost after bad input are the violations. Sampled, not exhaustive.",
    "C02": SERVER + " Delivery is checked exactly once, byte for byte, against the recorded history of receives.",
    "C03": SERVER + " Checked over the history of accepts, opens and closes, with colliding random IDs and concurrent copies of an Initial.",
    "C04": SERVER + " Checked over the history after closes at arbitrary points, with IDs issued again.",
    "C05": SERVER + " Locks are simulated (both reader- and writer-preferring), so a deadlock is detected exactly; liveness is progress within a bounded number of steps once the network is silent.",
    "C06": SERVER + " Receive errors are injected at arbitrary points and tied to the accept that met them.",
    "C07": LINK + " Both ends run the library's own builder and decoder.",
    "C08": LINK + " One end is the reference implementation.",
    "C09": LINK + " A packet counts as genuine only if it lies bit for bit in the datagram and was protected for this end.",
    "C10": SERVER + " " + LINK + " Numbers are read off the wire by the reference peer.",
    "C11": LINK + " Histories start at arbitrary points of the number space up to 2^62-1.",
    "C12": LINK + " Differential: the datagram against its packets alone.",
    "C13": SERVER + " " + LINK + " A tagging allocator accounts for everything the library allocates; churn rounds look for growth.",
    "C14": SERVER + " What comes out is compared with what the reference clients sent.",
    "C17": SERVER + " Writes to standard output are tied to the receive or decode of the same thread and compared with the switching calls, and their text among each other; where a switch overlaps, either is allowed.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NOT:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules, inputs and faults)",
        "level": "exploration",
        "level_note": NOTE[i],
    })
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse", "--grep=^sim:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {
        "guard": "cfg(quic_sea_sim)",
        "enable": "RUSTFLAGS=\"--cfg quic_sea_sim\" (build.sh)",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
    "notes": "Replays: target/debug/simcheck replay FILE. Known findings and repaired defects: known-findings.txt. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
