"""Writes MANIFEST.json from properties.jsonl and the list below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["290c6fe"]
SIM = ("model-based property testing: generated histories (proptest) against the real {what} over a simulated network in "
       "virtual time, judged by a reference model of the guarantees; failures shrink to a replay file")
T = {
 "C01": SIM.format(what="brokers"), "C02": SIM.format(what="brokers"), "C03": SIM.format(what="brokers"),
 "C04": SIM.format(what="brokers"), "C05": SIM.format(what="brokers"), "C06": SIM.format(what="brokers"),
 "C07": SIM.format(what="brokers"), "C08": SIM.format(what="brokers"), "C09": SIM.format(what="brokers"),
 "C16": SIM.format(what="marshal"), "C17": SIM.format(what="brokers"), "C18": SIM.format(what="brokers"), "C20": SIM.format(what="brokers"),
 "C22": SIM.format(what="brokers"), "C26": SIM.format(what="brokers"), "C27": SIM.format(what="brokers and marshal"), "C28": SIM.format(what="brokers"), "C29": SIM.format(what="brokers"),
 "C23": SIM.format(what="client, marshal and brokers"), "C25": SIM.format(what="client, marshal and brokers"),
 "C24": SIM.format(what="client, marshal and brokers") + "; plus generated races on real threads",
}
G = ("property-based testing: generated {what} (proptest) against the real code, judged by {oracle}; failures shrink to a replay file")
T.update({
 "C10": G.format(what="message histories, chunkings, faults and endings over byte streams in virtual time", oracle="an independent model of the framing"),
 "C11": G.format(what="concurrent sessions, paces and endings over the real transports on loopback (with an impaired path for QUIC)", oracle="the messages each side must have received"),
 "C12": G.format(what="server certificates and trust settings over real TLS and QUIC handshakes", oracle="whether the certificate chains to the trusted authority for the name at the time"),
 "C13": G.format(what="pools, message sizes, holding times, cancellations and peers in virtual time", oracle="a model of the pool's accounting and progress"),
 "C14": G.format(what="messages and alternative encodings", oracle="round trips and an independent Cap'n Proto reader and writer (differential)"),
 "C15": G.format(what="byte strings (random, mutated, structured pointer soups) and identifiers", oracle="totality, memory and re-encoding invariants, and an independent decoder"),
 "C19": G.format(what="operation histories on the embedded and the Redis-backed whitelist", oracle="a set-valued reference model"),
 "C21": G.format(what="registrations, heartbeats, permits, expiries and failures on the embedded and the Redis-backed store", oracle="a reference model of the least-connections choice"),
})
NOTE = {}
NA = {}
try:
    exec(open(os.path.join(V, "tools/manifest_data.py")).read())
except FileNotFoundError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/check.sh {i} quick",
            "thorough_cmd": f"bash tools/check.sh {i} thorough",
            "technique": T[i],
            "level": "exploration",
            "level_note": NOTE.get(i, "Exploration: no violation in the generated cases counted in the evidence; assurance grows with the cases run and the generator's reach described in DESIGN.md. Trusts the harness's model and, for simulated parts, that the simulated network behaves like a reliable byte stream."),
        })
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in T]
json.dump({
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=--cfg verif_hooks (tools/env.sh), cargo build of harness/ against a copy of /repo's working tree made by tools/mkws.py", "source_commits": HOOKS},
    "checks": checks,
    "not_applicable": na,
    "notes": "tools/replay.sh FILE runs a violation's minimal case again. See DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
