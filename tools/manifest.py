#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the properties registered in the simulator."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
NOTE = {
 "C01": ("seeded registry histories over a lossy channel, model of the registry", "Sampled histories of up to some hundred operations; every lookup by every known name is compared with a map model after every operation."),
 "C02": ("seeded registry histories over a lossy channel, published list checked after every operation", "Sampled histories; the published list is compared with the last refresh after every operation and with the registry after every refresh."),
 "C03": ("seeded map histories, clusters compared with an independent geometry oracle", "Sampled maps of up to 12 upright ellipses; pairs within 0.2 % of touching are not judged (the library samples outlines)."),
 "C04": ("seeded histories with restarts, compared with a freshly started twin process", "Sampled histories and probes; agreement to 1e-9."),
 "C05": ("seeded join/leave/mode-switch histories, reference-point model", "Sampled histories; reference points of all obstacles are compared with a model after every operation (to 1e-9)."),
 "C06": ("n-th allocation refused inside refreshes, registry calls and commands", "Sampled histories and allocation indices (n chosen over the whole range of each call); one refused allocation per call."),
 "C07": ("closed-loop simulation of plant, sensors and moving obstacles with faults, distance invariant on every tick", "Sampled missions, control period 2-17 ms, unit speed; separated obstacles; penetration is judged beyond an integration tolerance (4 % of the distance value, 0.5 % for static obstacles)."),
 "C08": ("closed-loop simulation, progress within a bounded simulated time after the last fault", "Sampled static maps with separation; bounded liveness (60 simulated seconds) with 1e-3 actuation noise."),
 "C09": ("closed-loop simulation with localisation jumps into obstacles, bounded recovery", "Sampled shapes with the reference point at the centre; speed limited plant; bounded liveness (30 simulated seconds)."),
 "C10": ("sensor corruption injected into histories, finiteness and equality with an uncorrupted twin", "Sampled corruption (NaN, infinities, 1e+-300, zero and negative sizes, zero quaternions) of single fields; global mode with an obstacle published."),
 "C11": ("mission histories with mode flags, overlap oracle decides which command is due", "Sampled missions; envelopes within 0.2 % of touching an outline are only required to give one of the two commands."),
 "C12": ("simulated threads with seeded preemption inside the library at basic-block granularity", "Sampled schedules of 2-4 threads on one core (sequential consistency, no data-race detection beyond changed results)."),
 "C13": ("simulated controllers with seeded preemption inside the library, compared with solo runs", "Sampled schedules of 2-3 controllers at basic-block granularity, failures and restarts of the others included; bitwise equality."),
 "C14": ("seeded histories of copies, assignments and destructions of agents, model comparison", "Sampled histories of up to 60 operations on up to 8 agents."),
 "C15": ("seeded histories of constructors and setters, envelope compared with its definition", "Sampled histories; agreement to 1e-9 with a closed form."),
 "C16": ("the same history replayed under different simulated heaps, clocks, randomness and stream faults", "Sampled histories, 3 worlds per history, bitwise comparison."),
 "C17": ("the same mission simulated in two map frames, commands compared on every tick", "Sampled missions and frames; agreement to 1e-6, ticks at a discontinuity of the law are skipped."),
 "C18": ("long seeded missions of odometry increments and relocalisations, rigidity invariants", "Sampled missions of up to several thousand increments; tolerance 1e-9 per 1000 increments."),
 "C19": ("plots recorded by a simulated plotting device that fails at a seeded call", "Sampled situations; the recorded curves are judged, not rendered pixels."),
 "C20": ("mission histories, every command compared with an executable reference law", "Sampled missions; agreement to 1e-6; ticks within a guard band of the law's discontinuities are skipped."),
 "C21": ("mission histories, query answers compared with a plane-geometry oracle", "Sampled missions; answers within 0.2 % of a boundary are not judged."),
 "C22": ("closed-loop simulation of missions with vertical avoidance", "Sampled missions with static upright obstacles on the heading line."),
 "C23": ("seeded cluster histories and construction orders, surface compared with ray casting", "Sampled clusters and directions; only directions with smooth outlines are judged (0.12 relative tolerance of the smoothing step)."),
 "C24": ("seeded histories printed to streams that fail at a seeded character", "Sampled objects and fault points; the text is parsed, its layout is not prescribed."),
}
NA = {
 "C25": "pure functions of their arguments: no scheduling, time, I/O or fault a simulator could vary; input enumeration or proof is the fitting technique",
 "C26": "pure function of a vector of distances: no scheduling, time, I/O or fault a simulator could vary (its effect on commands is covered by C20)",
 "C27": "pure arithmetic formula: no scheduling, time, I/O or fault a simulator could vary",
}
have = set()
for f in glob.glob(os.path.join(ROOT, "sim", "props_*.cpp")):
    have |= set(re.findall(r"static Register r\w+\(\{\"(C\d+)\"", open(f).read()))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in have:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH + t, "level": "exploration",
                       "level_note": n + " Seeded search, not exhaustive; violations come with a minimised, bit-exactly replayable trace. Trusts the models in sim/ and the compiler."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: the simulator enters at link time (allocation, clocks, randomness, static-initialisation guards and locks are wrapped), at compile time (basic-block callbacks of the compiler give the scheduler its preemption points) and through a stand-in for the plotting header. python3 check.py --replay FILE replays a violation; python3 check.py --selftest checks determinism. Commits in /repo are repairs of genuine defects only (known_findings.txt)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
