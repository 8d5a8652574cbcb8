"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
MT = "TLA+ specification checked with TLC; recorded executions of the code validated against the same specification"
OR = "TLA+ executable semantics as oracle for recorded calls of the code (TLC), plus TLC checks of the semantics itself"
T = {
 "B01": (MT, "model_checking", "Exhaustive for the modelled algorithm with 1-3 endpoints; the real code is run under a deterministic scheduler and every recorded execution is validated. Assumes the documented semantics of event-listener and sequentially consistent atomics."),
 "B02": (MT, "model_checking", "As B01; lost wake-ups are looked for in all schedules with a bounded number of deviations plus random ones."),
 "B03": (MT, "model_checking", "As B01 with a virtual lossy, duplicating network and junk datagrams, plus a few runs of real processes over real loopback multicast."),
 "B04": (MT, "model_checking", "Exhaustive model with crashes at every step; real get_port run under the scheduler with a crash at every file step, plus real processes with real locks."),
}
try:
    exec(open("/verif/tools/manifest_more.py").read())
except FileNotFoundError:
    pass
NA = globals().get("NA", {})
m = dict(version=1, setup_cmd="python3 run.py setup",
  hooks=dict(guard="lk_verif", enable="RUSTFLAGS='--cfg lk_verif' when building harness/bus", source_commits=["63f7c5f"]),
  checks=[dict(property=i, quick_cmd=f"python3 run.py check {i} quick", thorough_cmd=f"python3 run.py check {i} thorough",
               technique=T[i][0], level=T[i][1], level_note=T[i][2]) for i in ids if i in T],
  not_applicable=[dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in T])
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
