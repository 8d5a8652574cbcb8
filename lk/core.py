"""S01-S03, W01-W02: recorded histories of the store and of watches, checked against their contract in TLA+."""
import json, os, random, shutil, tempfile
from . import common as c
from .common import ToolError

SPEC = {"S": "core/StoreTrace.tla"}
MODEL = {"S": ("core/StoreImpl.tla", "StoreImpl", [("Looks = 2", "Looks = 3")],
               dict(S01=["nolast", "dup"], S02=["early", "two", "keep"], S03=["notree", "live"]))}


def models(ck):
    spec, base, deeper, wrong = MODEL[ck.prop[0]]
    d = os.path.join(c.ROOT, "spec", os.path.dirname(spec))
    cfg = f"{base}_ok.cfg"
    if not ck.quick:
        text = open(os.path.join(d, cfg)).read()
        for a, b in deeper:
            assert a in text
            text = text.replace(a, b)
        cfg = os.path.join(ck.dir, cfg)
        open(cfg, "w").write(text)
    ck.model(c.tlc(spec, cfg, heap="20g"), spec)
    for w in wrong[ck.prop]:
        ck.model(c.tlc(spec, f"{base}_wrong_{w}.cfg", heap="12g"), f"{spec} wrong: {w}", must_hold=False)


def record(ck, seed, n, budget):
    exe = os.path.join(c.build("b/drv"), "drv-b")
    scratch = tempfile.mkdtemp(prefix="lkcore")
    out = os.path.join(ck.dir, f"raw{seed}.ndjson")
    cmd = [exe, ck.prop, str(seed), str(n), out]
    try:
        rc, so, se = c.run_driver(cmd, budget, env={"TMPDIR": scratch})
        if rc != 0:
            rc2, so2, se2 = c.run_driver(cmd, budget, env={"TMPDIR": scratch, "TRACE_CALLS": "1"})
            last = [x for x in se2.splitlines() if x.startswith("CALL ")]
            if rc2 not in (0, 3, None) and last:
                ck.violation("abort", f"the process dies (status {rc2}) in {last[-1][-800:]}", dict(call=last[-1][5:], status=rc2))
                return []
            raise ToolError(f"drv-b {ck.prop} rc={rc} {se[-1500:]}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    tr = [json.loads(x) for x in open(out)]
    for t in tr:
        if "hang" in t:
            t["ev"].append(dict(e="hang", what=t["hang"]))
            t.setdefault("facts", [0] * 60)
    return tr


def validate(ck, tr, name):
    f = os.path.join(ck.dir, name + ".ndjson")
    with open(f, "w") as h:
        for t in tr:
            h.write(json.dumps(t) + "\n")
    spec = SPEC[ck.prop[0]]
    return c.tlc(spec, os.path.basename(spec).replace(".tla", ".cfg"), env={"TRACE": f},
                 expect=sum(len(t["ev"]) + 1 for t in tr), heap="16g")


def judge(ck, tr, seed):
    r = validate(ck, tr, "traces")
    ck.add("traces_validated_against_impl", len(tr))
    ck.add("trace_states", r.distinct)
    by = {t["id"]: t for t in tr}
    others = 0
    for tid, l, prop, why in r.bad:
        if prop != ck.prop:
            others += 1
            continue
        t = by[tid]
        ck.violation(why, f"{why}: history {tid} event {l}: {json.dumps(t['ev'][max(0, l - 3):l])[-1100:]}",
                     dict(driver=f"TMPDIR=<scratch> drv-b {ck.prop} {seed} {tid + 1} <out>", event=l, history=t["ev"][:l]))
    if others:
        c.log(f"{others} violations of sibling properties in the same histories")
    return r


# -- spoiling recorded histories -------------------------------------------------------------------
def sp_stamp(e, rng):
    if e["e"] == "save" and e["ans"] == "ok" and e["b"] > e["a"]:
        return dict(e, a=e["a"] + 1, b=e["b"] + 1)


def sp_state(e, rng):
    if e["e"] == "save" and e["st"]:
        st = list(e["st"])
        k = rng.randrange(len(st))
        st[k] = "E" if st[k] == "W" else "W"
        return dict(e, st=st)


def sp_bytes(e, rng):
    if e["e"] == "fresh" and e["log"]:
        l = [list(x) for x in e["log"]]
        l[rng.randrange(len(l))][2] += 1
        return dict(e, log=l)


def sp_partial(e, rng):
    if e["e"] == "mid":
        return dict(e, log=e["log"] + [[10 ** 6, 0, 0]])


def sp_announce(e, rng):
    if e["e"] == "mid":
        return dict(e, bus=[x + 1 for x in e["bus"]])
    if e["e"] == "save" and e["bus"] >= 0:
        return dict(e, bus=e["bus"] + 1)


def sp_tree(e, rng):
    if e["e"] in ("look", "fresh") and e["tree"]:
        return dict(e, tree=e["tree"][:-1])


def sp_hash(e, rng):
    if e["e"] in ("look", "fresh") and any(x[1] >= 0 for x in e["hash"]):
        k = rng.choice([i for i, x in enumerate(e["hash"]) if x[1] >= 0])
        return dict(e, hash=[[x[0], -1, -1, -1] if i == k else x for i, x in enumerate(e["hash"])])


def sp_later(e, rng):
    if e["e"] == "look":
        return dict(e, log=e["log"] + [[10 ** 6, 0, 0]])


SPOIL = dict(S01=[sp_stamp, sp_state, sp_bytes], S02=[sp_partial, sp_announce], S03=[sp_tree, sp_hash, sp_later])


def binding(ck, tr):
    rng = random.Random(ck.seed)
    bad, kinds = [], {}
    for f in SPOIL[ck.prop]:
        n = 0
        for t in rng.sample(tr, len(tr)):
            ks = [k for k in range(len(t["ev"])) if f(t["ev"][k], random.Random(0)) is not None]
            if not ks:
                continue
            k = rng.choice(ks)
            ev = t["ev"][:k] + [f(t["ev"][k], rng)] + t["ev"][k + 1:]
            bad.append(dict(t, id=len(bad), ev=ev))
            kinds[len(bad) - 1] = (f.__name__, k + 1)
            n += 1
            if n == 8:
                break
        if n == 0:
            raise ToolError(f"no history to try {f.__name__} on")
    r = validate(ck, bad, "spoiled")
    hit = {b[0] for b in r.bad if b[2] == ck.prop}
    ck.cov["corrupted_traces_rejected"] = f"{len(hit)} of {len(bad)}"
    if len(hit) < len(bad):
        raise ToolError(f"corrupted histories are accepted: {[kinds[k] for k in kinds if k not in hit]}")


ASSUME = {"S": ["LMDB is replaced by an in-memory stand-in with its documented semantics (atomic commit, snapshots, one writer, sorted duplicates); its own durability is assumed",
                "a crash is an unwinding at a step of the write transaction; the clock is virtual"]}


def hist(ck):
    ck.level = "model_checking"
    models(ck)
    n, budget = (120, 60) if ck.quick else (150, 420)
    t0, k, ops = c.time.time(), 0, {}
    while k == 0 or (c.time.time() - t0 < budget and not ck.violations and (not ck.quick or k < 3)):
        seed = ck.seed * 1000 + k
        tr = record(ck, seed, n, 120)
        if not tr:
            break
        judge(ck, tr, seed)
        for t in tr:
            for e in t["ev"]:
                x = e["e"] + (":" + e["ans"] if "ans" in e else "")
                ops[x] = ops.get(x, 0) + 1
        if k == 0:
            keep = tr
        k += 1
    ck.cov["seeds"] = k
    ck.cov["events"] = ops
    if k and not ck.violations:
        binding(ck, keep)
    if k:
        ck.samples = [json.dumps(t["ev"][:6])[:600] for t in keep[3:6]]
    ck.assumptions = ASSUME[ck.prop[0]]
