"""Properties of single calls: recorded calls checked against executable TLA+ definitions."""
import json, os, shutil, tempfile
from . import common as c
from .common import ToolError

CHECK = {**{f"A0{k}": "abe/AbeCheck.tla" for k in range(1, 7)}, "A07": "abe/ConfCheck.tla", "F01": "fmt/FmtCheck.tla", "F02": "fmt/FmtCheck.tla",
         "K01": "crypt/CryptCheck.tla", "K02": "crypt/CryptCheck.tla",
         "P01": "pkt/PacketCheck.tla", "P02": "pkt/PacketCheck.tla", "P03": "pkt/SpaceCheck.tla",
         "Q01": "query/DbCheck.tla", "Q02": "query/QueryCheck.tla", "Q03": "query/DbCheck.tla"}


def txt(x):
    """A byte list as readable text."""
    if isinstance(x, list) and x and all(isinstance(v, int) for v in x):
        return repr(bytes(v & 255 for v in x))[1:]
    return json.dumps(x)


def show(r):
    f = {k: (txt(v) if isinstance(v, list) else v) for k, v in r.items() if k not in ("id", "op", "r", "sc")}
    a = r["r"]
    return f"{r['op']} {f} -> {a['k']} {txt(a['b'])} {json.dumps(a['l'])[:300]}"


def key(r, why):
    k = {x: v for x, v in r.items() if x not in ("id", "r")}
    return r["op"] + ":" + c.hashlib.sha256(json.dumps(k, sort_keys=True).encode()).hexdigest()[:16]


def check_records(ck, recs, spec, name, fatal=True):
    f = os.path.join(ck.dir, name + ".ndjson")
    with open(f, "w") as h:
        for r in recs:
            h.write(json.dumps(r) + "\n")
    n = len(recs)
    chunks = (n - 1) // 50 + 1
    return c.tlc(spec, os.path.basename(spec).replace(".tla", ".cfg"), env={"RECS": f}, expect=n + chunks, heap="12g")


def driver(prop):
    crate, exe = ("edge", "drv-edge") if prop[0] in "AFK" else ("b/drv", "drv-b")
    return os.path.join(c.build(crate), exe)


def record(ck, prop, seed, n, budget=300):
    out = os.path.join(ck.dir, f"raw{seed}.ndjson")
    cmd = [driver(prop), prop, str(seed), str(n), out]
    scratch = tempfile.mkdtemp(prefix="lkedge")
    try:
        rc, so, se = c.run_driver(cmd, budget, env={"TMPDIR": scratch})
        if rc != 0:
            # find the call that took the process down
            rc2, so2, se2 = c.run_driver(cmd, budget, env={"TMPDIR": scratch, "TRACE_CALLS": "1"})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc != 0:
        last = [x for x in se2.splitlines() if x.startswith("CALL ")]
        if rc2 not in (0, 3, None) and last:
            ck.violation("abort", f"the process dies (status {rc2}) in {last[-1][:800]}", dict(call=last[-1][5:], status=rc2))
            return []
        raise ToolError(f"{os.path.basename(cmd[0])} {prop} rc={rc} {se[-1500:]}")
    return [json.loads(x) for x in open(out)]


def dedupe(recs):
    seen, out = set(), []
    for r in recs:
        k = json.dumps({x: v for x, v in r.items() if x != "id"}, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def judge(ck, recs, spec, seed):
    r = check_records(ck, recs, spec, "records")
    ck.add("records_checked", len(recs))
    ck.add("trace_states", r.distinct)
    by = {x["id"]: x for x in recs}
    for i, why in r.bad:
        x = by[i]
        ck.violation(key(x, why), f"{why}: {show(x)}"[:1400], dict(driver=f"{os.path.basename(driver(ck.prop))} {ck.prop} {seed} <n> <out>", record=x, why=why))
    return r


# -- the specifications themselves --------------------------------------------------------------------
_TEXT = ("abe/TextModel.tla", "TextModel.cfg", ("Size = 5", "Size = 6"), ["close", "raw", "loose"])
_EVAL = ("abe/EvalModel.tla", "EvalModel.cfg", ("Size = 5", "Size = 6"), ["last", "skip", "slash"])
_FMT = ("fmt/FmtModel.tla", "FmtModel.cfg", ("{0, 1, 128, 255}", "{0, 1, 57, 127, 128, 254, 255}"), ["order", "wrap", "pad"])
_ID = ("crypt/IdModel.tla", "IdModel.cfg", ("MaxTexts = 3", "MaxTexts = 4"), ["unchecked", "cost", "anyhash"])
_PKT = ("pkt/PacketModel.tla", "PacketModel.cfg", ("Faults = 1", "Faults = 2"), ["pad", "links", "hash", "order"])
MODEL = dict(A01=_TEXT, A02=_TEXT, A03=_TEXT, A04=_EVAL, A06=_EVAL,
             A05=("abe/BuiltinModel.tla", "BuiltinModel.cfg", ("Longest = 3", "Longest = 5"), ["clamp", "pad", "replace"]),
             A07=("abe/ConfModel.tla", "ConfModel.cfg", ("Entries = 3", "Entries = 4"), ["header", "oldest", "order"]),
             F01=_FMT, F02=_FMT, K01=_ID, K02=_ID, P01=_PKT, P02=_PKT,
             P03=("pkt/SpaceModel.tla", "SpaceModel.cfg", "SpaceModel_long.cfg", ["bare", "loose", "order"]),
             Q01=("query/TreeModel.tla", "TreeModel.cfg", "TreeModel_long.cfg", ["lower", "depth", "prefix", "single", "late"]),
             Q03=("query/TreeModel.tla", "LimitModel.cfg", "LimitModel_long.cfg", ["count", "reset"]),
             Q02=("query/QueryModel.tla", "QueryModel.cfg", ("Bits = 3", "Bits = 4"), ["carry", "strict", "print"]))


def models(ck):
    spec, cfg, deeper, wrong = MODEL[ck.prop]
    d = os.path.join(c.ROOT, "spec", os.path.dirname(spec))
    use = cfg
    if not ck.quick and isinstance(deeper, str):
        use = deeper
    elif not ck.quick:
        text = open(os.path.join(d, cfg)).read()
        assert deeper[0] in text
        use = os.path.join(ck.dir, cfg)
        open(use, "w").write(text.replace(*deeper))
    ck.model(c.tlc(spec, use, heap="16g"), f"{spec} {'' if ck.quick else deeper if isinstance(deeper, str) else deeper[1]}".strip())
    for w in wrong:
        ck.model(c.tlc(spec, cfg.replace(".cfg", f"_wrong_{w}.cfg")), f"{spec} wrong: {w}", must_hold=False)


# -- is the recorded answer really what is judged? ----------------------------------------------------
def spoil(x, rng):
    """A copy of a record with another answer."""
    r = dict(x["r"])
    if r["k"] != "ok":
        r.update(k="ok", b=[1], l=[])
    elif r["b"] and rng.random() < .7:
        b = list(r["b"])
        i = rng.randrange(len(b))
        b[i] = (b[i] + 1) % 256
        r["b"] = b
    elif r["l"] and rng.random() < .7:
        r["l"] = r["l"][:-1]
    else:
        r.update(k="err", b=[], l=[])
    return dict(x, r=r)


def binding(ck, recs):
    import random
    rng = random.Random(ck.seed)
    ops = {}
    for x in recs:
        ops.setdefault((x["op"], x.get("what", ""), x.get("kind", "")), []).append(x)
    chosen = {}
    for o, l in sorted(ops.items()):
        for x in rng.sample(l, min(len(l), 12)):
            chosen[x["id"]] = o
    bad = [spoil(x, rng) if x["id"] in chosen else x for x in recs if x["id"] in chosen or ck.prop[0] == "K"]
    r = check_records(ck, bad, CHECK[ck.prop], "spoiled")
    seen = {i for i, _ in r.bad} & set(chosen)
    for o in ops:
        mine = [i for i in chosen if chosen[i] == o]
        if not seen.intersection(mine):
            raise ToolError(f"wrong answers to {o} go unnoticed")
    ck.cov["spoiled_records_rejected"] = f"{len(seen)} of {len(chosen)}, some for each of {len(ops)} kinds of call"


ASSUME = {
    "A": ["inputs are generated: exhaustively for short ones, else at random from weighted pieces", "bracket nesting deeper than the generated one, and expressions that evaluate themselves, are not exercised"],
    "F": ["values are boundary values and random ones of every width"],
    "P": ["BLAKE3 and secp256k1 are taken to be ideal; what they say about given bytes is established apart from the packet code",
          "packets near the size limits are built and measured, not compared byte by byte"],
    "Q": ["values are near those of the packets they are tried on, or at the ends of their range",
          "rules that only leave numbers which no packet has (types, depths) may be refused or not; error points are left out"],
    "K": ["BLAKE3, secp256k1 and Argon2 are taken to be ideal: what the code never made is never accepted"],
}


def edge(ck):
    ck.level = "model_checking"
    models(ck)
    n, budget = (3000, 60) if ck.quick else (12000, 420)
    t = c.time.time()
    ops, k = {}, 0
    while k == 0 or (c.time.time() - t < budget and not ck.violations and (not ck.quick or k < 2)):
        seed = ck.seed * 1000 + k
        recs = dedupe(record(ck, ck.prop, seed, n))
        if not recs:
            break
        judge(ck, recs, CHECK[ck.prop], seed)
        for x in recs:
            ops[x["op"]] = ops.get(x["op"], 0) + 1
        if k == 0:
            keep = recs
        k += 1
    ck.cov["seeds"] = k
    ck.cov["calls"] = ops
    ck.cov["evaluations"] = sum(ops.values())
    if k and not ck.violations:
        binding(ck, keep)
    if k:
        ck.samples = [show(x)[:300] for x in keep[len(keep) // 3::max(1, len(keep) // 5)]]
    ck.assumptions = ASSUME[ck.prop[0]]
