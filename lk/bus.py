"""B01-B04: the wake-up bus and its port registry."""
import json, os, shutil, tempfile
from . import common as c
from .common import ToolError

LOCAL, THREE, SAME, LOSS, PAIR = "local", "three", "same", "loss", "pair"
WRONG = {"B01": [("no_retry", LOCAL, "B01")], "B02": [("notify_first", LOCAL, "B02"), ("notify_one", LOCAL, "B02")],
         "B03": [("rebroadcast", THREE, "B03"), ("no_pid", SAME, "B03"), ("no_bus", THREE, "B03")]}


def drive(ck, mode, args, budget):
    bins = c.build("bus", "--cfg lk_verif")
    scratch = tempfile.mkdtemp(prefix="lkbus")
    out = os.path.join(ck.dir, "raw.ndjson")
    rc, so, se = c.run_driver([os.path.join(bins, "drv-bus"), mode, scratch, out, "--seed", str(ck.seed), *map(str, args)], budget)
    shutil.rmtree(scratch, ignore_errors=True)
    if rc != 0:
        raise ToolError(f"drv-bus {mode} rc={rc} {so[-500:]} {se[-1500:]}")
    ck.cov["driver"] = json.loads(so.strip().splitlines()[-1])
    return [json.loads(x) for x in open(out)]


def normalise(traces):
    """Values become ranks (order is kept), every event has all fields."""
    res = []
    for i, t in enumerate(traces):
        vals = sorted({0} | {e["v"] for e in t["ev"] if e["e"] in ("emit", "val", "emitret")} |
                      {e["r"] for e in t["ev"] if e.get("r", -1) >= 0 and e["e"] in ("emitret", "waitret", "readret")})
        rank = {v: k for k, v in enumerate(vals)}
        ev = []
        for k, e in enumerate(t["ev"]):
            if e["e"] == "tool":
                raise ToolError(str(e))
            n = dict(e=e["e"], t=e.get("t", 0), p=e.get("p", 0), v=e.get("v", 0), m=e.get("m", 0), r=e.get("r", -1), id=k + 1)
            if e["e"] in ("emit", "val", "emitret"):
                n["v"] = rank[e["v"]]
            if e["e"] in ("emitret", "waitret", "readret") and n["r"] >= 0:
                n["r"] = rank[n["r"]]
            ev.append(n)
        procs = [dict(bus=p[0], pid=p[1], init=bool(p[2])) for p in t["procs"]]
        res.append(dict(id=i, procs=procs, threads=max([e["t"] for e in ev] + [len(procs)]), ev=ev))
    return res


def validate(ck, spec, cfg, traces, norm, describe, replay):
    f = os.path.join(ck.dir, "traces.ndjson")
    with open(f, "w") as h:
        for t in norm:
            h.write(json.dumps(t) + "\n")
    expect = sum(len(t["ev"]) + 1 for t in norm)
    r = c.tlc(spec, cfg, env={"TRACE": f}, expect=expect)
    ck.add("traces_validated_against_impl", len(norm))
    ck.add("trace_states", r.distinct)
    others = 0
    for tid, l, prop, why in r.bad:
        if prop != ck.prop:
            others += 1
            continue
        ck.violation(why, f"{why}: {describe(traces[tid], l)}", replay(traces[tid], l))
    if others:
        c.log(f"{others} violations of the sibling properties in the same traces")


def bus(ck):
    full = not ck.quick
    # 1. the algorithm, exhaustively
    models = [LOCAL, SAME, THREE] + ([LOSS, PAIR] if full else [])
    for m in models:
        ck.model(c.tlc("bus/MC.tla", f"MC_{m}.cfg"), f"BusImpl/{m}")
    for variant, m, inv in WRONG[ck.prop]:
        cfg = os.path.join(ck.dir, "wrong.cfg")
        open(cfg, "w").write(open(os.path.join(c.ROOT, "spec/bus", f"MC_{m}.cfg")).read().replace('"ok"', f'"{variant}"'))
        ck.model(c.tlc("bus/MC.tla", cfg), f"BusImpl/{m}/wrong:{variant}", must_hold=False)
    # 2. the code, against the same contract
    if ck.quick:
        tr = drive(ck, "bus", ["--dev", 2, "--cap", 400, "--random", 60, "--extra", 40, "--time", 60], 200)
    else:
        tr = drive(ck, "bus", ["--dev", 4, "--cap", 6000, "--random", 600, "--extra", 200, "--time", 420], 700)
        tr = tr[:60000]
    if ck.prop == "B03":
        real = real_bus(ck, 3 if ck.quick else 20)
        ck.cov["real_socket_traces"] = len(real)
        tr += real
    norm = normalise(tr)

    def describe(t, l):
        return f"scenario {t['sc']} schedule {t['sched']} event {l}: {json.dumps(t['ev'][max(0, l - 12):l])}"

    def replay(t, l):
        return dict(driver=f"drv-bus bus <scratch> <out> --seed {ck.seed} --only {t['sc']} --sched {','.join(map(str, t['sched']))}",
                    procs=t["procs"], event=l, trace=t["ev"])
    validate(ck, "bus/BusTrace.tla", "BusTrace.cfg", tr, norm, describe, replay)
    # 3. binding: a trace with one event changed must be rejected
    if not ck.violations:
        binding(ck, tr)
    ck.samples = [dict(procs=t["procs"], sched=t["sched"], events=t["ev"][:14]) for t in tr[3:6]]
    ck.assumptions = ["x86 total store order; weaker memory orderings are not explored (the scheduler interleaves whole atomic operations)",
                      "event-listener and socket2 are replaced by stand-ins with their documented semantics",
                      "schedules: depth-first with a bounded number of deviations plus seeded random ones, over the listed scenarios"]


def binding(ck, tr):
    """Corrupt recorded traces: the validator has to notice."""
    want = {"B01": ("emitret", lambda e: dict(e, r=e["r"] + 1)),
            "B02": ("waitret", lambda e: dict(e, r=0) if e["r"] > 0 else None),
            "B03": ("send", lambda e: None)}[ck.prop]
    picked = []
    for t in tr:
        for k, e in enumerate(t["ev"]):
            if e["e"] == want[0]:
                # B03: drop the announcement of an emit that raised the value
                if ck.prop == "B03":
                    if not any(x["e"] == "val" and x["t"] == e["t"] for x in t["ev"][:k][-2:]):
                        continue
                    if not any(x["e"] == "emitret" and x["t"] == e["t"] for x in t["ev"][k:]):
                        continue
                    ev = t["ev"][:k] + t["ev"][k + 1:]
                else:
                    n = want[1](e)
                    if n is None:
                        continue
                    ev = t["ev"][:k] + [n] + t["ev"][k + 1:]
                picked.append(dict(t, ev=ev))
                break
        if len(picked) == 20:
            break
    if not picked:
        ck.cov["corrupted_traces_rejected"] = "none available"
        return
    f = os.path.join(ck.dir, "corrupt.ndjson")
    with open(f, "w") as h:
        for t in normalise(picked):
            h.write(json.dumps(t) + "\n")
    r = c.tlc("bus/BusTrace.tla", "BusTrace.cfg", env={"TRACE": f})
    hit = {b[0] for b in r.bad}
    ck.cov["corrupted_traces_rejected"] = f"{len(hit)} of {len(picked)}"
    if len(hit) < len(picked):
        raise ToolError(f"trace validation accepted a corrupted trace ({len(hit)} of {len(picked)} rejected)")


# -- B04 ---------------------------------------------------------------------------------------
def normalise_ports(traces):
    res = []
    for i, t in enumerate(traces):
        ids = sorted({e["v"] for e in t["ev"] if e["e"] in ("req", "got")})
        ev = [dict(e=e["e"], t=e.get("t", 0), v=ids.index(e["v"]) if e["e"] in ("req", "got") else 0, r=e.get("r", -1))
              for e in t["ev"]]
        res.append(dict(id=i, threads=max([e["t"] for e in ev] + [1]), ev=ev))
    return res


def real_ports(ck, rounds):
    """Real processes, real file locks: only the answers are compared, whatever their order."""
    import random, subprocess
    rnd = random.Random(ck.seed)
    exe = os.path.join(c.build("busreal"), "drv-busreal")
    traces = []
    for k in range(rounds):
        scratch = tempfile.mkdtemp(prefix="lkport")
        try:
            ev, t = [], 0
            for wave in range(3):
                ps = []
                for _ in range(6):
                    ids = [str(rnd.randrange(12)) for _ in range(5)]
                    ps.append(subprocess.Popen([exe, "port", *ids], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                               env=dict(os.environ, TMPDIR=scratch)))
                for p in ps:
                    t += 1
                    try:
                        so, se = p.communicate(timeout=60)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        ev.append(dict(e="hang", t=t))
                        continue
                    for line in so.split("\n"):
                        if line.strip():
                            i, port = line.split()
                            ev.append(dict(e="got", t=t, v=int(i), r=int(port)))
                    if p.returncode != 0:
                        ev.append(dict(e="panic", t=t))
            traces.append(dict(sc="real", kill=0, sched=[k], ev=ev))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return traces


def ports(ck):
    ck.model(c.tlc("bus/PortImpl.tla", "PortImpl_ok.cfg"), "PortImpl/ok")
    for w in ("in_place", "unlocked"):
        ck.model(c.tlc("bus/PortImpl.tla", f"PortImpl_{w}.cfg"), f"PortImpl/wrong:{w}", must_hold=False)
    if ck.quick:
        tr = drive(ck, "port", ["--dev", 2, "--cap", 150, "--random", 5, "--extra", 25, "--time", 60], 200)
    else:
        tr = drive(ck, "port", ["--dev", 3, "--cap", 3000, "--random", 20, "--extra", 150, "--time", 300], 600)
    tr += real_ports(ck, 4 if ck.quick else 30)
    norm = normalise_ports(tr)
    validate(ck, "bus/PortTrace.tla", "PortTrace.cfg", tr, norm,
             lambda t, l: f"requests {t['sc']} process dies at step {t['kill']} schedule {t['sched']}: {json.dumps(t['ev'][max(0, l - 14):l])}",
             lambda t, l: dict(driver=f"drv-bus port <scratch> <out> --seed {ck.seed}", scenario=t["sc"], kill=t["kill"], sched=t["sched"], trace=t["ev"]))
    if not ck.violations:
        bad = []
        for t in tr:
            g = [k for k, e in enumerate(t["ev"]) if e["e"] == "got"]
            if len(g) > 1 and t["ev"][g[0]]["v"] != t["ev"][g[-1]]["v"]:
                ev = [dict(e) for e in t["ev"]]
                ev[g[-1]]["r"] = ev[g[0]]["r"]
                bad.append(dict(t, ev=ev))
            if len(bad) == 10:
                break
        f = os.path.join(ck.dir, "corrupt.ndjson")
        with open(f, "w") as h:
            for t in normalise_ports(bad):
                h.write(json.dumps(t) + "\n")
        r = c.tlc("bus/PortTrace.tla", "PortTrace.cfg", env={"TRACE": f})
        ck.cov["corrupted_traces_rejected"] = f"{len({b[0] for b in r.bad})} of {len(bad)}"
        if len({b[0] for b in r.bad}) < len(bad):
            raise ToolError("trace validation accepted a corrupted trace")
    ck.samples = [dict(kill=t["kill"], sched=t["sched"], events=t["ev"][:12]) for t in tr[3:6]]
    ck.assumptions = ["a crash ends a process between two of its file operations (inside std::fs::write: after creating, after part of the bytes); power loss is not modelled",
                      "fewer ids than the port range has room for"]


# -- B03 on real sockets ----------------------------------------------------------------------------
def multicast_works():
    import socket, struct
    try:
        rx = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        rx.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        rx.bind(("239.255.50.10", 0))
        port = rx.getsockname()[1]
        rx.setsockopt(socket.IPPROTO_IP, socket.IP_ADD_MEMBERSHIP, socket.inet_aton("239.255.50.10") + socket.inet_aton("127.0.0.1"))
        rx.settimeout(1)
        tx = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        tx.setsockopt(socket.IPPROTO_IP, socket.IP_MULTICAST_IF, socket.inet_aton("127.0.0.1"))
        tx.setsockopt(socket.IPPROTO_IP, socket.IP_MULTICAST_TTL, 0)
        for _ in range(3):
            tx.sendto(b"x", ("239.255.50.10", port))
            try:
                return rx.recv(10) == b"x"
            except OSError:
                pass
    except OSError:
        pass
    return False


def real_bus(ck, rounds):
    """Processes A and B share a bus, C has another one."""
    import subprocess
    if not multicast_works():
        ck.cov["real_sockets"] = "skipped: no multicast on loopback here"
        return []
    exe = os.path.join(c.build("busreal"), "drv-busreal")
    traces = []
    for k in range(rounds):
        scratch = tempfile.mkdtemp(prefix="lkbusr")
        ps = []
        try:
            for n, b in ((1, 1), (2, 1), (3, 2)):
                d = os.path.join(scratch, f"bus{b}")
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "id"), "wb").write((os.getpid() * 1000 + k * 10 + b).to_bytes(8, "big"))
                p = subprocess.Popen([exe, "bus", d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     text=True, env=dict(os.environ, TMPDIR=scratch))
                ps.append(p)
                if p.stdout.readline().strip() != "ready":
                    return [dict(sc="real", sched=[k], procs=[[1, 1, 1]], ev=[dict(e="dead", t=1)])]

            def ask(i, cmd):
                ps[i].stdin.write(cmd + "\n")
                ps[i].stdin.flush()
                return int(ps[i].stdout.readline() or -1)
            ev, m, val = [], 0, [0, 0, 0]

            def step(src, dst, v):
                nonlocal m
                for attempt in range(3):      # datagrams may be lost
                    m += 1
                    r = ask(src, f"emit {v}")
                    got = ask(dst, f"await {v}")
                    ev.extend([dict(e="emit", t=4 + src, p=src + 1, v=v), dict(e="val", t=4 + src, p=src + 1, v=v),
                               dict(e="send", t=4 + src, m=m), dict(e="emitret", t=4 + src, p=src + 1, v=v, r=r)])
                    val[src] = v
                    if got >= v:
                        break
                    v += 1
                if got < v:
                    ev.append(dict(e="unrouted", t=4 + src, p=dst + 1))
                    return v
                ev.extend([dict(e="recv", t=dst + 1, m=m), dict(e="val", t=dst + 1, p=dst + 1, v=got), dict(e="rxidle", t=dst + 1)])
                return v
            v = step(0, 1, 5)
            v = step(1, 0, v + 1)
            v = step(0, 1, v + 2 ** 40)
            other = ask(2, "val")
            if other != 0:
                ev.extend([dict(e="recv", t=3, m=m), dict(e="val", t=3, p=3, v=other), dict(e="rxidle", t=3)])
            traces.append(dict(sc="real", sched=[k], procs=[[1, 101, 1], [1, 102, 1], [2, 103, 1]], ev=ev))
        finally:
            for p in ps:
                p.kill()
                p.wait()
            shutil.rmtree(scratch, ignore_errors=True)
    return traces
