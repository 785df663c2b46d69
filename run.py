#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check <PROP> [quick|thorough]   run one property's check
  run.py replay <replay.json>            re-run the case a violation came from
  run.py setup                           warm the build cache (optional)

A check builds the monitors together with /repo's current working tree (via a
build overlay: nothing is written in /repo), runs them, and writes
/verif/evidence/<PROP>.json.  Exit 0: held on everything explored; exit 1 with
a VIOLATION line: broken; exit 3: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/lightstep/otel-launcher-go"
GO = "go1.24"
SHARDS = 6
SHARED = {"exporters": ["core/sut.go"], "launcher": ["core/sut.go", "exporters/server.go"]}

sys.path.insert(0, VERIF)
T0 = time.time()
from props import PROPS, PHASES  # noqa: E402

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
           GOMODCACHE="/root/go/pkg/mod", HOME="/root")
ENV.setdefault("GOCACHE", "/root/.cache/go-build")
for k in list(ENV):
    if k.startswith("OTEL_") or k.startswith("LS_"):
        del ENV[k]

INSTR_PKGS = [
    "lightstep/sdk/metric",
    "lightstep/sdk/metric/data",
    "lightstep/sdk/metric/number",
    "lightstep/sdk/metric/aggregator",
    "lightstep/sdk/metric/aggregator/gauge",
    "lightstep/sdk/metric/aggregator/histogram",
    "lightstep/sdk/metric/aggregator/minmaxsumcount",
    "lightstep/sdk/metric/aggregator/sum",
    "lightstep/sdk/metric/internal/asyncstate",
    "lightstep/sdk/metric/internal/syncstate",
    "lightstep/sdk/metric/internal/viewstate",
    "lightstep/sdk/metric/internal/doevery",
    "lightstep/sdk/metric/internal/export",
    "lightstep/sdk/metric/exporters/otlp/otelcol",
    "lightstep/sdk/metric/exporters/prom",
    "lightstep/sdk/trace/exporters/otlp/otelcol",
    "lightstep/sdk/internal",
    "lightstep/instrumentation/runtime",
    "lightstep/instrumentation/cputime",
    "lightstep/instrumentation/host",
    "launcher",
    "pipelines",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def overlay(work, harness, instrument):
    """Write the overlay file; returns (path, nsites)."""
    rep = {}
    for pkg in ("vy", "hz", *harness):
        d = os.path.join(VERIF, "harness", pkg)
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith(".go"):
                    rel = os.path.relpath(os.path.join(root, f), os.path.join(VERIF, "harness"))
                    rep[os.path.join(REPO, "zzverif", rel)] = os.path.join(root, f)
    for pkg in harness:
        for f in SHARED.get(pkg, []):
            rep[os.path.join(REPO, "zzverif", pkg, "shared_" + os.path.basename(f))] = os.path.join(VERIF, "harness", f)
    nsites = 0
    if instrument:
        instr = os.path.join(work, "instr")
        r = sh([GO, "build", "-o", instr, "."], cwd=os.path.join(VERIF, "tools", "instr"), env=dict(ENV, GOFLAGS="-mod=mod"))
        if r.returncode != 0:
            raise RuntimeError("instrumenter does not build: " + r.stderr)
        out = os.path.join(work, "src")
        os.makedirs(out, exist_ok=True)
        r = sh([instr, "-out", out, "-import", MOD + "/zzverif/vy", "-root", REPO, *INSTR_PKGS])
        if r.returncode != 0:
            raise RuntimeError("instrumenter failed: " + r.stderr)
        j = json.loads(r.stdout)
        rep.update(j["replace"])
        nsites = len(j["sites"])
        json.dump(j["sites"], open(os.path.join(work, "sites.json"), "w"))
    path = os.path.join(work, "overlay%d.json" % (1 if instrument else 0))
    json.dump({"Replace": rep}, open(path, "w"))
    return path, nsites


def build(work, binary, race):
    """Build one monitor binary from the working tree; returns (path, nsites, instrumented)."""
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(work, f))
    last = None
    for instrument in (True, False):
        try:
            ov, n = overlay(work, [binary], instrument)
        except RuntimeError as e:
            last = str(e)
            continue
        exe = os.path.join(work, binary + ("-race" if race else ""))
        cmd = [GO, "build", "-overlay", ov, "-modfile", os.path.join(work, "go.mod"), "-o", exe]
        if race:
            cmd.append("-race")
        cmd.append("./zzverif/" + binary)
        r = sh(cmd, cwd=REPO)
        if r.returncode == 0:
            return exe, n, instrument
        last = r.stderr
    raise RuntimeError("build failed:\n" + (last or ""))


CRASH = re.compile(r"^(panic: |fatal error: |unexpected fault|SIGSEGV)", re.M)


def run_shard(work, exe, args, env, limit, i):
    out = os.path.join(work, "report%d.json" % i)
    log = os.path.join(work, "log%d.txt" % i)
    if os.path.exists(out):
        os.remove(out)
    scratch = os.path.join(work, "scratch%d" % i)
    os.makedirs(scratch, exist_ok=True)
    with open(log, "w") as lf:
        p = subprocess.Popen([exe, *args, "-out", out], env=dict(env, VERIF_SCRATCH=scratch), cwd=scratch,
                             stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 3)
                time.sleep(2)
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            rc = "timeout"
    text = open(log, errors="replace").read()
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    return rc, rep, text


def merge_reports(reps):
    m = dict(reps[0])
    m["counters"] = {}
    m["violations"], m["samples"] = [], []
    hashes = set()
    for k in ("evaluations", "cases", "nviolations", "injected_delays"):
        m[k] = 0
    for k in ("yield_sites_reached", "distinct_preemption_pairs"):
        m[k] = 0
    for r in reps:
        for k in ("evaluations", "cases", "nviolations", "injected_delays"):
            m[k] += r.get(k, 0)
        for k in ("yield_sites_reached", "distinct_preemption_pairs"):
            m[k] = max(m[k], r.get(k, 0))
        for k, v in (r.get("counters") or {}).items():
            m["counters"][k] = m["counters"].get(k, 0) + v
        m["violations"] += r.get("violations") or []
        m["samples"] += r.get("samples") or []
        hashes.update(r.get("distinct_hashes") or [])
    m["distinct_nontrivial"] = len(hashes)
    m.pop("distinct_hashes", None)
    return m


def run_phase(work, prop, tier, seed, phase, case=None):
    """Returns dict(report, log, crashed, races, nsites...)."""
    t0 = time.time()
    exe, nsites, instrumented = build(work, phase["bin"], phase.get("race", False))
    t1 = time.time()
    env = dict(ENV)
    env["GORACE"] = "halt_on_error=0 exitcode=66 history_size=4"
    env["GOTRACEBACK"] = "all"
    env.update(phase.get("env", {}))
    args = ["-prop", phase.get("as", prop), "-tier", tier, "-seed", str(seed)]
    limit = 7200
    if tier == "quick":  # answer within the time a quick check has
        limit = max(60, min(600, 820 - (time.time() - T0)))
    n = 1 if case else phase.get("shards", SHARDS)
    if case:
        args += ["-case", case]
    if n > 1:
        env.setdefault("GOMAXPROCS", str(phase.get("procs", 4)))
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda i: run_shard(work, exe, args + ["-shard", str(i), "-shards", str(n)], env, limit, i), range(n)))
    return dict(shards=rs, nsites=nsites, instrumented=instrumented, build_s=t1 - t0, run_s=time.time() - t1)


RACE = re.compile(r"WARNING: DATA RACE\n(.*?)\n==================", re.S)


def race_reports(text):
    seen = {}
    for m in RACE.finditer(text):
        body = m.group(1)
        frames = [f for f in re.findall(r"^\s+(/\S+\.go):\d+", body, re.M)]
        # A report counts when the code under test takes part in it.
        if not any(f.startswith(REPO + "/") and "/zzverif/" not in f for f in frames):
            continue
        key = tuple(re.findall(r"^  (\S+)\(", body, re.M)[:6])
        seen.setdefault(key, body)
    return list(seen.values())


def known_as(known, v):
    """The known finding this violation is, if any."""
    return next((k for k in known if re.search(k["match"], v["msg"] + "\n" + json.dumps(v.get("detail", {})))), None)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return [f for f in json.load(open(path)).get("findings", []) if f.get("property") == prop and f.get("status") == "known"]
    except FileNotFoundError:
        return []


def check(prop, tier, seed, case=None, keep=None):
    t0 = time.time()
    spec = PROPS[prop]
    ev_dir = os.path.join(VERIF, "evidence")
    rp_dir = os.path.join(ev_dir, "replays")
    os.makedirs(rp_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations, phases, inconclusive = [], [], []
    known = known_findings(prop)
    try:
        for ph in PHASES[prop]:
            if ph.get("tier") and ph["tier"] != tier:
                continue
            try:
                res = run_phase(work, prop, tier, seed, ph, case)
            except RuntimeError as e:
                inconclusive.append(str(e)[-3000:])
                continue
            name = ph["bin"] + ("+race" if ph.get("race") else "")
            pv, reps = [], []
            for rc, rep, log in res["shards"]:
                if rep:
                    reps.append(rep)
                    pv += rep.get("violations") or []
                races = race_reports(log) if ph.get("race") else []
                for b in races[:6]:
                    pv.append({"case": "race", "msg": "data race reported by the race detector", "detail": {"report": b}})
                if rep is None and CRASH.search(log):
                    m = CRASH.search(log)
                    head = log[m.start():m.start() + 6000]
                    pv.append({"case": "crash", "msg": "process crashed: " + head.splitlines()[0], "detail": {"log": head}})
                elif rep is None:
                    inconclusive.append("%s: no report (exit %s): %s" % (name, rc, log[-2000:]))
            rep = merge_reports(reps) if reps else {}
            if reps and rep.get("evaluations", 0) == 0:
                inconclusive.append("%s: observed nothing" % name)
            for v in pv:
                v["phase"] = name
            violations += pv
            phases.append((name, res, rep))
            if any(known_as(known, v) is None for v in pv):
                break
        cov = {
            "evaluations": sum(r.get("evaluations", 0) for _, _, r in phases),
            "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for _, _, r in phases),
            "rule": " | ".join(dict.fromkeys(r.get("rule", "") for _, _, r in phases)),
            "samples": [s for _, _, r in phases for s in (r.get("samples") or [])][:10],
            "phases": [
                {"binary": n, "race_detector": r.get("race_detector", False), "cases": r.get("cases", 0),
                 "evaluations": r.get("evaluations", 0), "counters": r.get("counters", {}),
                 "yield_sites_inserted": s["nsites"], "yield_sites_reached": r.get("yield_sites_reached", 0),
                 "distinct_preemption_pairs": r.get("distinct_preemption_pairs", 0),
                 "injected_delays": r.get("injected_delays", 0),
                 "build_s": round(s["build_s"], 1), "run_s": round(s["run_s"], 1)} for n, s, r in phases],
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        if inconclusive:
            ev["coverage"]["inconclusive"] = inconclusive
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        fresh = [v for v in violations if known_as(known, v) is None]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if fresh:
            h = hashlib.sha1(json.dumps(fresh[0], sort_keys=True).encode()).hexdigest()[:10]
            rp = os.path.join(rp_dir, "%s-%s.json" % (prop, h))
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "violations": fresh}, f, indent=1)
            for v in fresh[:5]:
                print("  [%s] %s: %s" % (v.get("phase"), v["case"], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if inconclusive:
            print("no answer: " + "\n".join(inconclusive))
            return 3
        print("held: property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (
            prop, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        if keep:
            shutil.copytree(work, keep, dirs_exist_ok=True)
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a and a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[1], tier, seed))
    if a and a[0] == "replay":
        j = json.load(open(a[1]))
        rc = 0
        for v in j["violations"][:3]:
            c = v["case"] if "/" in v["case"] else None
            rc = max(rc, check(j["property"], j["tier"], j["seed"], case=c))
        sys.exit(rc)
    if a and a[0] == "setup":
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            todo = sorted({(p["bin"], bool(p.get("race"))) for ps in PHASES.values() for p in ps})
            for b, race in todo:
                build(work, b, race)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(0)
    print(__doc__)
    sys.exit(3)


if __name__ == "__main__":
    main()
