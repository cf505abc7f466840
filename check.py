#!/usr/bin/env python3
"""Runs the model-checking harnesses that decide one property, supervises them, and reports.

  check.py PROP [--tier quick|thorough]      run the check (exit 0 held / 1 VIOLATION / 2 error)
  check.py --replay replays/FILE.json        re-execute one recorded counterexample
  check.py --setup                           build every harness
"""
import json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
CARGO = os.path.join(VERIF, "cargo.sh")

# property -> harness crates that contribute models to it
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import BINS, ASSUMPTIONS  # noqa: E402

MEM_LIMIT = 24 << 30


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run(cmd, timeout, **kw):
    """Returns (rc, stdout); rc is None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=None, text=True, errors="replace",
                         preexec_fn=limits, cwd=VERIF, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def replay_dir():
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def violation(prop, name, data):
    path = os.path.join(replay_dir(), f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(data, property=prop), f, indent=1, ensure_ascii=False)
    log(f"--- {prop}: {data.get('what')}")
    if data.get("case"):
        log(data["case"])
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def generators(bins):
    for b in bins:
        g = os.path.join(VERIF, "harness", b, "gen.py")
        if os.path.exists(g):
            subprocess.run([sys.executable, g], check=True, cwd=VERIF)


def build(bins):
    """Returns (ok, base_ok, output)."""
    generators(bins)
    cmd = [CARGO, "build", "--quiet"]
    for b in bins:
        cmd += ["-p", b]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode == 0:
        return True, True, ""
    # (Cargo doesn't take members of the workspace and other packages at once.)
    q = subprocess.run([CARGO, "build", "--quiet", "-p", "static-xml", "-p", "static-xml-derive"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return False, q.returncode == 0, p.stdout


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"]


def isolate(prop, b, tier, cmd, what):
    """The harness died or hung: find the execution that does it and reproduce it alone."""
    cands = []
    d = tempfile.mkdtemp(prefix="traced", dir=TARGET)
    try:
        rc, out = run(cmd + ["--traced", d], 500)
        for line in (out or "").splitlines():
            if line.startswith("HANG\t"):
                _, m, c = line.split("\t")
                cands.insert(0, (m, c))
        for f in sorted(os.listdir(d)):
            try:
                m, c = open(os.path.join(d, f)).read().rstrip("\n").split("\t")
                cands.append((m, c))
            except ValueError:
                pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for m, c in cands:
        one = [os.path.join(TARGET, "debug", b), prop, "--tier", tier, "--one", m, c]
        rc, out = run(one, 60)
        if rc not in (0, 3):
            kind = "does not return within 60 s" if rc is None else (
                "check fails" if rc == 1 else f"ends the process (status {rc})")
            violation(prop, "crash", {"bin": b, "tier": tier, "model": m, "choices": c, "case": (out or "")[-3000:],
                                      "what": f"execution {kind}"})
            return True
    log(f"{prop}: harness {b} failed ({what}) and no single execution reproduces it")
    return False


def check(prop, tier):
    t0 = time.time()
    if prop not in BINS:
        log("unknown property", prop)
        return 2
    bins = BINS[prop]
    special = [b for b in bins if b.endswith(".py")]
    bins = [b for b in bins if not b.endswith(".py")]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    parts, bad, err = [], 0, False
    known = {k["key"]: k for k in known_findings(prop)}
    seen_known = {}

    if bins:
        ok, base_ok, out = build(bins)
        if not ok:
            log(out[-6000:])
            if not base_ok:
                log(f"{prop}: static-xml itself does not build")
                return 2
            violation(prop, "build", {"bins": bins, "case": out[-6000:],
                                      "what": "a program using only documented API no longer compiles"})
            bad = 1
            bins = []
            parts.append({"models": [], "failure": True})
    for b in bins:
        part = os.path.join(TARGET, f"part-{prop}-{b}.json")
        if os.path.exists(part):
            os.unlink(part)
        cap = 420 if tier == "quick" else 3000
        cmd = [os.path.join(TARGET, "debug", b), prop, "--tier", tier, "--cap", str(cap)]
        for k in known:
            cmd += ["--known", k]
        rc, out = run(cmd + ["--out", part], cap + 120)
        if rc in (0, 1) and os.path.exists(part):
            p = json.load(open(part))
            parts.append(p)
            seen_known.update(p["known"])
            if p["failure"]:
                bad += 1
                violation(prop, b, dict(p["failure"], bin=b, tier=tier))
        elif rc == 3:
            err = True
        else:
            if isolate(prop, b, tier, cmd, f"status {rc}"):
                bad += 1
            else:
                err = True
        if bad or err:
            break
    for s in special:
        if bad or err:
            break
        part = os.path.join(TARGET, f"part-{prop}-{s}.json")
        if os.path.exists(part):
            os.unlink(part)
        rc, out = run([sys.executable, os.path.join(VERIF, "harness", s), prop, "--tier", tier, "--out", part], 800 if tier == "quick" else 3100)
        if rc in (0, 1) and os.path.exists(part):
            p = json.load(open(part))
            parts.append(p)
            for key, f in p.get("keyed", {}).items():
                if key in known:
                    seen_known[key] = f
                elif not p["failure"]:
                    p["failure"] = {"what": f[1], "case": key}
            if p["failure"]:
                bad += 1
                violation(prop, s, dict(p["failure"], bin=s, tier=tier))
        else:
            log(out or "")
            err = True

    models = [m for p in parts for m in p["models"]]
    for key, (n, what) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]['what']} [{key}; {n} execution(s)]", flush=True)
    samples = []
    for m in models:
        samples += [f"[{m['name']}] {s}" for s in m["samples"][-2:]]
    outcomes = {}
    for m in models:
        for k, v in m["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in models),
            "transitions": sum(m["transitions"] for m in models),
            "traces_validated_against_impl": sum(m["executions"] for m in models),
            "exhaustive": bool(models) and all(m["exhaustive"] for m in models) and not bad and not err,
            "samples": samples[:16],
            "outcomes": outcomes,
            "models": [{k: m[k] for k in ("name", "bounds", "executions", "states", "transitions",
                                          "comparisons", "max_choices_per_execution", "exhaustive", "wall_s")}
                       for m in models],
            "explanation": "Stateless exploration: each trace is one complete execution of the real code "
                           "under one resolution of every choice, compared with an independent reference; "
                           "states are distinct reference-model states, transitions are choice-tree edges.",
        },
        "assumptions": ASSUMPTIONS.get(prop, []) + ASSUMPTIONS["*"],
        "wall_s": round(time.time() - t0, 2),
        "violations": bad,
    }
    if models or bad:
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    c = ev["coverage"]
    log(f"{prop} {tier}: {len(models)} models, {c['traces_validated_against_impl']} executions, {c['states']} states, "
        f"{c['transitions']} transitions, exhaustive={c['exhaustive']}, {ev['wall_s']} s")
    if bad:
        return 1
    if err or not models:
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    b = d.get("bin", "")
    if not b or b.endswith(".py"):
        print(json.dumps(d, indent=1))
        return 1
    build([b])
    c = d["choices"]
    c = c if isinstance(c, str) else ",".join(map(str, c))
    return subprocess.run([os.path.join(TARGET, "debug", b), d["property"], "--tier", d["tier"], "--one", d["model"], c]).returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        bins = sorted({b for v in BINS.values() for b in v if not b.endswith(".py")})
        ok, base, out = build(bins)
        print(out)
        return 0 if ok else 1
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


sys.exit(main())
