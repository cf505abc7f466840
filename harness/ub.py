#!/usr/bin/env python3
"""C28: every document of a bounded space is read into derived types in an interpreter which judges each step.

The executions are those of the crate `ub`, in shards of which each runs in a process of its own: under Miri (undefined
behaviour of every kind it knows, including the aliasing rules) for the smaller bound, and as machine code under
Valgrind's memcheck (invalid accesses and uses of uninitialized memory) for a larger one.
"""
import json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(VERIF, "harness", "ub")
TARGET = os.path.join(VERIF, "target", "ub")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
SHARDS = 8
BASE = "-Zmiri-ignore-leaks -Zmiri-disable-isolation"
MIRI = ["cargo", "miri", "run", "-q", "--"]
MEMCHECK = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", os.path.join(TARGET, "debug", "ub")]
# name, command, MIRIFLAGS, depth
RUNS = {
    "quick": [("memcheck", MEMCHECK, "", 4), ("Miri, Stacked Borrows", MIRI, BASE, 2)],
    "thorough": [("memcheck", MEMCHECK, "", 5), ("Miri, Stacked Borrows", MIRI, BASE, 3),
                 ("Miri, Tree Borrows", MIRI, BASE + " -Zmiri-tree-borrows", 2),
                 ("Miri, symbolic alignment", MIRI, BASE + " -Zmiri-symbolic-alignment-check", 2)],
}
UB = re.compile(r"error: Undefined Behavior: (.*)")
ELSE = re.compile(r"error: (unsupported operation|abnormal termination|the evaluated program .*|post-monomorphization.*)")


class Shard:
    def __init__(self, run, shard, first=0):
        self.name, self.cmd, self.flags, self.depth = run
        self.shard, self.skipped, self.outcomes, self.done, self.ub = shard, 0, {}, 0, None
        self.samples = []
        self.start(first)

    def start(self, first):
        self.base = os.path.join(TARGET, f"shard-{self.shard}")
        self.out, self.err = open(self.base + ".out", "w"), open(self.base + ".err", "w")
        self.p = subprocess.Popen(self.cmd + [str(a) for a in (self.shard, SHARDS, self.depth, first)], cwd=CRATE,
                                  env=dict(ENV, MIRIFLAGS=self.flags), stdout=self.out, stderr=self.err)

    def finish(self, deadline):
        """Returns None, or what the harness itself failed with."""
        while True:
            try:
                rc = self.p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                return "out of time"
            self.out.close(), self.err.close()
            last, complete = None, False
            for line in open(self.base + ".out", errors="replace"):
                f = line.rstrip("\n").split("\t")
                if f[0] == "RUN":
                    last = f
                    self.done += 1
                    if self.done in (3, 40, 90):
                        self.samples.append(f"{f[2]}: {f[3]}")
                elif f[0] == "OUTCOME":
                    self.outcomes[f[2]] = self.outcomes.get(f[2], 0) + int(f[3])
                elif f[0] == "BAD":
                    self.ub = {"what": f"{f[2]}: {f[4]}", "case": f[3], "number": f[1]}
                    return None
                elif f[0] == "DONE":
                    complete, self.total = True, int(f[1])
            if rc == 0 and complete:
                return None
            err = open(self.base + ".err", errors="replace").read()
            if last is None:
                return f"status {rc} before the first execution\n" + err[-4000:]
            m = UB.search(err)
            if m or (self.cmd is MEMCHECK and rc == 99) or rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
                what = m.group(1) if m else (re.findall(r"==\d+== ([A-Z].*)", err) or [f"status {rc}"])[0]
                err = err[max(err.find("error: Undefined"), 0):]
                at = [l for l in re.findall(r"-->\s*(\S+)|\(((?:mod|types|main|deserialize)\.rs:\d+)\)", err)][:4]
                at = ", ".join(a or b for a, b in at)
                self.ub = {"what": f"undefined behaviour reading {last[2]} ({self.name}): {what} at {at}", "number": last[1],
                           "case": f"document {last[3]!r} read as {last[2]}\n" + err[:6000]}
                return None
            # Ended in a way which is no undefined behaviour (an abort, something Miri can't do): go on after it.
            if self.skipped < 50 and (ELSE.search(err) or rc == -signal.SIGABRT):
                self.skipped += 1
                self.start(int(last[1]) + 1)
                continue
            return f"status {rc} in execution {last}\n" + err[-4000:]

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def main():
    a = sys.argv[1:]
    prop, tier, out = a[0], a[a.index("--tier") + 1], a[a.index("--out") + 1]
    os.makedirs(TARGET, exist_ok=True)
    t0, models, failure = time.time(), [], None
    deadline = t0 + (700 if tier == "quick" else 2900)
    for cmd in (["cargo", "build", "-q"], MIRI + ["0", "1", "1", "1000000000"]):
        b = subprocess.run(cmd, cwd=CRATE, env=dict(ENV, MIRIFLAGS=BASE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0:
            print(b.stdout[-6000:], file=sys.stderr)
            return 2
    for run in RUNS[tier]:
        t = time.time()
        shards = [Shard(run, i) for i in range(SHARDS)]
        try:
            for s in shards:
                e = s.finish(deadline)
                if e:
                    print(f"{run[0]}, shard {s.shard}: {e}", file=sys.stderr)
                    return 2
                if s.ub and (failure is None or int(s.ub["number"]) < int(failure["number"])):
                    failure = s.ub
        finally:
            for s in shards:
                s.stop()
        outcomes = {}
        for s in shards:
            for k, v in s.outcomes.items():
                outcomes[k] = outcomes.get(k, 0) + v
        done, skipped = sum(s.done for s in shards), sum(s.skipped for s in shards)
        if skipped:
            outcomes["ended the process"] = skipped
        exhaustive = failure is None and all(s.total == done for s in shards)
        if failure is None and not exhaustive:
            print(f"{run[0]}: {done} executions of {[s.total for s in shards]}", file=sys.stderr)
            return 2
        states = 0
        if failure is None:
            n = subprocess.run([os.path.join(TARGET, "debug", "ub"), "0", "1", str(run[3])], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
            m = re.search(r"^DONE\t\d+\t(\d+)$", n, re.M)
            states = int(m.group(1)) if m else 0
        models.append({"name": run[0], "bounds": f"up to {run[3]} children or pieces (2 attributes) for each of 20 models; whole and cut off; normalization of up to {run[3] + 1} characters and of every byte in every place of an encoding",
                       "executions": done, "states": states, "transitions": done, "comparisons": done, "max_choices_per_execution": run[3] + 3,
                       "exhaustive": exhaustive, "wall_s": round(time.time() - t, 2), "samples": shards[0].samples[-2:], "outcomes": outcomes})
        if failure:
            break
    with open(out, "w") as f:
        json.dump({"models": models, "failure": failure, "known": {}, "keyed": {}}, f)
    return 1 if failure else 0


sys.exit(main())
