#!/usr/bin/env python3
"""builds.py quick|thorough         decides C32
builds.py replay FILE            executes a recorded failure again

Builds portable/ (generated cases with their own oracle) in several ways, with other
optimisations, processor levels, compilers, layouts of structures, checks, and the feature
that the library has for its tests, and compares what they do with the same cases, line by
line. Exit 0: held; 1: violation; 2: no answer."""
import json, os, re, subprocess, sys, threading, time
from portable import CHECK, HOOK, JOBS, NEON, OUT, ROOT, SEED, START, TARGET, Check, Program, choices

FLAGS = [f"{HOOK} {NEON}", HOOK, ""]
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97"}
FAST = dict(OPT_LEVEL="3", DEBUG_ASSERTIONS="false", OVERFLOW_CHECKS="false")
# name: (compiler, flags, profile, other arguments of cargo, environment of the runs)
CONFIGS = {
    "reference": ("stable", "", dict(OPT_LEVEL="1"), [], {}),
    "debug": ("stable", "", dict(OPT_LEVEL="0"), [], {}),
    "release": ("stable", "", FAST, [], {}),
    "size": ("stable", "", FAST | dict(OPT_LEVEL='"z"'), [], {}),
    "lto": ("stable", "", FAST | dict(LTO='"fat"', CODEGEN_UNITS="1", PANIC='"abort"'), [], {}),
    "units": ("stable", "-Cno-vectorize-loops -Cno-vectorize-slp", FAST | dict(CODEGEN_UNITS="256"), [], {}),
    "native": ("stable", "-Ctarget-cpu=native", FAST, [], {}),
    "v3": ("stable", "-Ctarget-cpu=x86-64-v3", FAST | dict(LTO='"thin"'), [], {}),
    "v2": ("stable", "-Ctarget-cpu=x86-64-v2", FAST | dict(OPT_LEVEL="2"), [], {}),
    "older": ("1.98.1", "", FAST, [], {}),
    "feature": ("stable", "", FAST, ["--features", "tis"], {}),
    "layout": ("nightly", "-Zrandomize-layout -Zlayout-seed={seed}", FAST | dict(OPT_LEVEL='"s"'), [], {}),
    "layout2": ("nightly", "-Zrandomize-layout -Zlayout-seed={seed}7", dict(OPT_LEVEL="0"), [], {}),
    "checked": ("nightly", "-Zextra-const-ub-checks -Zstrict-init-checks -Zub-checks=yes --cfg coverage_nightly", dict(OPT_LEVEL="2"), [], {}),
    "asan": ("nightly", "-Zsanitizer=address", dict(OPT_LEVEL="1"), [], ASAN),
}


# What this processor must have to execute them
NEEDS = {"v2": "sse4_2 popcnt ssse3", "v3": "sse4_2 popcnt ssse3 avx2 bmi1 bmi2 fma f16c movbe abm"}


def executable(config):
    try:
        with open("/proc/cpuinfo") as f:
            flags = next((l for l in f if l.startswith("flags")), "").split()
    except OSError:
        flags = []
    return all(n in flags for n in NEEDS.get(config, "").split())


class Build(Program):
    def __init__(self, config):
        self.config = config
        self.toolchain, self.extra, self.profile, self.arguments, self.runs = CONFIGS[config]
        self.env, self.error, self.flags = None, "", FLAGS

    def native(self):
        return True

    def build(self):
        for f in FLAGS:
            e = dict(os.environ)
            e.update(
                RUSTUP_TOOLCHAIN=self.toolchain,
                CARGO_NET_OFFLINE="true",
                CARGO_TERM_COLOR="never",
                CARGO_INCREMENTAL="0",
                CARGO_BUILD_JOBS="2",
                RUSTC_WRAPPER="",
                CARGO_TARGET_DIR=os.path.join(TARGET, "builds", self.config),
                DCP_VERIF_NEON=os.path.join(ROOT, "harness", "neon.rs"),
                RUSTFLAGS=f"{f} {self.extra.format(seed=SEED)} {CHECK}",
                MIRIFLAGS="",
                CARGO_PROFILE_DEV_DEBUG="0",
            )
            e.update({"CARGO_PROFILE_DEV_" + k: v.strip('"') for k, v in self.profile.items()})
            e.update(self.runs)
            c = ["cargo", "build", "--offline", "--quiet", "--target", "x86_64-unknown-linux-gnu"] + self.arguments
            r = subprocess.run(c, cwd=os.path.join(ROOT, "portable"), env=e, text=True,
                               stdin=subprocess.DEVNULL, capture_output=True)
            if r.returncode == 0:
                self.env = e
                if f != FLAGS[0]:
                    print(f"builds.py: {self.config} built with '{f}' only", file=sys.stderr)
                return
            self.error = r.stderr[-2000:]
        print(f"builds.py: {self.config} does not build:\n{self.error}", file=sys.stderr)

    def command(self, args):
        return [os.path.join(TARGET, "builds", self.config, "x86_64-unknown-linux-gnu", "debug", "portable")] + args

    def about(self):
        lines, _, stop = self.run(["sets"], time.time() + 60)
        return lines, stop

    def run(self, args, deadline, extra=""):
        lines, at, stop = super().run(args, deadline)
        # Whatever ends a process is a failure, unless it is ended from outside
        if isinstance(stop, tuple) and stop[1] != "signal -9" and stop[1] != "signal 9":
            stop = ("bad", stop[1])
        return lines, at, stop


def compare(one, other, args, deadline):
    """The number and a description of the first case that differs, or None"""
    a, at, stop = one.run(args, deadline)
    b, bat, bstop = other.run(args, deadline)
    if "late" in (stop, bstop):
        n = min(len(a), len(b))
        a, b, stop, bstop = a[:n], b[:n], None, None
    for x, y in zip(a, b):
        for l in (x, y):
            if l[0] == "!":
                return int(l.split(" ")[1]), l, a
        if x != y:
            return int(x.split(" ")[1]), f"{y}\n {one.config}: {x}", a
    for s, k, p in ((stop, at, one), (bstop, bat, other)):
        if isinstance(s, tuple) and s[0] == "bad":
            return k or 0, f"{p.config}: {s[1]}", a
    return None, None, a


def shrink(one, other, iset, case, deadline):
    best, what = case, None
    again = True
    while again and time.time() < deadline:
        again = False
        for k in range(len(best)):
            for v in (0, best[k] & 0xFF, best[k] & 0xFFFF, best[k] >> 16 << 16, best[k] // 2):
                if v < best[k] and time.time() < deadline:
                    c = best[:k] + [v] + best[k + 1 :]
                    at, w, _ = compare(one, other, ["case", str(iset)] + [str(x) for x in c], time.time() + 20)
                    if at is not None:
                        best, what, again = c, w, True
    return best, what


def builds(names):
    bs = {n: Build(n) for n in names}
    # A few at a time
    gate = threading.Semaphore(JOBS)

    def go(b):
        with gate:
            b.build()

    ts = [threading.Thread(target=go, args=(b,)) for b in bs.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return bs


def report(what, replay):
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    path = os.path.join(OUT, "evidence", "C32.replay")
    with open(path, "w") as f:
        json.dump(replay | {"what": what}, f, indent=1)
    print(what)
    print(f"VIOLATION property=C32 replay={path}")


def replay(path):
    r = json.load(open(path))
    bs = builds(["reference", r["config"]])
    args = ["sets"] if r["kind"] == "about" else ["case", str(r["set"])] + [str(v) for v in r["case"]]
    at, what, _ = compare(bs["reference"], bs[r["config"]], args, time.time() + 120)
    print(what if at is not None else "held")
    return 1 if at is not None else 0


def main(tier):
    bs = builds([c for c in CONFIGS if executable(c)])
    ref = bs["reference"]
    if ref.env is None:
        print("builds.py: no reference")
        return 2
    seconds = float(os.environ.get("DCPV_SECONDS", "0")) or (60 if tier == "quick" else 1500)
    deadline = time.time() + seconds
    check = Check(tier)
    others = [b for n, b in bs.items() if n != "reference" and b.env is not None]
    sets = {b.config: b.sets() for b in others + [ref]}
    for b in others:
        at, what, a = compare(ref, b, ["sets"], time.time() + 60)
        if at is not None:
            check.fail(kind="about", config=b.config, what=what)
        for l in a:
            check.note(f"{b.config} description", l)
    # The same cases everywhere: sets in turn
    common = sets["reference"]
    jobs = [(b, s) for s in common for b in others if s in sets[b.config]]
    if not jobs:
        print("builds.py: nothing to compare")
        return 2
    lock, turn = threading.Lock(), [0]
    size = 3000

    def work():
        while time.time() < deadline and check.failure is None:
            with lock:
                n = turn[0]
                turn[0] += 1
            b, iset = jobs[n % len(jobs)]
            first = n // len(jobs) * size
            base = SEED * 1000003 + iset
            at, what, a = compare(ref, b, ["run", str(iset), str(base), str(first), str(first + size)], deadline)
            if at is not None:
                check.fail(kind="case", config=b.config, set=iset, case=choices(base, at), what=what)
                return
            for l in a:
                check.note(f"{b.config} set {iset}", l)

    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    status = 0
    f = check.failure
    if f:
        what = f.pop("what")
        if f["kind"] == "case":
            f["case"], w = shrink(ref, bs[f["config"]], f["set"], f["case"], time.time() + 60)
            what = w or what
        report(f"{f['config']}: {what}", f)
        status = 1
    total = sum(check.count.values())
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", "C32.json"), "w") as g:
        json.dump({
            "property": "C32", "tier": tier, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": total,
                "distinct_nontrivial": len(check.seen),
                "rule": "random conversions and size queries (any format, layout, buffer length, both interfaces), executed by a reference build and another one; non-trivial: the arguments pass the checks of formats and parity and the picture is not empty",
                "executed": check.count, "outcomes": check.outcomes,
                "not_built": [n for n in CONFIGS if n not in bs or bs[n].env is None],
                "samples": check.samples,
            },
            "wall_s": round(time.time() - START, 1),
        }, g, indent=1)
    print(f"C32 {tier}: {total} cases ({len(check.seen)} non-trivial), {len(others)} builds: "
          + ("VIOLATION" if status else "held") + f" in {time.time() - START:.0f} s")
    return status


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
