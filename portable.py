#!/usr/bin/env python3
"""portable.py quick|thorough         decides C30
portable.py replay FILE            executes a recorded failure again

Builds portable/ (generated cases with their own oracle) natively and for Miri, the
interpreter of Rust programs, which reports undefined behaviour and data races: for this
processor with the vector code of each instruction set, for a 32-bit one, for an Arm one
with its own vector code, and for a big-endian one that has none; and for WebAssembly,
which node executes. The native run of the same cases is the reference for the pixels. Exit 0: held; 1: violation; 2: no answer."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.environ.get("DCPV_TARGET", "/verif/target")
OUT = os.environ.get("DCPV_ROOT", ROOT)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(2, min(8, os.cpu_count() or 8))
CHECK = "--check-cfg=cfg(dcp_verif,dcp_verif_neon,portable_c)"
HOOK, NEON = "--cfg dcp_verif", "--cfg dcp_verif_neon"
START = time.time()

# name, target, compiler flags (the first that compile are used), instruction sets
CONFIGS = {
    "native": ("x86_64-unknown-linux-gnu", [f"{HOOK} {NEON}", HOOK, ""]),
    "x86_64": ("x86_64-unknown-linux-gnu", [f"{HOOK} {NEON} -Ctarget-feature=+avx2", f"{HOOK} -Ctarget-feature=+avx2",
                                           "-Ctarget-feature=+avx2"]),
    "i686": ("i686-unknown-linux-gnu", [f"{HOOK} -Ctarget-feature=+avx2", "-Ctarget-feature=+avx2"]),
    "aarch64": ("aarch64-unknown-linux-gnu", [""]),
    "s390x": ("s390x-unknown-linux-gnu", [""]),
    "wasm32": ("wasm32-unknown-unknown", [""]),
    # The C interface too: its slices of unknown size are not valid for Miri
    "s390x-c": ("s390x-unknown-linux-gnu", ["--cfg portable_c"]),
    # With a model of the aliasing of references and pointers too, in the thorough tier: the
    # language has not settled its rules
    "x86_64-tree": ("x86_64-unknown-linux-gnu", [f"{HOOK} {NEON}", HOOK, ""]),
    # The C interface with values validated: see UNBOUNDED
    "x86_64-strict": ("x86_64-unknown-linux-gnu", [f"{HOOK} --cfg portable_c", "--cfg portable_c"]),
    "powerpc": ("powerpc-unknown-linux-gnu", [""]),
}


def environment(config, flags):
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN="nightly",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=os.path.join(TARGET, "portable", config),
        XDG_CACHE_HOME=os.path.join(TARGET, "portable", "cache"),
        DCP_VERIF_NEON=os.path.join(ROOT, "harness", "neon.rs"),
        RUSTFLAGS=f"{flags} {CHECK}",
        MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks",
    )
    if config.endswith("-tree"):
        e["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-ignore-leaks"
    if config.endswith("-c"):
        e["MIRIFLAGS"] += " -Zmiri-disable-validation"
    if config == "aarch64" and (src := library()):
        e.update(
            MIRI_LIB_SRC=src,
            XDG_CACHE_HOME=os.path.join(TARGET, "portable", "cache-patched"),
            CARGO_TARGET_DIR=os.path.join(TARGET, "portable", config + "-patched"),
        )
    return e


def library():
    """A copy of the standard library in which the two instructions of the Arm code that
    Miri does not know are written in Rust. None if it cannot be made: some cases are skipped then"""
    try:
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], text=True, capture_output=True).stdout.strip()
        src = os.path.join(sysroot, "lib/rustlib/src/rust/library")
        dst = os.path.join(TARGET, "portable", "library")
        if not os.path.exists(dst + "/patched"):
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(src, dst)
            f = os.path.join(dst, "stdarch/crates/core_arch/src/arm_shared/neon/generated.rs")
            text = open(f).read()
            done = 0
            for fn, body in {
                "_vrshrn_n_s32(a: int32x4_t, n: i32) -> int16x4_t": """
                    let a: [i32; 4] = transmute(a);
                    transmute(a.map(|x| ((x as i64 + (1i64 << (n - 1))) >> n) as i16))""",
                "_vqmovn_u16(a: uint16x8_t) -> uint8x8_t": """
                    let a: [u16; 8] = transmute(a);
                    transmute(a.map(|x| if x > 255 { 255u8 } else { x as u8 }))""",
            }.items():
                declaration = r'unsafe extern "[^"]*" \{[^{}]*fn ' + re.escape(fn) + r";\s*\}"
                text, n = re.subn(declaration, lambda _: f"unsafe fn {fn} {{{body}\n}}", text)
                done += n
            if done != 2:
                return None
            open(f, "w").write(text)
            open(dst + "/patched", "w").close()
        return dst
    except (OSError, shutil.Error):
        return None


# What the library needs for WebAssembly besides the crates of the standard library
CRATES = ["bumpalo", "cfg-if", "paste", "proc-macro2", "quote", "rustversion", "syn", "unicode-ident",
          "wasm-bindgen", "wasm-bindgen-macro", "wasm-bindgen-macro-support", "wasm-bindgen-shared"]


def vendor():
    """A directory with the sources of everything a program for WebAssembly is built from, the
    standard library included, which is not installed for it"""
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], text=True, capture_output=True).stdout.strip()
    dst = os.path.join(TARGET, "portable", "vendor")
    if os.path.exists(dst + "/done"):
        return dst
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor"), dst)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo")) + "/registry"
    for name in CRATES:
        for src in glob.glob(f"{home}/src/*/{name}-[0-9]*"):
            base = os.path.basename(src)
            crate = glob.glob(f"{home}/cache/*/{base}.crate")
            if not crate or os.path.exists(f"{dst}/{base}"):
                continue
            shutil.copytree(src, f"{dst}/{base}")
            with open(crate[0], "rb") as f:
                package = hashlib.sha256(f.read()).hexdigest()
            with open(f"{dst}/{base}/.cargo-checksum.json", "w") as f:
                json.dump({"files": {}, "package": package}, f)
    open(dst + "/done", "w").close()
    return dst


class Program:
    """A build of portable/"""

    def __init__(self, config):
        self.config, (self.target, self.flags) = config, CONFIGS[config]
        self.env, self.error = None, ""

    def native(self):
        return self.config == "native"

    def wasm(self):
        return self.config == "wasm32"

    def build(self):
        crate = os.path.join(ROOT, "portable", "wasm" if self.wasm() else "")
        for f in self.flags:
            e = environment(self.config, f)
            if self.native():
                c = ["cargo", "build", "--offline", "--quiet"]
            elif self.wasm():
                try:
                    v = vendor()
                except (OSError, shutil.Error) as x:
                    self.error = str(x)
                    continue
                c = ["cargo", "build", "--offline", "--quiet", "--target", self.target,
                     "-Zbuild-std=std,panic_abort", "--config", 'source.crates-io.replace-with="dcpv"',
                     "--config", f'source.dcpv.directory="{v}"']
            else:
                # `sets` is a run that does nothing: the program and Miri's libraries are built
                c = self.command(["sets"])
            r = subprocess.run(c, cwd=crate, env=e, text=True, stdin=subprocess.DEVNULL, capture_output=True)
            if r.returncode == 0:
                self.env = e
                if f != self.flags[0]:
                    print(f"portable.py: {self.config} built with '{f}' only", file=sys.stderr)
                return
            self.error = r.stderr[-2000:]
        print(f"portable.py: {self.config} does not build:\n{self.error}", file=sys.stderr)

    def command(self, args):
        if self.native():
            return [os.path.join(TARGET, "portable", "native", "debug", "portable")] + args
        if self.wasm():
            built = os.path.join(TARGET, "portable", "wasm32", self.target, "debug", "portable_wasm.wasm")
            return ["node", os.path.join(ROOT, "portable", "wasm", "run.js"), built] + args
        return ["cargo", "miri", "run", "--offline", "--quiet", "--target", self.target, "--"] + args

    def sets(self):
        r = subprocess.run(self.command(["sets"]), cwd=os.path.join(ROOT, "portable"), env=self.env,
                           text=True, stdin=subprocess.DEVNULL, capture_output=True)
        m = re.search(r"sets \[(.*)\]", r.stdout)
        return [int(s) for s in m.group(1).split(",")] if m and m.group(1) else []

    def run(self, args, deadline, extra=""):
        """(lines of the program, number of the case it was at, what stopped it or None)"""
        e = dict(self.env)
        e["MIRIFLAGS"] += extra
        p = subprocess.Popen(self.command(args), cwd=os.path.join(ROOT, "portable"), env=e, text=True,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True)
        late = [False]

        def stop():
            late[0] = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

        t = threading.Timer(max(0.1, deadline - time.time()), stop)
        t.start()
        out, err = p.communicate()
        t.cancel()
        # The last line may be incomplete
        lines, at = [], None
        for l in out[: out.rfind("\n") + 1].split("\n"):
            if l.startswith("> "):
                at = int(l[2:])
            elif l[:2] in ("= ", "! "):
                lines.append(l)
        if late[0]:
            return lines, at, "late"
        return lines, at, None if p.returncode == 0 else verdict(err, p.returncode)


def verdict(err, code):
    """What made the program stop: ("skip", why) or ("bad", what)"""
    for w in ("Undefined Behavior", "Data race", "deadlock"):
        m = re.search(rf"error: (.*{w}.*)", err)
        if m:
            place = re.search(r"--> (\S+)", err[m.end():])
            return "bad", m.group(1) + (f" at {place.group(1)}" if place else "")
    m = re.search(r"error: (unsupported operation|resource exhaustion|.*not supported|post-monomorphization)(.*)", err)
    if m:
        return "skip", m.group(1) + m.group(2)
    m = re.search(r"thread .* panicked at (\S+?):?\n(.*)", err)
    if m:
        return "bad", f"panic: {m.group(2)} at {m.group(1)}"
    if code < 0:
        # Ended from outside, by lack of memory for example: no verdict
        return "skip", f"signal {-code}"
    return "skip", err.strip().split("\n")[-1][:300] if err.strip() else f"exit status {code}"


# --- the same cases as in portable/src/lib.rs -------------------------------------------
M64 = 2**64 - 1


def choices(seed, i):
    s = ((seed * 0x9E3779B9 & M64) + (i * 0x123456789ABCDEF1 & M64)) & M64
    out = []
    for _ in range(17):
        s = (s + 0x9E3779B97F4A7C15) & M64
        z = s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        out.append((z ^ (z >> 31)) >> 8)
    return out[1:]


def parse(line):
    """index, outcome, digest, description"""
    w = line.split(" ", 4)
    return w[1], w[2], w[3], w[4] if len(w) > 4 else ""


def differ(a, b):
    """Do two lines for one case contradict each other?"""
    if a.split(" ", 2)[2] == b.split(" ", 2)[2]:
        return False
    x, y = parse(a), parse(b)
    # A number may not be representable on one of them: other arguments, hence, or another outcome
    return x[1] == y[1] == "ok" and x[3] == y[3]


class Failure(Exception):
    pass


class Check:
    def __init__(self, tier):
        self.tier = tier
        self.lock = threading.Lock()
        self.failure = None
        self.count, self.outcomes, self.skips, self.samples = {}, {}, {}, []
        self.compared = 0
        self.seen = set()

    def fail(self, **k):
        with self.lock:
            if self.failure is None:
                self.failure = k

    def skip(self, where, why):
        with self.lock:
            k = f"{where}: {why}"
            self.skips[k] = self.skips.get(k, 0) + 1

    def note(self, where, line):
        with self.lock:
            self.count[where] = self.count.get(where, 0) + 1
            x = line.split(" ", 2)[2]
            o = " ".join(x.split(" ")[:2]) if x.startswith("sizes") else x.split(" ")[0]
            k = f"{where} {o}"
            self.outcomes[k] = self.outcomes.get(k, 0) + 1
            if not x.startswith(("value", "operation")) and "0x0" not in x:
                self.seen.add(hash((where, x)))
            if o == "ok" and self.outcomes[k] <= 2:
                self.samples.append(f"{where}: {x}"[:400])


def one(prog, native, nset, sset, case, deadline):
    """Executes a single case: what is wrong, or None"""
    args = ["case", str(sset)] + [str(v) for v in case]
    lines, _, stop = prog.run(args, deadline)
    if isinstance(stop, tuple) and stop[0] == "bad":
        return stop[1]
    if not lines:
        return None
    if lines[0][0] == "!":
        return lines[0][2:]
    ref, _, _ = native.run(["case", str(nset)] + args[2:], deadline)
    if ref and ref[0][0] == "=" and differ(lines[0], ref[0]):
        return f"{lines[0]}\n natively: {ref[0]}"
    return None


def shrink(prog, native, nset, sset, case, deadline):
    """Smaller choices that still fail"""
    best, what = case, None
    again = True
    while again and time.time() < deadline:
        again = False
        tries = []
        for k in range(len(best)):
            for v in (0, best[k] & 0xFF, best[k] & 0xFFFF, best[k] >> 16 << 16, best[k] // 2):
                if v < best[k]:
                    tries.append(best[:k] + [v] + best[k + 1 :])
        for j in range(0, len(tries), JOBS):
            if time.time() > deadline:
                break
            group = tries[j : j + JOBS]
            res = [None] * len(group)

            def go(n):
                res[n] = one(prog, native, nset, sset, group[n], time.time() + 60)

            ts = [threading.Thread(target=go, args=(n,)) for n in range(len(group))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            hit = [(g, r) for g, r in zip(group, res) if r]
            if hit:
                best, what = hit[0]
                again = True
                break
    return best, what


def report(what, replay):
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    path = os.path.join(OUT, "evidence", "C30.replay")
    with open(path, "w") as f:
        json.dump(replay | {"what": what}, f, indent=1)
    print(what)
    print(f"VIOLATION property=C30 replay={path}")


# A conversion through the C interface makes slices of the caller's buffers, whose sizes it is
# not given: as large as there can be. Where it gives such a slice its size is the first
# undefined behaviour of a call, recorded in known-findings.txt
UNBOUNDED = "unbounded-c-slices"


def strict(prog, deadline):
    """What Miri says about conversions through the C interface, None if nothing"""
    lines, _, stop = prog.run(["run", str((prog.sets() or [0])[0]), str(SEED), "0", "40"], deadline)
    return stop[1] if isinstance(stop, tuple) and stop[0] == "bad" else None


def known(what):
    """The recorded finding that this is, if any"""
    if not re.search(r"value of type &(mut )?\[u8\]: encountered a dangling reference \(going beyond the bounds", what):
        return None
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for l in f:
            m = re.match(rf"known: property=C30 sig={UNBOUNDED} (.*)", l)
            if m:
                return m.group(1)
    return None


def programs(names):
    ps = {n: Program(n) for n in names}
    ts = [threading.Thread(target=p.build) for p in ps.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return ps


def replay(path):
    r = json.load(open(path))
    ps = programs({"native", r["config"]})
    prog, native = ps[r["config"]], ps["native"]
    far = time.time() + 600
    if r["kind"] == "strict":
        bad = strict(prog, far)
        bad = bad if bad and not known(bad) else None
    elif r["kind"] != "case":
        args = ["race", str(r["seed"])] if r["kind"] == "race" else [r["kind"], "0", str(r["seed"]), str(r["case"]), str(r["case"] + 1)]
        lines, _, stop = prog.run(args, far, f" -Zmiri-seed={r.get('miri', 0)}")
        bad = stop[1] if isinstance(stop, tuple) and stop[0] == "bad" else None
        bad = bad or next((l for l in lines if l[0] == "!"), None)
    else:
        bad = one(prog, native, r["nset"], r["set"], r["case"], far)
    print(bad or "held")
    return 1 if bad else 0


def main(tier):
    names = ["native", "x86_64", "i686", "aarch64", "s390x", "wasm32", "s390x-c", "x86_64-strict"] + (["powerpc", "x86_64-tree"] if tier == "thorough" else [])
    ps = programs(names)
    native = ps["native"]
    if native.env is None:
        print("portable.py: no reference")
        return 2
    built = time.time()
    seconds = float(os.environ.get("DCPV_SECONDS", "0")) or (110 if tier == "quick" else 3000)
    deadline = built + seconds
    nsets = native.sets()
    check = Check(tier)
    # The kinds of work, in turn
    kinds = []
    for n in names[1:]:
        if ps[n].env is not None:
            if n != "x86_64-strict":
                kinds += [("cases", n, s) for s in ps[n].sets()] * (1 if ps[n].flags[0] else 2)
            kinds += [("race", n, 0)] * {"x86_64": 4, "s390x": 2, "i686": 1, "aarch64": 1, "powerpc": 1}.get(n, 0)
            # All the memory of a 32-bit processor
            kinds += [("unbounded", n, 0)] * (n == "i686")
    if not kinds:
        print("portable.py: Miri does not work here")
        return 2
    lock, turn, upto = threading.Lock(), [0], {}
    # Miri takes a hundred times as long
    unit = lambda kind, name: 6 if kind == "race" else 40 if kind == "unbounded" else 20000 if name == "wasm32" else 150

    def work():
        while time.time() < deadline and check.failure is None:
            with lock:
                k = kinds[turn[0] % len(kinds)]
                turn[0] += 1
                first = upto.get(k, 0)
                upto[k] = first + unit(k[0], k[1])
            kind, name, iset = k
            prog, where = ps[name], f"{name} {'set ' + str(iset) if kind == 'cases' else kind}"
            if kind == "unbounded":
                lines, at, stop = prog.run([kind, "0", str(SEED), str(first), str(upto[k])], deadline)
                bad = next((l for l in lines if l[0] == "!"), None)
                if bad or stop and stop[0] == "bad" and at is not None:
                    at = int(bad.split(" ")[1]) if bad else at
                    check.fail(kind=kind, config=name, seed=SEED, case=at, what=bad or stop[1])
                    return
                if stop and stop != "late":
                    check.skip(where, stop[1])
                for l in lines:
                    check.note(where, l)
                continue
            if kind == "race":
                for i in range(first, upto[k]):
                    if time.time() > deadline or check.failure:
                        break
                    seed = SEED * 1000003 + i
                    lines, _, stop = prog.run(["race", str(seed)], deadline, f" -Zmiri-seed={seed & 0xFFFFFF}")
                    if stop == "late":
                        break
                    bad = stop[1] if stop and stop[0] == "bad" else next((l for l in lines if l[0] == "!"), None)
                    if bad:
                        check.fail(kind="race", config=name, seed=seed, miri=seed & 0xFFFFFF, what=bad)
                        return
                    if stop:
                        check.skip(where, stop[1])
                    for l in lines:
                        check.note(where, l)
                continue
            # Different cases for each set
            base = SEED * 1000003 + iset + 17 * names.index(name)
            # On Arm, what the model of its instructions computes
            nset = 4 if name == "aarch64" else iset
            nset = nset if nset in nsets else nsets[0] if nsets else 0
            i, end = first, first + unit(kind, name)
            while i < end and time.time() < deadline and check.failure is None:
                lines, at, stop = prog.run(["run", str(iset), str(base), str(i), str(end)], deadline)
                ref, rat, rstop = native.run(["run", str(nset), str(base), str(i), str(i + len(lines) or end)], time.time() + 60)
                if isinstance(rstop, tuple):
                    # Natively, without Miri: other checks are about that, but it is no reference
                    check.skip("native", rstop[1])
                by = {l.split(" ")[1]: l for l in ref}
                for l in lines:
                    n = l.split(" ")[1]
                    r = by.get(n)
                    bad = l[2:] if l[0] == "!" else None
                    if r and bad is None and r[0] == "=":
                        check.compared += 1
                        if differ(l, r):
                            bad = f"{l}\n natively: {r}"
                    if bad:
                        check.fail(kind="case", config=name, set=iset, nset=nset, case=choices(base, int(n)), what=bad)
                        return
                    check.note(where, l)
                if stop == "late":
                    break
                if stop is None:
                    break
                if stop[0] == "bad" and at is not None:
                    check.fail(kind="case", config=name, set=iset, nset=nset, case=choices(base, at), what=stop[1])
                    return
                check.skip(where, stop[1])
                i = (at if at is not None else end) + 1

    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    if check.failure is None and ps["x86_64-strict"].env is not None:
        bad = strict(ps["x86_64-strict"], time.time() + 120)
        if bad and known(bad):
            print(f"KNOWN-FINDING: property=C30 {known(bad)}")
        elif bad:
            check.fail(kind="strict", config="x86_64-strict", what=bad)

    status = 0
    f = check.failure
    if f:
        what = f"{f['config']}: {f['what']}"
        if f["kind"] == "case":
            case, w = shrink(ps[f["config"]], native, f["nset"], f["set"], f["case"],
                             time.time() + (60 if tier == "quick" else 600))
            f["case"], f["shrunk"] = case, w is not None
            what = f"{f['config']}: {w or f['what']}"
        f.pop("what")
        report(what, f)
        status = 1
    total = sum(check.count.values())
    if total == 0 and status == 0:
        print(f"portable.py: nothing could be executed: {check.skips}")
        return 2
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", "C30.json"), "w") as g:
        json.dump({
            "property": "C30", "tier": tier, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": total,
                "distinct_nontrivial": len(check.seen),
                "compared_with_native": check.compared,
                "rule": "random conversions and size queries (any format, layout, buffer length), and threads that make the first use of the library together, executed by Miri, or by node for WebAssembly; non-trivial: the arguments pass the checks of formats and parity and the picture is not empty",
                "executed": check.count, "outcomes": check.outcomes, "skipped": check.skips,
                "samples": check.samples,
            },
            "wall_s": round(time.time() - START, 1),
        }, g, indent=1)
    print(f"C30 {tier}: {total} cases ({len(check.seen)} non-trivial), {check.compared} compared, skipped {sum(check.skips.values())}: "
          + ("VIOLATION" if status else "held") + f" in {time.time() - START:.0f} s")
    return status


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
