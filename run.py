#!/usr/bin/env python3
"""Runs the monitors.

  run.py setup                     build everything the checks use
  run.py check <id> [--tier T]     run the check of one property
  run.py replay <file>             run one recorded violation again, verbosely

Exit 0: nothing found; 1: VIOLATION line printed; 2: the check itself failed.
"""
import hashlib, json, os, re, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
NARROW = "i686-unknown-linux-gnu"
CORES = max(2, min(8, os.cpu_count() or 8))

# ------------------------------------------------------------------- builds

NOSTD = ["--no-default-features"]
ALLOC = ["--no-default-features", "--features", "alloc"]
MON = "--cfg thingbuf_monitor -Awarnings"
# variant: (crate, toolchain, extra cargo arguments, RUSTFLAGS, sub-directory of the binary)
# The profile `dbg` has debug assertions and overflow checks, `release` has not: users run both.
VARIANTS = {
    "a-std": ("harness", None, [], MON, "dbg"),
    "a-rel": ("harness", None, [], MON, "release"),
    "a-alloc": ("harness", None, ALLOC, MON, "release"),
    "a-none": ("harness", None, NOSTD, MON, "dbg"),
    "f-std": ("free", None, [], "-Awarnings", "dbg"),
    "f-rel": ("free", None, [], "-Awarnings", "release"),
    # not optimised: the optimiser may remove allocations
    "a-plain": ("harness", None, [], MON, "plain"),
    "f-plain": ("free", None, [], "-Awarnings", "plain"),
    "f-alloc": ("free", None, ALLOC, "-Awarnings", "dbg"),
    "f-none": ("free", None, NOSTD, "-Awarnings", "release"),
    "t-std": ("traits", None, [], "-Awarnings", "dbg"),
    "t-alloc": ("traits", None, ALLOC, "-Awarnings", "dbg"),
    "t-none": ("traits", None, NOSTD, "-Awarnings", "dbg"),
    "f-tsan": ("free", "nightly", ["-Zbuild-std", "--target", TRIPLE], "-Awarnings -Zsanitizer=thread", TRIPLE + "/dbg"),
    "f-asan": ("free", "nightly", ["--target", TRIPLE], "-Awarnings -Zsanitizer=address", TRIPLE + "/release"),
    # with the hooks compiled in but no monitor installed: the hooks replace parking_lot, whose futex
    # calls Miri does not accept
    "m-std": ("free", "nightly", [], MON, None),
    "m-alloc": ("free", "nightly", ALLOC, "-Awarnings", None),
    "m-none": ("free", "nightly", NOSTD, "-Awarnings", None),
    "m-32": ("free", "nightly", ALLOC + ["--target", NARROW], "-Awarnings", None),
    # freestanding 32-bit programs: there is no 32-bit libc here
    "n-32": ("narrow", "nightly", ["-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem", "--target", NARROW],
             "-Awarnings -Clinker=rust-lld -Clinker-flavor=ld.lld -Crelocation-model=static -Cpanic=abort", NARROW + "/dbg"),
}


class Broken(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def env_for(variant):
    crate, tool, extra, flags, _ = VARIANTS[variant]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "MIRI")) and k not in ("CARGO_HOME",) or k in ("RUSTC_WRAPPER", "RUSTC"):
            del env[k]
    env["RUSTFLAGS"] = flags
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, variant)
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("HASHES", None)
    return env


def cargo(variant):
    tool = VARIANTS[variant][1]
    return ["cargo"] + (["+" + tool] if tool else [])


def build(variant, srchash):
    """Builds one variant from /repo's current tree; returns its binary."""
    crate, tool, extra, flags, sub = VARIANTS[variant]
    profile = os.path.basename(sub) if sub else None
    env = env_for(variant)
    cwd = os.path.join(HERE, crate)
    tdir = env["CARGO_TARGET_DIR"]
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "source-hash")
    try:
        with open(stamp) as f:
            same = f.read() == srchash
    except OSError:
        same = False
    if not same and len(os.listdir(tdir)) > 0:
        # never trust time stamps about what changed in /repo
        subprocess.run(cargo(variant) + ["clean", "--offline", "-p", "thingbuf"] +
                       (["--target", extra[extra.index("--target") + 1]] if "--target" in extra else []) +
                       (["--profile", profile] if sub else []),
                       cwd=cwd, env=env, capture_output=True)
        if sub is None:
            subprocess.run(["rm", "-rf", os.path.join(tdir, "miri")], check=False)
    if sub is None:
        args = cargo(variant) + ["miri", "run", "--offline", "-q"] + extra + ["--", "--what", "zero", "--count", "1"]
        env["MIRIFLAGS"] = MIRIFLAGS
    else:
        args = cargo(variant) + ["build", "--offline", "--profile", profile] + extra
    for attempt in (1, 2, 3):
        if attempt == 3:
            if flags != MON:
                continue
            # the hooks' destructors do not fit this tree: do without them
            VARIANTS[variant] = (crate, tool, extra, MON + " --cfg thingbuf_monitor_nodrop", sub)
            env["RUSTFLAGS"] = VARIANTS[variant][3]
        p = subprocess.run(args, cwd=cwd, env=env, capture_output=True, text=True, errors="replace")
        if p.returncode == 0:
            break
        if sub is None and "SUMMARY" in p.stdout:
            break  # it builds; what it found is for the check to find
        if sub is None and re.search(r"Undefined Behavior|FOUND ", p.stderr + p.stdout):
            break
    else:
        raise Broken(f"building {variant} failed:\n" + (p.stderr or p.stdout)[-3000:])
    if crate == "narrow":
        try:
            subprocess.run([os.path.join(tdir, sub, crate), "--count", "0"], capture_output=True, check=True, timeout=60)
        except (OSError, subprocess.SubprocessError) as e:
            raise Broken(f"{variant}: 32-bit programs do not run here: {e}")
    with open(stamp, "w") as f:
        f.write(srchash)
    return os.path.join(tdir, sub, crate) if sub else None


MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"

# --------------------------------------------------------------- properties

ALWAYS = {"panic", "crash"}
MEMORY = {"race", "elem-race", "aliased", "corrupt", "lifecycle", "leak", "sanitizer", "waker", "waker-leak"}
STUCK = {"deadlock", "livelock", "hang"}
CLOSING = {"rx-missed-close", "rx-closed-lie", "rx-not-closed", "lost-at-close", "is-closed", "tx-missed-close",
           "closed-lie", "not-closed"}
DELIVERY = {"dup", "phantom", "lost", "corrupt", "lost-at-close"}
WAKEUP = {"rx-lost-wakeup", "tx-lost-wakeup"}
REPORTS = {"overfull", "full-lie", "empty-lie", "len-lie"}
EVERYTHING = None

KINDS = {
    "C01": DELIVERY | {"closure", "aliased", "elem-race"},
    "C02": {"fifo"},
    "C03": {"overfull", "full-lie", "empty-lie", "len-lie", "aliased"},
    "C04": {"race", "elem-race", "aliased", "corrupt", "phantom", "sanitizer"},
    "C05": {"lifecycle", "leak", "sanitizer", "corrupt"},
    "C06": {"rx-lost-wakeup", "waker"} | STUCK,
    "C07": {"tx-lost-wakeup", "tx-missed-close", "waker"} | STUCK,
    "C08": {"rx-missed-close", "rx-closed-lie", "rx-not-closed", "lost-at-close", "is-closed", "lost", "rx-lost-wakeup"} | STUCK,
    "C09": {"tx-missed-close", "closed-lie", "not-closed"} | STUCK,
    "C10": MEMORY | STUCK | DELIVERY | WAKEUP | REPORTS | CLOSING | {"fifo", "payload"},
    "C11": {"timeout-early", "timeout-late", "timeout-missed", "rx-missed-close", "tx-missed-close", "not-closed",
            "rx-not-closed"} | STUCK | WAKEUP,
    "C12": {"solo-bound"} | STUCK,
    "C13": {"dirty", "policy", "churn", "closure"},
    "C14": {"alloc", "churn"},
    "C15": {"split", "race", "elem-race", "aliased", "lifecycle", "leak", "sanitizer"},
    "C16": MEMORY | STUCK | DELIVERY | WAKEUP | REPORTS | CLOSING | {"fifo", "payload"},
    "C17": {"payload", "error-report", "full-lie", "closed-lie", "not-closed", "empty-lie", "rx-closed-lie",
            "rx-not-closed", "timeout-early", "timeout-missed"},
    "C18": EVERYTHING,
    "C19": {"unsound", "too-strict"},
    "C20": MEMORY | {"zero", "overfull"},
}


def relevant(prop, kind):
    k = KINDS[prop]
    return k is None or kind in k or kind in ALWAYS


# A job: (engine, variant, what, quick (runs, seconds), thorough (runs, seconds), options)
def A(variant, quick=(5_000_000, 45), thorough=(60_000_000, 600), prop=None):
    return dict(engine="sched", variant=variant, what=prop, quick=quick, thorough=thorough)


def F(variant, what, quick=(400_000, 8), thorough=(40_000_000, 120)):
    return dict(engine="free", variant=variant, what=what, quick=quick, thorough=thorough)


def M(variant, what, quick=(4_000, 25), thorough=(1_000_000, 400), leaks=False):
    return dict(engine="miri", variant=variant, what=what, quick=quick, thorough=thorough, leaks=leaks)


def N(quick=(0, 0), thorough=(32, 240)):
    return dict(engine="narrow", variant="n-32", what="wrap", quick=quick, thorough=thorough)


def T(variant):
    return dict(engine="traits", variant=variant, what="traits", quick=(1, 0), thorough=(1, 0))


JOBS = {
    "C01": [A("a-std"), F("f-std", "threads,shapes,pool,refs,many"), N()],
    "C02": [A("a-std"), F("f-std", "threads,shapes,many"), N()],
    "C03": [A("a-std"), F("f-std", "shapes,big,threads,many"), N()],
    "C04": [A("a-std"), M("m-std", "threads,waiters,shapes"), F("f-tsan", "threads,waiters,faults", (20_000, 12))],
    "C05": [A("a-std"), F("f-std", "shapes,threads,faults,statics,policies,many"), M("m-std", "shapes,waiters,statics", leaks=True), N((8, 70))],
    "C06": [A("a-std"), F("f-std", "waiters,threads")],
    "C07": [A("a-std"), F("f-std", "waiters,threads,many")],
    "C08": [A("a-std"), F("f-std", "threads,waiters,faults,many")],
    "C09": [A("a-std"), F("f-std", "waiters,threads,many")],
    "C10": [A("a-std"), F("f-std", "waiters,many"), M("m-std", "waiters")],
    "C11": [A("a-std"), F("f-std", "clock", (2_000, 10))],
    "C12": [A("a-std"), F("f-std", "refs,shapes")],
    "C13": [A("a-std"), F("f-std", "policies,pool,shapes,many"), N((8, 70))],
    "C14": [A("a-std"), A("a-plain", (1_000_000, 12), (20_000_000, 240)), F("f-std", "pool,shapes,policies"),
            F("f-plain", "pool,shapes,policies", (400_000, 5))],
    "C15": [A("a-std"), F("f-std", "split,statics"), M("m-std", "split,statics", (4_000, 15))],
    "C16": [A("a-std"), F("f-std", "faults"), M("m-std", "faults")],
    "C17": [A("a-std", (3_000_000, 35)), F("f-std", "errors,clock,shapes", (40_000, 12))],
    "C18": [A("a-none", (3_000_000, 35)), A("a-alloc", (3_000_000, 35)), F("f-none", "threads,waiters,shapes,errors,refs,split,many"),
            F("f-alloc", "threads,waiters,shapes,policies,errors,many"), M("m-none", "threads,waiters,shapes"),
            M("m-32", "threads,waiters,shapes,pool,statics", (0, 0), (1_000_000, 200)), N()],
    "C19": [T("t-std"), T("t-alloc"), T("t-none")],
    "C20": [A("a-std", (3_000_000, 30)), M("m-std", "shapes,threads,waiters,faults,refs,errors,statics,pool", (4_000, 45)),
            F("f-asan", "shapes,threads,waiters,faults,refs,errors,statics,pool,policies,zero,big,split,many", (400_000, 15)),
            F("f-std", "zero", (200, 5))],
}

# the same on the build without debug assertions
for _jobs in JOBS.values():
    for _j in list(_jobs):
        if _j["variant"] in ("a-std", "f-std") and _j["what"] != "zero":
            _r = dict(_j, variant={"a-std": "a-rel", "f-std": "f-rel"}[_j["variant"]])
            for _t in ("quick", "thorough"):
                _n, _s = _j[_t]
                _part = 3 if _j["engine"] == "sched" else 2
                _j[_t], _r[_t] = (_n - _n // _part, _s - _s // _part), (_n // _part, max(3, _s // _part))
            _jobs.insert(_jobs.index(_j) + 1, _r)

# ------------------------------------------------------------------ running


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.totals = {}
        self.samples = []
        self.found = []      # relevant violations
        self.other = {}      # kinds that belong to other properties
        self.inconclusive = []
        self.hashes = []


def merge(into, obj):
    for k, v in obj.items():
        if isinstance(v, dict):
            merge(into.setdefault(k, {}), v)
        elif isinstance(v, int):
            into[k] = into.get(k, 0) + v


SAN = re.compile(r"(WARNING: ThreadSanitizer: .*|ERROR: AddressSanitizer: .*|ERROR: LeakSanitizer: .*)")
MIRI_BAD = re.compile(r"error: (?:Undefined Behavior: .*|.*[Dd]ata race detected.*|.*memory leaked.*|.*abnormal termination.*)")


def command(job, prop, seed, start, count, stride, seconds, trace=False):
    v = job["variant"]
    env = env_for(v)
    crate, tool, extra, _, sub = VARIANTS[v]
    if job["engine"] == "sched":
        args = [os.path.join(TARGET, v, sub, crate), "--prop", job["what"] or prop]
        if KINDS[prop] is not None:
            args += ["--hard", ",".join(sorted(KINDS[prop] | ALWAYS))]
    elif job["engine"] in ("traits", "narrow"):
        args = [os.path.join(TARGET, v, sub, crate)]
        if job["engine"] == "narrow" and KINDS[prop] is not None:
            args += ["--hard", ",".join(sorted(KINDS[prop] | ALWAYS))]
    elif job["engine"] == "free":
        args = [os.path.join(TARGET, v, sub, crate), "--what", job["what"]]
        env["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66 report_thread_leaks=0"
        env["ASAN_OPTIONS"] = "detect_leaks=0 exitcode=67 abort_on_error=0"
    else:
        flags = "-Zmiri-disable-isolation"
        if not job.get("leaks"):
            flags += " -Zmiri-ignore-leaks"
        if prop != "C20":  # the aliasing rules are judged there; the others gain speed
            flags += " -Zmiri-disable-stacked-borrows"
        flags += f" -Zmiri-seed={(seed * 1000 + start) % (1 << 31)} -Zmiri-preemption-rate={[0.01, 0.05, 0.2][start % 3]}"
        flags += f" -Zmiri-compare-exchange-weak-failure-rate={[0.8, 0.2][start % 2]}"
        env["MIRIFLAGS"] = flags
        args = cargo(v) + ["miri", "run", "--offline", "-q"] + extra + ["--", "--what", job["what"]]
    args += ["--seed", str(seed), "--start", str(start), "--count", str(count), "--stride", str(stride),
             "--seconds", str(int(seconds))]
    if trace:
        args += ["--trace"] if job["engine"] == "sched" else ["--verbose", "1"]
    return args, env, os.path.join(HERE, crate)


def run_process(args, env, cwd, timeout):
    p = subprocess.Popen(args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        late = False
    except subprocess.TimeoutExpired:
        late = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), late


def worker(job, prop, seed, w, nworkers, runs, seconds, stop, res):
    """Runs every nworkers-th case; restarts after findings that belong to other properties."""
    t_end = time.time() + seconds if seconds else None
    index, left, restarts, bad = w, max(1, runs // nworkers), 0, 0
    hashes = None
    if job["engine"] == "sched":
        hashes = os.path.join(TARGET, "hashes", f"{os.getpid()}-{prop}-{job['variant']}-{w}")
        with res.lock:
            res.hashes.append(hashes)
    while left > 0 and not stop.is_set():
        rest = (t_end - time.time()) if t_end else 60
        if rest <= 0.2:
            break
        chunk = min(left, 400_000)
        args, env, cwd = command(job, prop, seed, index, chunk, nworkers, max(1, rest))
        if hashes:
            env["HASHES"] = hashes
        rc, out, err, late = run_process(args, env, cwd, rest + 240)
        found = None
        done = 0
        for line in out.splitlines():
            try:
                if line.startswith("SUMMARY "):
                    s = json.loads(line[8:])
                    done = s.get("runs", 0)
                    with res.lock:
                        merge(res.totals.setdefault(job["engine"] + ":" + job["variant"], {}), s)
                elif line.startswith("SAMPLE "):
                    with res.lock:
                        if len(res.samples) < 12:
                            res.samples.append(dict(engine=job["engine"], variant=job["variant"], **json.loads(line[7:])))
                elif line.startswith("FOUND "):
                    found = json.loads(line[6:])
                elif line.startswith("INCONCLUSIVE "):
                    x = json.loads(line[13:])
                    if "stuck outside" in x["msg"]:
                        found = dict(kind="hang", msg=x["msg"], index=x["index"])
                    else:
                        found = dict(kind="inconclusive", msg=x["msg"], index=x["index"])
            except ValueError:
                pass
        if rc == 0:
            index += chunk * nworkers
            left -= chunk
            continue
        if found is None:
            m = SAN.search(err) or SAN.search(out)
            if m:
                found = dict(kind="sanitizer", msg=m.group(0))
            elif job["engine"] == "miri":
                m = MIRI_BAD.search(err)
                if m:
                    found = dict(kind="leak" if "memory leaked" in m.group(0) else "sanitizer", msg=m.group(0))
                elif "deadlocked" in err or "deadlock" in err:
                    found = dict(kind="deadlock", msg="the interpreted program deadlocked")
            elif rc is not None and rc < 0 and not late:
                sig = -rc
                if sig in (signal.SIGKILL, signal.SIGTERM):  # out of memory or stopped from outside
                    found = dict(kind="inconclusive", msg=f"ended by signal {sig}")
                else:
                    found = dict(kind="crash", msg=f"ended by signal {sig} ({signal.Signals(sig).name})")
            if found is None:
                found = dict(kind="inconclusive", msg=("timeout " if late else f"exit {rc} ") + err[-600:])
            found["index"] = None
        found.update(engine=job["engine"], variant=job["variant"], what=job["what"], seed=seed, stride=nworkers,
                     start=index, stderr=err[-6000:] if found["kind"] in ("sanitizer", "crash", "leak") else "")
        if found["kind"] == "inconclusive":
            with res.lock:
                res.inconclusive.append(found)
            bad += 1
        elif relevant(prop, found["kind"]):
            with res.lock:
                res.found.append(found)
            stop.set()
            return
        else:
            with res.lock:
                res.other[found["kind"]] = res.other.get(found["kind"], 0) + 1
            if found["kind"] == "hang":
                bad += 1
        restarts += 1
        if bad > 3 or restarts > 300:
            break
        at = found["index"] if found["index"] is not None else index + done * nworkers
        left -= (at - index) // nworkers + 1
        index = at + nworkers


def known_findings(prop):
    """(kind, text) pairs of findings that are recorded and not repaired."""
    out = []
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.md")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def check(prop, tier, seed):
    t0 = time.time()
    jobs = [j for j in JOBS[prop] if j[tier][0] > 0]
    srchash = source_hash()
    variants = sorted({j["variant"] for j in jobs})
    os.makedirs(os.path.join(TARGET, "hashes"), exist_ok=True)
    with ThreadPoolExecutor(len(variants)) as ex:
        futs = {v: ex.submit(build, v, srchash) for v in variants}
        broken = {}
        for v, f in futs.items():
            try:
                f.result()
            except Broken as e:
                broken[v] = str(e)
    for v, e in broken.items():
        print(f"could not build {v}: {e}", file=sys.stderr)
    jobs = [j for j in jobs if j["variant"] not in broken]
    if broken:
        print("inconclusive: not everything could be built", file=sys.stderr)
        if not jobs:
            return 2
    t_build = time.time() - t0
    res = Result()
    stop = threading.Event()
    for j in jobs:
        runs, seconds = j[tier]
        n = 1 if j["engine"] == "traits" else CORES
        s = seed + (7919 if j["variant"].endswith("-rel") else 0)  # other cases than on a-std
        with ThreadPoolExecutor(n) as ex:
            for f in [ex.submit(worker, j, prop, s, w, n, runs, seconds, stop, res) for w in range(n)]:
                f.result()
        if stop.is_set():
            break
    # distinct schedules
    distinct = 0
    a_bins = [os.path.join(TARGET, j["variant"], VARIANTS[j["variant"]][4], "harness") for j in jobs if j["engine"] == "sched"]
    files = [h for h in res.hashes if os.path.exists(h)]
    if a_bins and files:
        out = subprocess.run([a_bins[0], "--merge"] + files, capture_output=True, text=True).stdout
        m = re.search(r"DISTINCT (\d+)", out)
        distinct = int(m.group(1)) if m else 0
    for h in files:
        os.remove(h)

    known = known_findings(prop)
    new, old = [], []
    for f in res.found:
        k = next((t for kind, match, t in known if kind == f["kind"] and match in f["msg"]), None)
        (old if k else new).append((f, k))
    for _, k in old:
        print(f"KNOWN-FINDING: property={prop} {k}")

    free_runs = sum(t.get("runs", 0) for k, t in res.totals.items() if not k.startswith(("sched", "traits", "narrow")))
    wraps = sum(t.get("counter_wraps", 0) for k, t in res.totals.items() if k.startswith("narrow"))
    facts = sum(t.get("trait_facts", 0) for k, t in res.totals.items() if k.startswith("traits"))
    a_runs = sum(t.get("runs", 0) for k, t in res.totals.items() if k.startswith("sched"))
    evaluations = a_runs + free_runs + facts + wraps
    if evaluations == 0 and not new:
        print("inconclusive: nothing was observed", file=sys.stderr)
        for i in res.inconclusive[:3]:
            print(i, file=sys.stderr)
        return 2
    rule = []
    if a_runs:
        rule.append("sched: a case is one seeded random program (flavour, capacity, tasks, operations, cancellations, "
                    "timeouts, panics) under one seeded schedule with injected stale reads, weak-CAS failures, spurious "
                    "wakeups and clock jumps; non-trivial: more than 4 task switches and 3 operations (sequential programs: "
                    "at least one message received); distinct: a different sequence of (task, kind of event, object), "
                    "counted by exact merging of 64-bit hashes over all workers")
    if free_runs:
        rule.append("free/miri: a case is one seeded scenario on the unhooked library (not counted as distinct)")
    if any(j["engine"] == "narrow" for j in jobs):
        rule.append("narrow: a case is the life of one queue or channel across the wrap-around of its 32-bit counters (not counted as distinct)")
    if facts:
        rule.append("traits: a case is one (type, element, policy, Send or Sync) combination; all are distinct")
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct + facts, rule="; ".join(rule),
                      samples=res.samples[:12], observed=res.totals, not_built=sorted(broken),
                      findings_of_other_properties=res.other,
                      inconclusive=[dict(engine=i["engine"], variant=i["variant"], msg=i["msg"][:300]) for i in res.inconclusive[:10]],
                      build_s=round(t_build, 1)),
        assumptions=["held on the executions observed, not proved",
                     "the hooks in src/loom.rs and src/monitor.rs report every atomic, cell, lock, park and clock access"],
        wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if res.inconclusive:
        i = res.inconclusive[0]
        print(f"note: {len(res.inconclusive)} inconclusive case(s), e.g. {i['engine']} {i['variant']}: {i['msg'][-300:]}", file=sys.stderr)
    if new:
        f = new[0][0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}-{f['variant']}-{f['kind']}-{f['start'] if f['index'] is None else f['index']}.json")
        f["property"] = prop
        f["replay_cmd"] = f"python3 {HERE}/run.py replay {path}"
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        print(f"{f['kind']}: {f['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held on {evaluations} executions ({distinct + facts} distinct non-trivial), {evidence['wall_s']} s")
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    build(v["variant"], source_hash())
    job = dict(engine=v["engine"], variant=v["variant"], what=v["what"])
    if v["index"] is not None:
        a, env, cwd = command(job, v["property"], v["seed"], v["index"], 1, 1, 0, trace=True)
        if v["engine"] == "miri":
            env["MIRIFLAGS"] = command(job, v["property"], v["seed"], v["start"], 1, 1, 0)[1]["MIRIFLAGS"]
    else:
        a, env, cwd = command(job, v["property"], v["seed"], v["start"], 400_000, v["stride"], 60, trace=False)
    print(" ".join(a))
    for _ in range(1 if v["engine"] in ("sched", "narrow") else 200):
        rc = subprocess.run(a, env=env, cwd=cwd).returncode
        if rc != 0:
            return 1
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        h = source_hash()
        bad = 0
        with ThreadPoolExecutor(4) as ex:
            futs = {v: ex.submit(build, v, h) for v in VARIANTS}
            for v, f in futs.items():
                try:
                    f.result()
                    print("built", v)
                except Broken as e:
                    bad = 1
                    print(e)
        return bad
    if a[:1] == ["check"]:
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return check(a[1], tier, seed)
    if a[:1] == ["replay"]:
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print(e, file=sys.stderr)
        sys.exit(2)
