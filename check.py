#!/usr/bin/env python3
"""Seeded deterministic-simulation checks for YACLib.

  check.py --property C01 --tier quick|thorough     search, exit 0 / 1 (VIOLATION line) / 2 (error of the check)
  check.py --replay FILE [--trace]                  rebuild from /repo and replay a violation exactly
  check.py --property C01 --selftest                determinism probe only
Environment: VERIF_SEED (default 1), VERIF_TIER, REPO (default /repo), VERIF_JOBS, VERIF_BUDGET (seconds of search).
"""
import argparse, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, FAULTS  # noqa: E402

CXX = "g++"
INSTR = ["-O1", "-g", "-fsanitize=thread", "-U__SANITIZE_THREAD__", "--param", "tsan-instrument-func-entry-exit=0", "-fno-pie", "-Wno-tsan"]
T0 = time.time()


class CheckError(Exception):
    pass


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------------------------------------------- build
def build_dir():
    d = os.environ.get("VERIF_BUILD") or os.path.join(HERE, ".build")
    os.makedirs(d, exist_ok=True)
    return d


def cmake_lib(variant):
    """The library exactly as the repository builds it, from the current tree, plus instrumentation flags."""
    d = os.path.join(build_dir(), "lib-" + variant["name"])
    flags = " ".join(INSTR if variant.get("sim", True) else ["-O1", "-g", "-fno-pie"])
    args = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_COMPILER=" + CXX, "-DYACLIB_CXX_STANDARD=20",
            "-DYACLIB_FLAGS=" + ";".join(variant["flags"]), "-DCMAKE_CXX_FLAGS=" + flags] + (["-DYACLIB_FAULT=" + variant["fault"]] if variant.get("fault") else [])
    stamp = os.path.join(d, ".args")
    key = "\n".join(args)
    if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(os.path.join(d, "build.ninja"))):
        shutil.rmtree(d, ignore_errors=True)
        r = run(args)
        if r.returncode:
            raise CheckError("cmake failed:\n" + r.stdout[-3000:])
        open(stamp, "w").write(key)
    return d


def ninja_file(prop, binaries, libs):
    """One ninja file per property: runtime (not instrumented), workloads (instrumented), link."""
    bd = build_dir()
    out = ["builddir = %s" % bd, ""]
    out.append("rule cxx\n  command = %s $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out" % CXX)
    out.append("rule link\n  command = %s -no-pie -static-libstdc++ -static-libgcc $in $ldflags -lpthread -ldl -o $out\n  description = LINK $out" % CXX)
    objs = {}

    def obj(src, variant, instrumented):
        kind = variant["name"] if variant else "rt"
        o = os.path.join(bd, "obj-" + kind, os.path.splitext(os.path.relpath(src, HERE))[0].replace("/", "_") + ".o")
        if o in objs:
            return o
        fl = ["-std=c++20", "-I" + HERE]
        if variant:
            fl += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(libs[variant["name"]], "include"), "-fcoroutines"]
        if instrumented and variant.get("sim", True):
            fl += INSTR
        else:
            fl += ["-O1" if variant else "-O2", "-g", "-fno-pie"]
        fl += (variant or {}).get("cxxflags", [])
        objs[o] = 1
        out.append("build %s: cxx %s\n  flags = %s" % (o, src, " ".join(fl)))
        return o

    bins = []
    for b in binaries:
        v = b["variant"]
        rt = [obj(os.path.join(HERE, s), None, False) for s in b.get("runtime", ["simrt/simrt.cpp", "simrt/driver.cpp"])]
        kit = [obj(os.path.join(HERE, s), v, False) for s in b.get("plain", ["wl/kit.cpp"])]
        wl = [obj(os.path.join(HERE, s), v, True) for s in b.get("kit", ["wl/kit_exec.cpp"]) + b["sources"]]
        lib = os.path.join(libs[v["name"]], "src", "libyaclib.a")
        exe = os.path.join(bd, "bin", prop + "-" + v["name"])
        out.append("build %s: link %s\n  ldflags = %s" % (exe, " ".join(rt + kit + wl + [lib]), " ".join(b.get("ldflags", []))))
        bins.append(exe)
    path = os.path.join(bd, prop + ".ninja")
    open(path, "w").write("\n".join(out) + "\n")
    return path, bins


def build(prop):
    spec = PROPS[prop]
    binaries = spec["binaries"]
    libs = {}
    for b in binaries:
        v = b["variant"]
        if v["name"] not in libs:
            libs[v["name"]] = cmake_lib(v)
    # library and workloads compile at the same time: config.hpp exists after configuring
    procs = [(n, subprocess.Popen(["ninja", "-C", d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")) for n, d in libs.items()]
    path, bins = ninja_file(prop, binaries, libs)
    objs = [l.split()[1].rstrip(":") for l in open(path) if l.startswith("build ") and ": cxx " in l]
    r = run(["ninja", "-f", path, "-j", str(JOBS)] + objs)
    for n, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise CheckError("the library does not build (%s):\n%s" % (n, o[-4000:]))
    if r.returncode:
        raise CheckError("the workloads do not build:\n" + "\n".join(l for l in r.stdout.splitlines() if "error" in l or "FAILED" in l)[:6000])
    r = run(["ninja", "-f", path, "-j", str(JOBS)] + bins)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    return bins


# ---------------------------------------------------------------------------------------------------- pieces
def norandom(cmd):
    # fixed address layout: the simulator reserves fixed ranges
    return ["setarch", "x86_64", "-R"] + cmd if shutil.which("setarch") else cmd


def read_record(path):
    r = {}
    for l in open(path, errors="replace"):
        if l.startswith("#"):
            continue
        k, _, v = l.rstrip("\n").partition(" ")
        r[k] = v
    return r


CUR = struct.Struct("<9Q18Q64QI4x")


def read_cursor(path):
    d = open(path, "rb").read()
    if len(d) < CUR.size:
        return None
    v = CUR.unpack_from(d)
    names = ["idx", "runs", "steps", "switches", "sim_ns", "threads", "fair", "distinct", "nontrivial"]
    c = dict(zip(names, v[:9]))
    c["faults"] = list(v[9:27])
    c["per_wl"] = list(v[27:91])
    n = v[91]
    off = CUR.size
    pn = [d[off + i * 48: off + i * 48 + 48].split(b"\0")[0].decode(errors="replace") for i in range(n)]
    pc = struct.unpack_from("<%dQ" % n, d, off + 128 * 48) if n else ()
    c["probes"] = dict(zip(pn, pc))
    return c


def load_known():
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r"known: property=(\S+) workload=(\S+) class=(\S+) key=(\S+) (.*)", l)
                if not m:
                    raise CheckError("malformed line in known_findings.txt: " + l)
                known.append(dict(zip(["property", "workload", "class", "key", "what"], m.groups())))
    return known


def is_known(known, prop, rec):
    for k in known:
        if k["property"] == prop and k["class"] == rec["class"] and k["key"] == rec["key"] and (k["workload"] == "*" or rec["workload"] == k["workload"]):
            return k
    return None


def relevant(spec, rec):
    """Some properties count only some classes of violation of the workloads they share with others."""
    c = spec.get("counts")
    return not c or rec["class"] in c["classes"] or rec["key"] in c["keys"]


def determinism_probe(exe, patterns, seed, count, procs, noise=False):
    """Same seeds in several fresh processes, in both orders: the event-log hashes must agree.
    noise: the processes have different memory layouts, clocks and sources of randomness"""
    ps = []
    for i in range(procs):
        cmd = [exe, "hashes", "--wl", patterns, "--seed", str(seed), "--count", str(count)] + (["--reverse"] if i % 2 else [])
        env = dict(os.environ, SIM_NOISE=str(i), **({"SIM_ASLR": "1", "PAD" + str(i): "x" * (i * 777)} if i >= 2 else {})) if noise else None
        ps.append(subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"))
    outs = [(p.communicate()[0], p.returncode) for p in ps]
    codes = set(c for _, c in outs)
    if codes == {0}:
        base = outs[0][0]
        for o, _ in outs[1:]:
            if o != base:
                a, b = base.splitlines(), o.splitlines()
                diff = next((x + " | " + y for x, y in zip(a, b) if x != y), "length")
                return 0, "two processes executed the same seed differently: " + diff
        return count * procs, None
    if codes <= {0, 10}:
        return 0, None  # a violation stops the probe; the search will report it
    return 0, "determinism probe failed: rc=%s %s" % (codes, outs[0][0][-500:])


def symbolise(exe, trace):
    pcs = sorted(set(re.findall(r"pc=([0-9a-f]+)", trace)) - {"0"})
    names = {}
    if pcs:
        r = subprocess.run(["addr2line", "-e", exe, "-f", "-i", "-C"] + ["-a"] + ["0x" + p for p in pcs], stdout=subprocess.PIPE, text=True, errors="replace")
        cur = None
        lines = r.stdout.splitlines()
        stack = {}
        i = 0
        while i < len(lines):
            if lines[i].startswith("0x"):
                cur = "%x" % int(lines[i], 16)
                stack[cur] = []
                i += 1
            else:
                fn, loc = lines[i], lines[i + 1] if i + 1 < len(lines) else "?"
                stack[cur].append((fn, loc))
                i += 2
        for p, st in stack.items():
            pick = None
            for fn, loc in st:
                if "/usr/" in loc or "??" in loc or loc.startswith("<"):
                    continue
                pick = (fn, loc)
                break
            pick = pick or (st[0] if st else ("?", "?"))
            loc = pick[1].split(" ")[0].replace(REPO + "/", "").replace(HERE + "/", "")
            fn = re.sub(r"\(.*", "", pick[0])
            names[p] = "%s %s" % (loc, fn[-60:])
    return re.sub(r"pc=([0-9a-f]+)", lambda m: "[%s]" % names.get(m.group(1), "?"), trace)


# ---------------------------------------------------------------------------------------------------- search
class Worker:
    def __init__(self, exe, patterns, seed, first, stride, budget, tag, workdir):
        self.exe, self.patterns, self.seed, self.first, self.stride, self.end, self.tag, self.wd = exe, patterns, seed, first, stride, time.time() + budget, tag, workdir
        self.part = 0
        self.cursors, self.hashes = [], []
        self.start(first)

    def start(self, first):
        self.start_first = first
        self.out = os.path.join(self.wd, "%s-%d.rec" % (self.tag, self.part))
        cur = os.path.join(self.wd, "%s-%d.cur" % (self.tag, self.part))
        hsh = os.path.join(self.wd, "%s-%d.hash" % (self.tag, self.part))
        self.cursors.append(cur)
        self.hashes.append(hsh)
        self.part += 1
        cmd = [self.exe, "search", "--wl", self.patterns, "--seed", str(self.seed), "--first", str(first), "--stride", str(self.stride),
               "--time", "%.2f" % max(0.5, self.end - time.time()), "--cursor", cur, "--hashes", hsh, "--out", self.out]
        self.log = os.path.join(self.wd, "%s-%d.log" % (self.tag, self.part))
        self.p = subprocess.Popen(cmd, stdout=open(self.log, "w"), stderr=subprocess.STDOUT)

    def next_index(self):
        c = read_cursor(self.cursors[-1])
        return c["idx"] + self.stride

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def search(prop, spec, bins, seed, budget, workdir, known, hits):
    """Returns (violation record path or None, exe, cursors, hash files)."""
    workers = []
    weights = [b.get("share", 1.0) for b in spec["binaries"]]
    total = sum(weights)
    n = JOBS
    counts = [max(1, round(n * w / total)) for w in weights]
    for bi, exe in enumerate(bins):
        for k in range(counts[bi]):
            workers.append(Worker(exe, spec["binaries"][bi]["wl"], seed, k, counts[bi], budget, "%s-w%d" % (os.path.basename(exe), k), workdir))
    found = None
    broken = []  # workers that died: counts only when the others find nothing
    live = list(workers)
    try:
        while live and not found:
            time.sleep(0.05)
            for w in list(live):
                rc = w.p.poll()
                if rc is None:
                    if time.time() > w.end + 30:
                        w.stop()
                        live.remove(w)
                        broken.append("a search worker does not finish: " + open(w.log, errors="replace").read()[-800:])
                    continue
                if rc == 0:
                    live.remove(w)
                elif rc == 10:
                    rec = read_record(w.out)
                    k = is_known(known, prop, rec)
                    if not k and not relevant(spec, rec):
                        k = {"what": "(not this property: %s/%s)" % (rec["class"], rec["key"])}
                    if k:
                        hits[k["what"]] = hits.get(k["what"], 0) + 1
                        if time.time() < w.end - 0.5:
                            w.start(w.next_index())
                        else:
                            live.remove(w)
                    else:
                        found = w
                        break
                else:
                    live.remove(w)
                    broken.append("search worker exited with %d: %s" % (rc, open(w.log, errors="replace").read()[-1500:]))
    finally:
        for w in workers:
            w.stop()
    cursors = [c for w in workers for c in w.cursors]
    hashes = [h for w in workers for h in w.hashes]
    if broken and not found:
        raise CheckError(broken[0])
    return found, cursors, hashes, workers


def distinct_hashes(files):
    s = set()
    for f in files:
        if os.path.exists(f):
            d = open(f, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(d) // 8), d[: len(d) // 8 * 8]))
            if len(s) > 30_000_000:
                break
    return len(s)


KEYS = ("class", "key", "hash", "steps")


def find_history(w, fresh, agree):
    """The shortest tail of the worker's runs that, in one fresh process, ends in a violation every time."""
    idx = read_cursor(w.cursors[-1])["idx"]
    last = (idx - w.start_first) // w.stride
    n = 1
    while True:
        n = min(n, last + 1)
        cmd = ["search", "--wl", w.patterns, "--seed", str(w.seed), "--first", str(idx - (n - 1) * w.stride), "--stride", str(w.stride), "--count", str(n)]
        rs = fresh(cmd, 1)
        if rs:
            rs += fresh(cmd, 2)
            if len(rs) == 3 and agree(rs):
                return cmd, rs[0]
        if n == last + 1:
            return None
        n *= 8


def confirm_and_report(prop, worker, workdir, min_time):
    exe, recfile = worker.exe, worker.out
    rec = read_record(recfile)
    say("candidate: %s/%s in %s seed %s: %s" % (rec["class"], rec["key"], rec["workload"], rec["seed"], rec.get("msg", "")))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    final = os.path.join(HERE, "replays", "%s-%s-%s.replay" % (prop, rec["workload"].replace("/", "_"), rec["seed"]))
    mini = os.path.join(workdir, "min.rec")
    again = os.path.join(workdir, "again.rec")

    def replay(path, extra=()):
        r = run([exe, "replay", "--file", path] + list(extra))
        return r.returncode, r.stdout

    def fresh(cmd, n):
        """n fresh processes -> the records of those that saw a violation"""
        got = []
        for _ in range(n):
            if os.path.exists(again):
                os.unlink(again)
            if run([exe] + cmd + ["--out", again]).returncode == 10 and os.path.exists(again):
                got.append(read_record(again))
        return got

    def agree(rs):
        return all(r[k] == rs[0][k] for r in rs for k in KEYS)

    def same(path):
        rs = fresh(["replay", "--file", path], 3)
        return len(rs) == 3 and agree(rs + [read_record(path)])

    note, history = "", None
    if not same(recfile):
        # the execution depended on something else than its recorded choices (say, memory that the code must not read)
        rs = fresh(["replay", "--file", recfile], 3)
        if len(rs) == 3 and agree(rs):
            shutil.copy(again, recfile)
            rec = read_record(recfile)
        else:
            history = find_history(worker, fresh, agree)
            if history:
                note = "the violation needs what earlier runs of the same process left behind: the replay runs all of them"
            elif rs:
                note = "violations on every replay, but not always the same execution: it depends on memory contents" if len(rs) == 3 else "%d of 3 replays saw a violation: the execution depends on memory contents" % len(rs)
            elif PROPS[prop].get("reproducibility"):
                # the violation itself is that executions cannot be repeated
                idx = read_cursor(worker.cursors[-1])["idx"]
                history = (["search", "--wl", worker.patterns, "--seed", str(worker.seed), "--first", str(worker.start_first), "--stride", str(worker.stride), "--count", str((idx - worker.start_first) // worker.stride + 1)], rec)
                note = "the execution depends on the process's memory layout: the replay runs everything that its process ran, and may see the violation in another run"
            else:
                raise CheckError("a violation did not replay: %s" % rec.get("msg", ""))
            say(note)
    use = recfile
    if not note:
        r = run([exe, "minimize", "--file", recfile, "--out", mini, "--time", str(min_time)])
        if r.returncode == 0 and os.path.exists(mini) and same(mini):
            use = mini
            say(r.stdout.strip())
    m = read_record(use)
    trace = run([exe] + history[0]).stdout if history else replay(use, ["--trace"])[1]
    trace = symbolise(exe, trace)
    msg = symbolise(exe, m.get("msg", ""))
    with open(final, "w") as f:
        f.write("# property %s: violation found by deterministic simulation\n" % prop)
        f.write("# replay with: python3 check.py --replay %s\n" % final)
        f.write("property %s\nbinary %s\n" % (prop, os.path.basename(exe)))
        if note:
            f.write("# %s\n" % note)
        if history:
            m = history[1]
            f.write("history %s\n" % " ".join(history[0]))
            f.write("workload %s\nseed %s\n%send\n" % (m["workload"], m["seed"], "".join("%s %s\n" % (k, m[k]) for k in KEYS)))
        else:
            f.write(open(use, errors="replace").read())
        f.write("# found: workload %s seed %s; minimised to %d generation choices and %d schedule/fault deviations\n" % (rec["workload"], rec["seed"], len(m.get("gen", "").split()), len(m.get("dev", "").split())))
        f.write("# %s\n#\n# schedule and fault trace (P scheduling point, S switch, F fault, A/D alloc/free, E event, L log):\n" % msg)
        lines = trace.splitlines()
        if len(lines) > 3000:
            lines = lines[:300] + ["..."] + lines[-2600:]
        for l in lines:
            f.write("# " + l + "\n")
    say("%s/%s: %s" % (m["class"], m["key"], msg))
    print("VIOLATION property=%s replay=%s" % (prop, final), flush=True)


def write_evidence(prop, spec, tier, seed, cursors, hashes, probes_runs, wall, search_wall, violations, known_hits, extra):
    tot = dict(runs=0, steps=0, switches=0, sim_ns=0, threads=0, nontrivial=0)
    faults = [0] * 18
    probes = {}
    for c in cursors:
        v = read_cursor(c) if os.path.exists(c) else None
        if not v:
            continue
        for k in tot:
            tot[k] += v[k]
        for i in range(18):
            faults[i] += v["faults"][i]
        for k, n in v["probes"].items():
            probes[k] = probes.get(k, 0) + n
    d = distinct_hashes(hashes)
    fault_names = spec.get("faults", FAULTS)
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": d,
        "rule": spec.get("rule", "one evaluation = one simulated execution of a generated program under a seeded schedule with injected faults; non-trivial = at least two threads took part and the schedule deviated at least once from the default order; distinct = different hash of the complete event log (every scheduling point with thread, operation, address and value class, every fault, every recorded event)"),
        "samples": extra["samples"],
        "seeds_per_hour": int(tot["runs"] / max(search_wall, 0.1) * 3600),
        "simulated_time_s": round(tot["sim_ns"] * 1e-9, 6),
        "scheduling_points": tot["steps"],
        "context_switches": tot["switches"],
        "threads_simulated": tot["threads"],
        "faults_injected": {n: faults[i] for i, n in enumerate(fault_names) if faults[i]},
        "rare_conditions_hit": dict(sorted(probes.items())),
        "determinism_probe_runs": probes_runs,
        "workloads": extra["workloads"],
        "components_real": spec.get("real", "all of YACLib compiled from /repo (headers and src/), libstdc++ std::thread/mutex/condition_variable/atomic front ends"),
        "components_stubbed": spec.get("stub", "pthread threads/mutex/condvar/rwlock, futex, clocks, nanosleep and the heap are the simulator's; hardware memory model replaced by happens-before clocks with stale reads"),
        "known_findings_hit": known_hits,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + ["seeded sampling: absence of a violation is evidence for the explored runs, not a proof"],
          "wall_s": round(wall, 1), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def sample_cases(bins, spec, seed, workdir):
    out = []
    for exe, b in zip(bins, spec["binaries"]):
        ls = run([exe, "list"]).stdout.split("\n")
        names = [l.split()[0] for l in ls if l.strip()]
        pats = b["wl"].split(",")
        names = [n for n in names if any(p == "all" or n.startswith(p) for p in pats)]
        for n in names[:2]:
            r = run([exe, "one", "--wl", n, "--seed", str(seed * 1000 + 7), "--trace"])
            t = symbolise(exe, r.stdout).splitlines()
            out.append({"workload": n, "seed": seed * 1000 + 7, "trace_head": t[:14], "trace_lines": len(t), "end": t[-1] if t else ""})
    return out[:4]


def check(prop, tier, seed):
    spec = PROPS[prop]
    t_start = time.time()
    bins = build(prop)
    say("built", " ".join(os.path.basename(b) for b in bins))
    workdir = os.path.join(build_dir(), "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    try:
        return check_built(prop, spec, tier, seed, bins, workdir, t_start)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def check_built(prop, spec, tier, seed, bins, workdir, t_start):
    known = load_known()
    hits = {}
    wls = []
    probe = 0
    mismatch = None
    for exe, b in zip(bins, spec["binaries"]):
        for l in run([exe, "list"]).stdout.splitlines():
            wls.append(os.path.basename(exe) + ":" + l.split()[0])
        n = b.get("probe", 240) * (4 if tier == "thorough" else 1)
        k, why = determinism_probe(exe, b.get("probe_wl", b["wl"]), seed, n, 4 if tier == "quick" else 8, spec.get("reproducibility"))
        probe += k
        mismatch = mismatch or (why and (why, exe, b.get("probe_wl", b["wl"]), n))
    say("determinism probe: %s" % (mismatch[0] if mismatch else "%d runs agree" % probe))
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (spec.get("quick_s", 28) if tier == "quick" else spec.get("thorough_s", 600))
    t1 = time.time()
    found, cursors, hashes, workers = search(prop, spec, bins, seed, budget, workdir, known, hits)
    t2 = time.time()
    samples = sample_cases(bins, spec, seed, workdir)
    ev = lambda viol: write_evidence(prop, spec, tier, seed, cursors, hashes, probe, time.time() - t_start, t2 - t1, viol, hits, {"samples": samples, "workloads": wls})
    if found:
        ev(1)
        confirm_and_report(prop, found, workdir, 20 if tier == "quick" else 60)
        return 1
    if mismatch:
        # the simulator gives every process the same choices, clocks and (in the fibers' case) memory pattern
        if not spec.get("reproducibility"):
            raise CheckError(mismatch[0])
        ev(1)
        return report_mismatch(prop, seed, mismatch)
    for k in known:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    ev(0)
    e = json.load(open(os.path.join(HERE, "evidence", prop + ".json")))["coverage"]
    say("%s held: %d runs, %d distinct non-trivial schedules, faults %s" % (prop, e["evaluations"], e["distinct_nontrivial"], json.dumps(e["faults_injected"])))
    return 0


def report_mismatch(prop, seed, mismatch):
    why, exe, wl, n = mismatch
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    final = os.path.join(HERE, "replays", "%s-processes-%d.replay" % (prop, seed))
    with open(final, "w") as f:
        f.write("# property %s: the same program, seed and configuration were executed differently by two processes\n# %s\n" % (prop, why))
        f.write("property %s\nbinary %s\nprobe %s %d %d\nend\n" % (prop, os.path.basename(exe), wl, seed, n))
    print("VIOLATION property=%s replay=%s" % (prop, final), flush=True)
    return 1


def do_replay(path, trace):
    r = read_record(path)
    prop = r["property"]
    bins = build(prop)
    exe = next(b for b in bins if os.path.basename(b) == r["binary"])
    out = path + ".again"
    if "probe" in r:
        wl, sd, n = r["probe"].split()
        k, why = determinism_probe(exe, wl, int(sd), int(n), 4, PROPS[prop].get("reproducibility"))
        print(why or "not reproduced")
        return 1 if why else 0
    cmd = r["history"].split() if "history" in r else ["replay", "--file", path] + (["--trace"] if trace else [])
    x = run([exe] + cmd + ["--out", out])
    print(symbolise(exe, x.stdout))
    ok = False
    if x.returncode == 10 and os.path.exists(out):
        a = read_record(out)
        ok = all(a[k] == r[k] for k in ("class", "key", "hash"))
        os.unlink(out)
    print("reproduced exactly" if ok else ("violation, but a different execution (the code changed)" if x.returncode == 10 else "not reproduced"))
    return 1 if x.returncode == 10 else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        if a.replay:
            return do_replay(os.path.abspath(a.replay), a.trace)
        if a.build_only:
            say(build(a.property))
            return 0
        if a.selftest:
            for exe, b in zip(build(a.property), PROPS[a.property]["binaries"]):
                say(exe, *determinism_probe(exe, b.get("probe_wl", b["wl"]), seed, 3000, JOBS, PROPS[a.property].get("reproducibility")))
            return 0
        return check(a.property, a.tier, seed)
    except CheckError as e:
        print("ERROR: " + str(e), flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
