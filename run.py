#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> (see DESIGN.md).

Builds the monitors against the working tree of the repository, runs them in
shards over all cores, watches for violations, crashes, sanitizer reports and
hangs, and writes evidence/<property>.json.

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION
line), 2 the check could not give an answer.
"""
import hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from checks import CHECKS, GROUPS

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MATHIC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = max(2, os.cpu_count() or 8)
STALL = 60         # seconds without progress on a case before a shard is stopped
ALONE = 120        # seconds for the stalled case on its own
SHARD_LIMIT = 3600 # seconds for a whole shard

BASE = ["-std=gnu++14", "-g1", "-w", "-I" + REPO + "/src", "-I" + HERE + "/harness"]
FLAVOURS = {
    # sanitizers
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"],
    # volume
    "plain": ["-O2"],
    # the library's own assertions
    "debug": ["-O1", "-DMON_SMALL", "-DMATHIC_DEBUG", "-DMATHIC_SLOW_DEBUG"],
    # threads
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DMON_SMALL"],
    # for valgrind
    "valgrind": ["-O1", "-DMON_SMALL"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=66:detect_leaks=%d:allocator_may_return_null=0:"
                        "hard_rss_limit_mb=3000:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=66", LSAN_OPTIONS="exitcode=66",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0",
           MALLOC_PERTURB_="165", LC_ALL="C")


class NoAnswer(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cpp", ".hpp")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as x:
                        h.update(x.read())
    return h.hexdigest()


_TREE = None


def source_state():
    global _TREE
    if _TREE is None:
        _TREE = tree_hash([REPO + "/src", HERE + "/harness"])
    return _TREE


def compile_one(src, flags, what):
    key = sha(source_state(), src, " ".join(flags))
    obj = os.path.join(BUILD, "obj", what + "-" + key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + "." + str(os.getpid()) + ".tmp"
        p = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            return None, what + ":\n" + p.stdout[-6000:]
        os.replace(tmp, obj)
    return obj, ""


def lib_sources():
    d = REPO + "/src/mathic"
    r = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp") and f != "main.cpp"]
    return r + [REPO + "/src/mathic.cpp"]


def units(group):
    """(source, extra flags, name) of everything a group consists of."""
    g = GROUPS[group]
    out = [(HERE + "/harness/mon_main.cpp", [], "main")]
    for src, parts in g["sources"]:
        for p in range(parts):
            out.append((HERE + "/harness/" + src, ["-DMON_PART=%d" % p] + g.get("flags", []),
                        "%s-%s-%d" % (group, os.path.splitext(src)[0], p)))
    if g.get("lib"):
        for s in lib_sources():
            out.append((s, [], "lib-" + os.path.basename(s)[:-4]))
    for s in repo_files(g):
        out.append((REPO + "/" + s, g.get("repo_flags", []), "repo-" + s.replace("/", "_")[:-4]))
    return out


def repo_files(g):
    """The sources of the programs that belong to the group."""
    d, without = g.get("repo", (None, ()))
    if d is None:
        return []
    return [d + "/" + f for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".cpp") and f not in without]


def build(wanted):
    """wanted: set of (group, flavour). Returns {(group, flavour): binary}, and
    the set of those that did not compile with the messages."""
    os.makedirs(BUILD, exist_ok=True)
    jobs = {}
    for group, flavour in sorted(wanted):
        for src, extra, name in units(group):
            jobs[(src, tuple(extra), name, flavour)] = None
    order = sorted(jobs, key=lambda j: -GROUPS_WEIGHT.get(j[2].split("-")[0], 0))
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {j: ex.submit(compile_one, j[0], BASE + FLAVOURS[j[3]] + list(j[1]), j[2] + "-" + j[3]) for j in order}
        res = {j: f.result() for j, f in futs.items()}
    bins, bad = {}, {}

    def link(group, flavour):
        objs, errors = [], []
        for src, extra, name in units(group):
            o, msg = res[(src, tuple(extra), name, flavour)]
            objs.append(o)
            if o is None:
                errors.append(msg)
        if errors:
            return None, "\n".join(errors)
        out = os.path.join(BUILD, group + "-" + flavour + "-" + sha(*objs))
        if not os.path.exists(out):
            san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize")]
            tmp = out + "." + str(os.getpid()) + ".tmp"
            p = subprocess.run(["g++"] + san + objs + ["-lmemtailor", "-o", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode != 0:
                return None, "linking " + group + ":\n" + p.stdout[-6000:]
            os.replace(tmp, out)
        return out, ""

    with ThreadPoolExecutor(JOBS) as ex:
        futs = {w: ex.submit(link, *w) for w in wanted}
        for w, f in futs.items():
            b, msg = f.result()
            if b is None:
                bad[w] = msg
            else:
                bins[w] = b
    return bins, bad


GROUPS_WEIGHT = {g: 1 + len(v["sources"]) for g, v in GROUPS.items()}


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Shard:
    def __init__(self, work, binary, args, name, valgrind=False, flavour="plain", leaks=False):
        # Leaks are the business of few properties; other memory errors make
        # whatever follows undefined, so no property survives them.
        self.env = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] % (1 if leaks else 0))
        self.work, self.binary, self.args, self.name = work, binary, args, name
        self.valgrind, self.flavour = valgrind, flavour
        self.out = os.path.join(work, name + ".json")
        self.state = os.path.join(work, name + ".state")
        self.hashes = os.path.join(work, name + ".hashes")
        self.err = os.path.join(work, name + ".err")

    def command(self, extra=()):
        c = [self.binary] + self.args + list(extra)
        if self.valgrind:
            c = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes",
                 "--undef-value-errors=yes", "--leak-check=no"] + c
        return c

    def prepare(self):
        limits()
        if self.flavour in ("plain", "debug"):
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        os.setpgid(0, 0)

    def run(self):
        """Returns (kind, case, text); kind: ok, crash, stall, killed, error."""
        scratch = os.path.join(self.work, self.name + ".dir")
        os.makedirs(scratch, exist_ok=True)
        with open(self.err, "wb") as err:
            p = subprocess.Popen(self.command(["--out", self.out, "--state", self.state, "--hashes", self.hashes]),
                                 stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=self.env, cwd=scratch,
                                 preexec_fn=self.prepare)
            start = last = time.time()
            seen = None
            scale = 6 if self.valgrind else 1
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = self.case()
                if now != seen:
                    seen, last = now, time.time()
                if time.time() - last > STALL * scale or time.time() - start > SHARD_LIMIT:
                    kill(p)
                    return ("stall", self.case(), "")
        if p.returncode == 0:
            return ("ok", None, "")
        text = open(self.err, errors="replace").read()[-20000:]
        if p.returncode == 3:
            return ("error", self.case(), "harness error: " + text)
        if p.returncode == -signal.SIGKILL:
            return ("killed", self.case(), "killed from outside, it seems for the memory it used")
        return ("crash", self.case(), "exit status %d\n%s" % (p.returncode, text))

    def case(self):
        try:
            return int(open(self.state).read().split()[0])
        except (OSError, ValueError, IndexError):
            return None

    def alone(self, case, timeout, log=True, extra=()):
        scratch = os.path.join(self.work, self.name + ".dir")
        os.makedirs(scratch, exist_ok=True)
        args = ["--only", str(case)] + (["--log"] if log else []) + list(extra)
        path = os.path.join(self.work, self.name + ".alone")
        with open(path, "wb") as f:
            p = subprocess.Popen(self.command(args), stdout=subprocess.DEVNULL, stderr=f, stdin=subprocess.DEVNULL,
                                 env=self.env, cwd=scratch, preexec_fn=self.prepare)
            try:
                p.wait(timeout=timeout * (6 if self.valgrind else 1))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                kill(p)
                rc = None
        return rc, open(path, errors="replace").read()[-30000:]


def fine_apart(shard, case):
    """Whether the cases that ran together go well in processes of their own,
    so that what went wrong comes from running together."""
    return all(shard.alone(case, ALONE, False, ["--apart", str(k)])[0] == 0 for k in range(4))


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()
    p.wait()


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        bins, bad = build({(CHECKS["C20"]["runs"][0]["group"], "asan")} if "C20" in CHECKS else set())
        for m in bad.values():
            print(m)
        return 2 if bad else 0
    prop = sys.argv[1]
    check = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier != "thorough":
        tier = "quick"
    start = time.time()
    runs = [r for r in check["runs"] if r.get(tier, 0)]
    wanted = {(r["group"], r["flavour"]) for r in runs}
    bins, bad = build(wanted)
    skipped = []
    for (group, flavour), msg in bad.items():
        if flavour == "debug":
            skipped.append(group + "-" + flavour + " did not compile: " + msg[:300])
            continue
        raise NoAnswer("cannot build %s (%s)\n%s" % (group, flavour, msg))
    built = time.time() - start
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return explore(prop, check, seed, tier, start, built, runs, bins, skipped, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, check, seed, tier, start, built, runs, bins, skipped, work):
    shards = []
    for n, r in enumerate(runs):
        if (r["group"], r["flavour"]) not in bins:
            continue
        cases = r[tier]
        # cost of the flavours differs: order of shards does not matter
        k = min(JOBS, cases)
        for i in range(k):
            args = ["--mode", prop, "--seed", str(seed + 1000003 * n), "--from", str(i), "--to", str(cases),
                    "--step", str(k), "--tier", "1" if tier == "thorough" else "0", "--tags", check["tags"]]
            if check.get("together"):
                args.append("--together")
            shards.append(Shard(work, bins[(r["group"], r["flavour"])], args, "s%d-%d" % (n, i),
                                r["flavour"] == "valgrind", r["flavour"], check.get("leaks", False)))
    # When a shard hangs, those that have not started only cost time.
    stopped = []

    def run_shard(s):
        if stopped:
            return ("skipped", None, "")
        r = s.run()
        if r[0] == "stall":
            stopped.append(s)
        return r

    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(run_shard, shards))
    violations, inconclusive = [], []
    totals, functions, samples = {}, set(), []
    cases = nontrivial = foreign = 0
    foreign_example = ""
    seen = set()
    slowest, peak = (0, 0, ""), 0
    for s, (kind, case, text) in zip(shards, results):
        if kind == "error":
            raise NoAnswer(s.name + ": " + text)
        if kind == "skipped":
            continue
        if kind == "stall":
            if any(v["tag"] == "hang" for v in violations):
                continue # one is enough, and each costs time
            rc, log = s.alone(case, ALONE) if case is not None else (0, "")
            if rc is None and check.get("together") and not fine_apart(s, case):
                foreign += 1
                foreign_example = foreign_example or "a case does not end"
                continue
            if rc is None:
                violations.append(dict(case=case, shard=s, fn="", tag="hang",
                                       msg="the case does not end (stopped after %d s on its own)" % ALONE, log=log))
            else:
                inconclusive.append("%s stalled at case %s, which ended on its own" % (s.name, case))
            continue
        if kind == "killed": # there may just have been too little memory left
            rc = s.alone(case, ALONE, False)[0] if case is not None else 0
            if rc in (0, 3):
                inconclusive.append("%s was killed at case %s, which went well on its own" % (s.name, case))
                continue
            kind = "crash"
        if kind == "crash" and check.get("together") and "data race" not in text:
            if case is None or not fine_apart(s, case):
                foreign += 1
                foreign_example = foreign_example or "crash: " + text[:300]
                continue
        if kind == "crash":
            rc, log = s.alone(case, ALONE) if case is not None and not violations else (0, "")
            m = re.search(r"(WARNING: ThreadSanitizer[^\n]*|ERROR: \w+: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*|terminate called[^\n]*|"
                          r"LeakSanitizer[^\n]*|free\(\)[^\n]*|malloc[^\n]*|double free[^\n]*|"
                          r"Invalid [^\n]*|uninitialised [^\n]*)", text)
            violations.append(dict(case=case, shard=s, fn="", tag="crash",
                                   msg="crash or sanitizer report: " + (m.group(1) if m else text[:300]),
                                   log=text + "\n--- alone:\n" + log))
            continue
        d = json.load(open(s.out))
        cases += d["cases"]
        nontrivial += d["nontrivial"]
        foreign += d["foreign"]
        foreign_example = foreign_example or d["foreign_example"]
        functions.update(d["functions"])
        peak = max(peak, d["peak"])
        slowest = max(slowest, (d["slowest"][0], d["slowest"][1], s.flavour))
        for k, v in d["counts"].items():
            totals[k] = max(totals.get(k, 0), v) if k.startswith("MAX ") else totals.get(k, 0) + v
        if len(samples) < 3:
            samples += d["samples"][:1]
        for v in d["violations"]:
            if v["tag"] == "doubtful" and (any(w["tag"] == "doubtful" for w in violations) or not fine_apart(s, v["case"])):
                foreign += 1
                foreign_example = foreign_example or v["msg"]
                continue
            violations.append(dict(case=v["case"], shard=s, fn=v["fn"], tag=v["tag"], msg=v["msg"], log=None))
        raw = open(s.hashes, "rb").read()
        seen.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
    known = known_findings(prop)
    reported, new = set(), []
    for v in violations:
        hit = [k for k in known if k[0] in v["msg"]]
        if hit:
            reported.add(hit[0][1])
        else:
            new.append(v)
    for k in sorted(reported):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    replay = None
    if new:
        v = new[0]
        s = v["shard"]
        if v["log"] is None:
            v["log"] = s.alone(v["case"], ALONE)[1]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", "%s-seed%d-%s-%s.txt" % (prop, seed, s.name, v["case"]))
        with open(replay, "w") as f:
            f.write("property: %s\nrepository: %s\nfunction: %s\noracle: %s\nwhat: %s\n" %
                    (prop, REPO, v["fn"], v["tag"], v["msg"]))
            f.write("replay: %s\n(after: python3 run.py %s has built it)\n\n" %
                    (" ".join("'%s'" % a if " " in a else a for a in s.command(["--only", str(v["case"]), "--log"])), prop))
            f.write(v["log"] or "")
    coverage = dict(
        evaluations=cases, distinct_nontrivial=len(seen), rule=check["rule"],
        samples=[x["trace"] for x in samples] or ["none"],
        nontrivial_cases=nontrivial, observed=totals, case_functions=sorted(functions),
        workloads=[dict(group=r["group"], build=r["flavour"], cases=r[tier]) for r in runs],
        slowest_case=dict(case=slowest[1], build=slowest[2], processor_ms=slowest[0]),
        peak_memory_mb=peak,
        foreign_failures=foreign, build_s=round(built, 1))
    if foreign_example:
        coverage["foreign_example"] = foreign_example[:500]
    if skipped or inconclusive:
        coverage["notes"] = skipped + inconclusive
    if new:
        coverage["violation"] = new[0]["msg"][:1000]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              wall_s=round(time.time() - start, 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        for v in new[:3]:
            print("%s [%s] case %s: %s" % (prop, v["tag"], v["case"], v["msg"][:500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if inconclusive:
        raise NoAnswer("; ".join(inconclusive))
    missing = [k for k in check.get("must_see", []) if not totals.get(k)]
    if cases == 0 or (not seen) or (missing and not foreign):
        raise NoAnswer("nothing observed: %d cases, %d distinct, missing %s" % (cases, len(seen), missing))
    print("%s held: %d cases, %d distinct and non-trivial, %.1f s (build %.1f s)%s" %
          (prop, cases, len(seen), time.time() - start, built,
           ", %d ended early by failures of other properties: %s" % (foreign, foreign_example) if foreign else ""))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: " + str(e), file=sys.stderr)
        sys.exit(2)
