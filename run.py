#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check  ID quick|thorough     decide a property on /repo's working tree
  run.py replay ID FILE               run one saved case, verbosely
  run.py build  ID...|all             only build
  run.py list                         the properties known to the machinery

Exit status of check: 0 held on everything explored, 1 violation (a VIOLATION line is printed),
2 the check could not decide (build failure...).
"""
import array, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NETCODE_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
JOBS = os.cpu_count() or 4

sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

SAN = ("-g1 -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fno-sanitize-recover=undefined").split()
TSAN = "-g1 -O1 -fno-omit-frame-pointer -fsanitize=thread".split()
ENV = dict(os.environ,
           ASAN_OPTIONS="exitcode=99:detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
                        "quarantine_size_mb=32:allocator_may_return_null=0:detect_stack_use_after_return=0:"
                        "handle_abort=0:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1",
           TSAN_OPTIONS="exitcode=99:halt_on_error=1")


class BuildError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def repo_files(*exts, sub="netcode"):
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, sub)):
        res += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(res)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def compile_one(cmd, src, obj, key):
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    p = subprocess.run(cmd + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return f"{' '.join(cmd)} -c {src}\n" + p.stdout.decode("utf-8", "replace")[-6000:]
    with open(stamp, "w") as f:
        f.write(key)
    return None


def build(ids, fuzzer=False):
    """Builds the binaries of the given properties from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:   # one build at a time
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            return build_locked(ids, fuzzer)
        except BuildError:
            # What a property demands of types might be the very thing which no longer compiles: the
            # check then tells it.
            optional = [i for i in ids if "without" in PROPS[i]]
            if not optional:
                raise
            for i in optional:
                PROPS[i]["defs"] = PROPS[i].get("defs", []) + PROPS[i].pop("without")
            return build_locked(ids, fuzzer)


def build_locked(ids, fuzzer):
    variant_of = lambda i: PROPS[i].get("variant", "asan") + ("-fuzz" if fuzzer else "")
    repo_h = repo_files(".hh", ".h", ".hpp")
    repo_cc = repo_files(".cc", ".cpp", ".cxx")
    harness_h = sorted(os.path.join(HARNESS, f) for f in os.listdir(HARNESS) if f.endswith(".hh"))
    jobs, links = {}, []
    for i in ids:
        p = PROPS[i]
        v = variant_of(i)
        san = TSAN if p.get("variant") == "tsan" else SAN
        cxx = "clang++" if fuzzer else "g++"
        cov = ["-fsanitize=fuzzer-no-link"] if fuzzer else []
        defs = p.get("defs", [])
        lib_defs = p.get("lib_defs", [])
        vdir = os.path.join(BUILD, v + ("-" + hashlib.sha256(" ".join(lib_defs).encode()).hexdigest()[:6] if lib_defs else ""))
        objs = []
        # the library, as /repo has it, with assertions off as in its own build
        cmd = [cxx, "-std=c++11"] + san + cov + ["-DNDEBUG", "-I" + REPO, "-w"] + lib_defs
        hk = digest(repo_h, " ".join(cmd))
        for s in ([] if p.get("no_lib") else repo_cc):
            o = os.path.join(vdir, "lib", os.path.relpath(s, REPO).replace("/", "_") + ".o")
            jobs[o] = (cmd, s, o, digest([s], hk))
            objs.append(o)
        # the harness
        # (the deciding code of the harness is instrumented for memory errors too, but not for coverage)
        hcmd = [cxx, "-std=c++17"] + san + cov + ["-DNDEBUG", "-I" + REPO, "-I" + HARNESS, "-w"] + lib_defs + defs
        if fuzzer:
            hcmd.append("-DPBT_LIBFUZZER")
        deps = [f for d in p.get("deps", []) for f in repo_files(".hh", ".h", ".cc", sub=d)]
        hhk = digest(repo_h + harness_h + deps, " ".join(hcmd))
        srcs = [os.path.join(HARNESS, "props", i + ".cc")] + [os.path.join(HARNESS, x) for x in p.get("sources", [])]
        if p.get("gfguard", True):
            srcs.append(os.path.join(HARNESS, "gfguard.cc"))
        tag = hashlib.sha256(" ".join(defs + p.get("deps", [])).encode()).hexdigest()[:6]
        for s in srcs:
            o = os.path.join(vdir, "h-" + tag, os.path.basename(s) + ".o")
            jobs[o] = (hcmd, s, o, digest([s], hhk))
            objs.append(o)
        exe = os.path.join(vdir, i)
        links.append([cxx] + san + (["-fsanitize=fuzzer"] if fuzzer else []) + objs
                     + ["-o", exe + ".new", "-lgf_complete", "-ldl", "-lpthread"] + p.get("libs", []))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs.values()) if e]
    if errs:
        raise BuildError(errs[0])
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(lambda l: subprocess.run(l, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), links):
            if r.returncode != 0:
                raise BuildError(" ".join(r.args) + "\n" + r.stdout.decode("utf-8", "replace")[-6000:])
    exes = [l[l.index("-o") + 1] for l in links]
    for e in exes:
        os.replace(e, e[:-4])   # a check may be running the previous one
    return [e[:-4] for e in exes]


def known_findings(prop):
    """Entries 'known: property=ID match=<text of the failure> | what fails'"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(.*?) \| (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def replay_fails(exe, path):
    with tempfile.TemporaryDirectory(prefix="netcode-replay-") as cwd:
        p = subprocess.run([exe, "replay", os.path.abspath(path)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=cwd)
    return p.returncode != 0, p.stdout.decode("utf-8", "replace")


def confirm(prop, exe, fail, tmp):
    """Re-executes a failure three times. Returns (confirmed, text, output)."""
    text = open(fail).read()
    out = ""
    n = 0
    for _ in range(3):
        bad, out = replay_fails(exe, fail)
        n += bad
    if n == 3:
        return True, text, out
    # Not a function of the case alone (e.g. it depends on what earlier cases left in memory):
    # run the same sequence of cases again, up to the failing one.
    m = re.search(r"seed (\d+) worker (\d+)/(\d+) case (\d+)", text)
    if m:
        seed, worker, nb, idx = m.groups()
        again = 0
        for k in range(2):
            o = os.path.join(tmp, f"again{k}")
            r = subprocess.run([exe, "run", seed, worker, nb, str(int(idx) + 1), "600", o],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=tmp)
            again += r.returncode == 1
        if again == 2:
            return True, text + f"# not reproduced alone; run: {exe} run {seed} {worker} {nb} {int(idx) + 1} 600 OUT\n", out
    return False, text, out


def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        exe = build([prop])[0]
        fexe = build([prop], fuzzer=True)[0] if tier == "thorough" and spec.get("fuzz") else None
    except BuildError as e:
        log("BUILD FAILED: the harness can't be built from", REPO)
        log(str(e))
        return 2
    t_build = time.time() - t0
    count = spec["quick"] if tier == "quick" else spec.get("thorough", spec["quick"] * 20)
    cap = float(os.environ.get("PBT_CAP", 400 if tier == "quick" else 1500))
    tmp = tempfile.mkdtemp(prefix=f"netcode-{prop}-")
    try:
        fails, stats, hashes = run_workers(exe, seed, count, cap, tmp, spec.get("workers", JOBS))
        corpus = saved_cases(prop)
        nb_corpus = 0
        for path in corpus:
            nb_corpus += 1
            bad, _ = replay_fails(exe, path)
            if bad:
                fails.append(path)
        fuzz = None
        if fexe and not fails:
            fuzz, ffail = run_fuzzer(prop, exe, fexe, seed, tmp, float(os.environ.get("PBT_FUZZ_S", spec.get("fuzz_s", 180))))
            fails += ffail
        verdict, nb_viol, known, unconfirmed = 0, 0, {}, 0
        for f in fails:
            okc, text, out = confirm(prop, exe, f, tmp)
            if not okc:
                unconfirmed += 1
                log(f"note: a failure was not reproduced and is not reported:\n{text}")
                continue
            m = [k for k in known_findings(prop) if k[0] in text]
            if m:
                known[m[0][1]] = True
                continue
            dst = os.path.join(HERE, "replays", f"{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.txt")
            if f in corpus:
                dst = f
            else:
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with open(dst, "w") as d:
                    d.write(text)
            nb_viol += 1
            if nb_viol == 1:
                log("".join("  " + l + "\n" for l in text.splitlines()[:12] if not l.startswith("choices")))
                log("\n".join(out.splitlines()[-40:]))
                log(f"VIOLATION property={prop} replay={dst}")
            verdict = 1
        for k in known:
            log(f"KNOWN-FINDING: property={prop} {k}")
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": stats["evaluations"],
                "distinct_nontrivial": len(hashes),
                "nontrivial": stats["nontrivial"],
                "slowest_case_cpu_s": round(stats["slowest"], 3),
                "oracle_evaluations": stats["oracle_evals"],
                "rule": spec["rule"],
                "labels": dict(sorted(stats["labels"].items())),
                "samples": stats["samples"][:12],
                "saved_cases_replayed": nb_corpus,
                "failures_not_reproduced": unconfirmed,
                "requested": count,
                "build_s": round(t_build, 1),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": nb_viol,
        }
        if fuzz:
            ev["coverage"]["fuzzing"] = fuzz
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if verdict == 0 and stats["evaluations"] < min(count, 20):
            log("too few cases were run to say anything")
            return 2
        log(f"{prop} {tier}: {stats['evaluations']} cases, {len(hashes)} distinct non-trivial, "
            f"{nb_viol} violation(s), {time.time() - t0:.1f} s (build {t_build:.1f} s)")
        return verdict
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def saved_cases(prop):
    d = os.path.join(HERE, "corpus")
    if not os.path.isdir(d):
        return []
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.startswith(prop + "-"))


def run_workers(exe, seed, count, cap, tmp, nb):
    outs, procs = [], []
    for k in range(nb):
        o = os.path.join(tmp, f"w{k}")
        outs.append(o)
        procs.append(subprocess.Popen([exe, "run", str(seed), str(k), str(nb), str(count), str(cap), o],
                                      env=ENV, stdin=subprocess.DEVNULL, cwd=tmp))
    fails = []
    for k, p in enumerate(procs):
        rc = p.wait()
        if rc == 1 and os.path.exists(outs[k] + ".fail"):
            fails.append(outs[k] + ".fail")
        elif rc != 0:
            log(f"worker {k} exited with status {rc}")
    stats = {"evaluations": 0, "oracle_evals": 0, "nontrivial": 0, "slowest": 0, "labels": {}, "samples": []}
    hashes = set()
    for o in outs:
        add_stats(o + ".stats", stats, hashes)
    return fails, stats, hashes


def add_stats(path, stats, hashes):
    if not os.path.exists(path):
        return
    s = json.load(open(path))
    for k in ("evaluations", "oracle_evals", "nontrivial"):
        stats[k] += s[k]
    for k, v in s["labels"].items():
        stats["labels"][k] = stats["labels"].get(k, 0) + v
    stats["slowest"] = max(stats["slowest"], s.get("slowest", 0))
    stats["samples"] += s["samples"][:2]
    if os.path.exists(path + ".hashes"):
        a = array.array("Q")
        with open(path + ".hashes", "rb") as f:
            a.frombytes(f.read())
        hashes.update(a)


def run_fuzzer(prop, exe, fexe, seed, tmp, seconds):
    """Coverage-guided search over the same cases (libFuzzer), several processes sharing a corpus."""
    corpus = os.path.join(tmp, "corpus")
    os.makedirs(corpus)
    procs = []
    for k in range(JOBS):
        art = os.path.join(tmp, f"art{k}-")
        env = dict(ENV, PBT_FUZZ_STATS=os.path.join(tmp, f"f{k}.stats"))
        procs.append(subprocess.Popen(
            [fexe, corpus, f"-seed={seed * 100 + k + 1}", f"-max_total_time={int(seconds)}", "-max_len=4096",
             "-len_control=20", f"-artifact_prefix={art}", "-rss_limit_mb=3500", "-timeout=120", "-reload=1", "-verbosity=1",
             "-print_final_stats=1"], env=env, cwd=tmp, stdin=subprocess.DEVNULL,
            stdout=open(os.path.join(tmp, f"f{k}.log"), "w"), stderr=subprocess.STDOUT))
    for p in procs:
        p.wait()
    stats = {"evaluations": 0, "oracle_evals": 0, "nontrivial": 0, "slowest": 0, "labels": {}, "samples": []}
    hashes = set()
    fails = []
    cov = 0
    for k in range(JOBS):
        add_stats(os.path.join(tmp, f"f{k}.stats"), stats, hashes)
        for m in re.finditer(r"cov: (\d+)", open(os.path.join(tmp, f"f{k}.log"), errors="replace").read()):
            cov = max(cov, int(m.group(1)))
    for a in sorted(f for f in os.listdir(tmp) if f.startswith("art")):
        if "timeout" in a or "slow-unit" in a or "oom" in a:
            continue   # resource limits of the fuzzer decide nothing
        out = os.path.join(tmp, a + ".fail")
        r = subprocess.run([exe, "frombytes", os.path.join(tmp, a), out], env=ENV)
        if r.returncode == 1 and os.path.exists(out):
            fails.append(out)
    return ({"executions": stats["evaluations"], "distinct_nontrivial": len(hashes), "edges": cov,
             "corpus": len(os.listdir(corpus)), "seconds": seconds}, fails)


def main(argv):
    if len(argv) >= 3 and argv[0] == "check":
        return check(argv[1], argv[2])
    if len(argv) == 3 and argv[0] == "replay":
        exe = build([argv[1]])[0]
        with tempfile.TemporaryDirectory(prefix="netcode-replay-") as cwd:
            return subprocess.run([exe, "replay", os.path.abspath(argv[2])], env=ENV, cwd=cwd).returncode
    if len(argv) >= 2 and argv[0] == "build":
        ids = sorted(PROPS) if argv[1] == "all" else argv[1:]
        try:
            build(ids)
        except BuildError as e:
            log(str(e))
            return 2
        return 0
    if argv == ["list"]:
        print("\n".join(sorted(PROPS)))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
