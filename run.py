#!/usr/bin/env python3
"""Build and run the check of one property.

  run.py check  <id> [--tier quick|thorough] [--seed N] [--seconds S]
  run.py replay <replay file>
  run.py setup

Everything is compiled from /repo's working tree as it is now.  Objects are cached under
/verif/_build keyed by the content of every input, so a cache hit means nothing changed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS, LIB_SOURCES  # noqa: E402

CACHE = os.path.join(ROOT, "_build")
TOML = "/opt/vp/deps/tomlplusplus/include"


def cpu_flags():
    with open("/proc/cpuinfo") as f:
        for line in f:
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    return set()


FLAGS = cpu_flags()
ISA = {
    "v4vnni": (["-march=x86-64-v4", "-mavx512vnni"],
               {"avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl", "avx512_vnni"}),
    "v4": (["-march=x86-64-v4"], {"avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"}),
    "v3": (["-march=x86-64-v3"], {"avx2"}),
    "v3noavx": (["-march=x86-64-v3", "-mno-avx2"], {"avx"}),
    "v2": (["-march=x86-64-v2"], set()),
}


def best_isa():
    return "v4vnni" if ISA["v4vnni"][1] <= FLAGS else "v3"


def repo_version():
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"^ +VERSION ([0-9]+)\.([0-9]+)\.([0-9]+)", text, re.M)
    return m.groups() if m else ("0", "0", "0")


def base_flags(check):
    a, b, c = repo_version()
    return [
        "-std=c++20", "-I" + os.path.join(REPO, "include"), "-isystem", TOML,
        "-I" + os.path.join(ROOT, "lib"), "-include", os.path.join(ROOT, "lib", "vh_pause.hpp"),
        "-DSVS_VERSION_MAJOR=" + a, "-DSVS_VERSION_MINOR=" + b, "-DSVS_VERSION_PATCH=" + c,
        "-DSVS_HAVE_MKL=0", "-DSVS_CHECK_BOUNDS=1", "-DSVS_ENABLE_NUMA=0",
        "-DSVS_INITIALIZE_LOGGER=1", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_COMPILED_LIB", "-w",
    ]


def expand(variant):
    """Compiler and flags of a variant string such as 'O1,asan,v4vnni'."""
    cc, out, link = "g++", [], []
    isa = best_isa()
    for part in variant.split(","):
        if part in ISA:
            isa = part
        elif part in ("O0", "O1", "O2", "O3"):
            out.append("-" + part)
        elif part == "asan":
            out += ["-fsanitize=address", "-fno-omit-frame-pointer"]
            link += ["-fsanitize=address"]
        elif part == "ubsan":
            out += ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]
            link += ["-fsanitize=undefined"]
        elif part == "tsan":
            out += ["-fsanitize=thread", "-fno-omit-frame-pointer"]
            link += ["-fsanitize=thread"]
        elif part == "clang":
            cc = "clang++"
        elif part == "ndebug":
            out += ["-DNDEBUG"]
        elif part:
            out.append(part)
    if not ISA[isa][1] <= FLAGS:
        return None
    return cc, out + ISA[isa][0], link


def scratch_root():
    """Memory-backed if there is room for it: the checks save and load a great many small files."""
    try:
        st = os.statvfs("/dev/shm")
        if os.access("/dev/shm", os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
            return "/dev/shm"
    except OSError:
        pass
    return None


def tree_hash():
    h = hashlib.sha256()
    for top in ("include", "benchmark"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(p[len(REPO):].encode() + b"\0")
                    h.update(open(p, "rb").read())
    for d in ("lib",):
        for f in sorted(os.listdir(os.path.join(ROOT, d))):
            h.update(f.encode() + open(os.path.join(ROOT, d, f), "rb").read())
    h.update("".join(repo_version()).encode())
    return h.hexdigest()


def compile_one(cmd, src, obj):
    tmp = obj + ".%d.tmp.o" % os.getpid()
    p = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode == 0:
        os.replace(tmp, obj)
    return p.returncode, p.stdout


def build(prop, variants=None):
    """Returns [(variant, binary or None, failed sources)]."""
    check = CHECKS[prop]
    os.makedirs(CACHE, exist_ok=True)
    tree = tree_hash()
    jobs, plans = {}, []
    for variant in variants or check["variants"]:
        ex = expand(variant)
        if ex is None:
            continue
        cc, flags, link = ex
        objs = []
        for src in check["sources"] + LIB_SOURCES:
            path = src.replace("{repo}", REPO)
            if not os.path.isabs(path):
                path = os.path.join(ROOT, path)
            cmd = [cc] + base_flags(check) + flags + [f.replace("{repo}", REPO) for f in check.get("flags", [])]
            if src in LIB_SOURCES:  # the engine itself does not depend on the ISA
                cmd = [cc, "-std=c++20", "-I" + os.path.join(ROOT, "lib"), "-O1"] + link
            near = "".join(open(os.path.join(os.path.dirname(path), f)).read()
                           for f in sorted(os.listdir(os.path.dirname(path))) if f.endswith(".hpp"))
            key = hashlib.sha256(("\0".join(cmd) + path + tree + near).encode() + open(path, "rb").read()).hexdigest()[:24]
            obj = os.path.join(CACHE, key + ".o")
            objs.append((src, obj))
            if not os.path.exists(obj):
                jobs[obj] = (cmd, path)
        plans.append((variant, cc, link, objs))
    errors = {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {ex.submit(compile_one, cmd, src, obj): (src, obj) for obj, (cmd, src) in jobs.items()}
        for f in cf.as_completed(futs):
            rc, text = f.result()
            if rc != 0:
                errors[futs[f][1]] = text
    out = []
    for variant, cc, link, objs in plans:
        failed = [s for s, o in objs if o in errors]
        for s, o in objs:
            if o in errors:
                lines = [x for x in errors[o].splitlines() if "error" in x][:4]
                print("could not compile %s (%s):\n%s" % (s, variant, "\n".join(lines)[:900]))
        good = [o for _, o in objs if o not in errors]
        if any(s in LIB_SOURCES for s in failed) or len(good) <= len(LIB_SOURCES):
            out.append((variant, None, failed))
            continue
        binary = os.path.join(CACHE, prop + "-" + hashlib.sha256("".join(good).encode()).hexdigest()[:20])
        if not os.path.exists(binary):
            tmp = binary + ".%d.tmp" % os.getpid()
            p = subprocess.run([cc] + link + good + ["-o", tmp, "-lfmt", "-lspdlog", "-lpthread"] + check.get("libs", []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                print("could not link (%s):\n%s" % (variant, p.stdout[:3000]))
                out.append((variant, None, failed + ["link"]))
                continue
            os.replace(tmp, binary)
        out.append((variant, binary, failed))
    return out


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3)))
    return found


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:"
                           "allocator_may_return_null=1:hard_rss_limit_mb=3500:handle_abort=1")
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:exitcode=66:report_signal_unsafe=0:suppressions=" + os.path.join(ROOT, "lib", "tsan.supp")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env.pop("SVS_LOG_LEVEL", None)
    env["SVS_LOG_LEVEL"] = "OFF"
    env["VERIF_ROOT"] = ROOT
    return env


def check(prop, tier, seed, seconds=None, only=None, keep=False):
    t0 = time.time()
    conf = CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir=scratch_root())
    stats, violation, missing = [], None, []
    try:
        for line in os.environ.get("VERIF_LIST", "").split():
            pass
        built = build(prop)
        print("built %s in %.1f s" % (prop, time.time() - t0), flush=True)
        usable = [b for b in built if b[1]]
        for variant, _, failed in built:
            missing += ["%s (%s)" % (f, variant) for f in failed]
        if not usable:
            print("nothing could be built")
            return 2
        total = seconds or (conf.get("seconds", 20) if tier == "quick" else conf.get("thorough_seconds", 600))
        share = conf.get("share")
        replay_dir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(replay_dir, exist_ok=True)
        for i, (variant, binary, _) in enumerate(usable):
            part = total / len(usable)
            if share and len(share) == len(usable):
                part = total * share[i] / sum(share)
            out = os.path.join(scratch, "out%d.json" % i)
            replay = os.path.join(replay_dir, "%s-%s-s%d.replay" % (prop, tier, seed))
            cmd = [binary, "--tier", tier, "--seed", str(seed), "--seconds", str(part),
                   "--workers", str(conf.get("workers", 8)), "--scratch", os.path.join(scratch, "run%d" % i),
                   "--out", out, "--replay-out", replay, "--tag", "%s:%s" % (prop, variant),
                   "--min-cases", str(conf.get("min_cases", 200)), "--hang", str(conf.get("hang", 60))]
            if only:
                cmd += ["--only", only]
            for key, _ in known_findings(prop):
                cmd += ["--known", key]
            p = subprocess.run(cmd, env=run_env())
            if os.path.exists(out):
                stats.append(json.load(open(out)))
            if p.returncode == 1 and stats and stats[-1]["violation"]:
                violation = replay
                break
            if p.returncode != 0:
                print("driver ended with status %d" % p.returncode)
                return 2
        write_evidence(prop, conf, tier, seed, stats, missing, violation, time.time() - t0)
        for key, text in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        for s in stats:
            print("%s: %d cases, %d distinct non-trivial, %.1f s %s" % (
                s["tag"], s["evaluations"], s["distinct_nontrivial"], s["wall_s"],
                ("UNREPRODUCED " + s["unreproduced"]) if s["unreproduced"] else ""))
        if violation:
            print("VIOLATION property=%s replay=%s" % (prop, violation))
            return 1
        print("%s held (%.1f s)" % (prop, time.time() - t0))
        return 0
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, conf, tier, seed, stats, missing, violation, wall):
    cov = {
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
        "rule": conf["rule"],
        "samples": [x for s in stats[:1] for x in s["samples"]][:24] or ["(stopped at the violation)"],
        "discarded": sum(s["discarded"] for s in stats),
        "binaries": [{k: s[k] for k in ("tag", "evaluations", "distinct_nontrivial", "wall_s", "groups", "labels",
                                        "unreproduced", "known_hit")} for s in stats],
    }
    if missing:
        cov["not_compiled"] = missing
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    if violation:
        ev["replay"] = violation
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    tag = [l.split(None, 1)[1].strip() for l in open(path) if l.startswith("tag ")][0]
    prop, variant = tag.split(":", 1)
    built = build(prop, [variant])
    scratch = tempfile.mkdtemp(prefix="vh-replay-", dir=scratch_root())
    try:
        return subprocess.run([built[0][1], "--scratch", scratch, "--replay", path], env=run_env()).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "setup", "build"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    if a.cmd == "check":
        return check(a.what, a.tier, a.seed, a.seconds, a.only, a.keep)
    if a.cmd == "replay":
        return replay(a.what)
    if a.cmd == "build":
        t = time.time()
        for b in build(a.what):
            print(b)
        print("%.1f s" % (time.time() - t))
        return 0
    # setup: check that the toolchain is there; every check compiles what it needs itself.
    for tool in ("g++",):
        if not shutil.which(tool):
            print("missing", tool)
            return 1
    os.makedirs(CACHE, exist_ok=True)
    print("ok")
    return 0


if __name__ == "__main__":
    sys.exit(main())
