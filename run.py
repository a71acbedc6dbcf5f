#!/usr/bin/env python3
"""Builds the harness of one property from /repo's current tree and runs it.

usage: run.py ID [--tier quick|thorough] [--only NAME] [--scale X] [--seed N]
       run.py --replay FILE
       run.py --build ID...        (build only)

Exit status: 0 held, 1 violation (VIOLATION line on stdout), other: error.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-20"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")

sys.path.insert(0, VERIF)
from areas import AREAS, CHECKS  # noqa: E402


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_sha = {}


def sha_cached(path):
    if path not in _sha:
        _sha[path] = sha(path) if os.path.isfile(path) else "missing"
    return _sha[path]


def parse_deps(path):
    text = open(path).read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    deps = []
    for d in text.split():
        if d.startswith("/usr/"):
            continue
        deps.append(d)
    return deps


def compile_one(src, flags):
    """Compile src unless an object of identical inputs is in the cache."""
    cmd = ["g++"] + flags
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    name = hashlib.sha256(("\0".join(cmd + [src])).encode()).hexdigest()[:32]
    base = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + name)
    obj, key = base + ".o", base + ".key"
    if os.path.isfile(obj) and os.path.isfile(key):
        deps = json.load(open(key))
        if all(sha_cached(d) == h for d, h in deps.items()):
            return obj, None
    tmp = base + ".%d" % os.getpid()
    r = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        for s in (".d", ".o"):
            if os.path.exists(tmp + s):
                os.unlink(tmp + s)
        return None, "%s\n%s" % (" ".join(cmd + [src]), r.stdout[-6000:])
    deps = {d: sha_cached(d) for d in parse_deps(tmp + ".d")}
    os.unlink(tmp + ".d")
    with open(tmp + ".key", "w") as f:
        json.dump(deps, f)
    os.replace(tmp + ".o", obj)
    os.replace(tmp + ".key", key)
    return obj, None


def tablegen():
    """Generate every dialect's tablegen output into a folder named by its inputs."""
    tds = sorted(glob.glob(REPO + "/include/marco/**/*.td", recursive=True)
                 + glob.glob(H + "/shim/**/*.td", recursive=True))
    h = hashlib.sha256()
    for t in tds:
        h.update(t.encode() + sha(t).encode())
    h.update(sha(os.path.join(VERIF, "tablegen.sh")).encode())
    out = os.path.join(BUILD, "gen-" + h.hexdigest()[:24])
    if not os.path.isdir(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["bash", os.path.join(VERIF, "tablegen.sh"), REPO, tmp, H + "/shim"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout)
            sys.exit(3)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


def expand(patterns):
    res = []
    for p in patterns:
        neg = p.startswith("!")
        g = sorted(glob.glob(os.path.join(REPO, p.lstrip("!"))))
        if neg:
            res = [x for x in res if x not in g]
        else:
            res += g
    return res


def build(check):
    c = CHECKS[check]
    a = AREAS[c["area"]]
    common = ["-std=gnu++17", "-g1", "-DNDEBUG", "-w", "-fno-rtti", "-fexceptions", "-pthread",
              "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
              '-DMARCO_VERSION="dev"', "-fno-lifetime-dse"]
    common += c.get("flags", a["flags"])
    inc = ["-I" + os.path.join(H, a["shim"])] if a.get("shim") else []
    inc += ["-I" + REPO + "/include", "-I" + REPO + "/lib"]
    if a.get("tablegen"):
        inc += ["-I" + tablegen()]
    inc += ["-isystem", LLVM + "/include", "-I" + H]
    jobs = [(s, common + inc) for s in expand(a["sources"])]
    jobs += [(os.path.join(H, s), common + inc) for s in c["harness"] + a.get("support", [])]
    jobs += [(os.path.join(H, "pbt.cpp"), common + inc)]
    # Longest first.
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    objs, errors = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        for o, e in ex.map(lambda j: compile_one(*j), jobs):
            if e:
                errors.append(e)
            else:
                objs.append(o)
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\n")
        sys.exit(3)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", check + ".%d" % os.getpid())
    cmd = ["g++", "-pthread"] + [f for f in common if f.startswith("-fsanitize")] + objs + \
          ["-o", exe, "-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib"] + a["libs"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.exit(3)
    return exe


def findings(prop):
    """(known, fixed) entries of the findings file."""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                f = line[len("known: "):].split(" ", 2)
                if f[0] == "property=" + prop:
                    known.append((f[1].split("=", 1)[1], f[2]))
    return known


def environment(prop, symbolize=False):
    env = dict(os.environ)
    env["PBT_RETRIES"] = str(CHECKS[prop].get("retries", 1))
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:detect_container_overflow=0:allow_user_poisoning=0:"
                           "allocator_may_return_null=1:hard_rss_limit_mb=3000:"
                           "detect_odr_violation=0:handle_abort=1:symbolize=%d:malloc_context_size=12") % symbolize
    env["TSAN_OPTIONS"] = ("exitcode=99:halt_on_error=1:report_signal_unsafe=0:symbolize=%d"
                           % True) + os.environ.get("TSAN_EXTRA", "") + ":suppressions=" + os.path.join(H, "tsan.supp")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only")
    ap.add_argument("--scale")
    ap.add_argument("--budget")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--no-known", action="store_true", help="do not exclude known findings")
    args = ap.parse_args()
    if args.selftest:
        # Nothing has to be prepared: every check builds what it needs.
        for tool in ("g++", LLVM + "/bin/mlir-tblgen"):
            if not shutil.which(tool):
                print("missing: " + tool)
                return 2
        return 0
    if args.build:
        for c in args.id or sorted(CHECKS):
            os.unlink(build(c))
        return 0
    if args.replay:
        prop = None
        for line in open(args.replay):
            if line.startswith("property="):
                prop = line.strip().split("=", 1)[1]
                break
        exe = build(prop)
        r = subprocess.run([exe, "--replay", os.path.abspath(args.replay)], env=environment(prop, True))
        os.unlink(exe)
        return r.returncode
    prop = args.id[0]
    t0 = time.time()
    exe = build(prop)
    built = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    tmpdir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    cmd = [exe, "--property", prop, "--tier", args.tier, "--seed", args.seed,
           "--evidence", os.path.join(VERIF, "evidence", prop + ".json"),
           "--replay-dir", os.path.join(VERIF, "replays"), "--tmp", os.path.join(tmpdir, "t"),
           "--jobs", str(min(8, os.cpu_count() or 8)), "--build-seconds", "%.1f" % built]
    for s in CHECKS[prop].get("assume", []):
        cmd += ["--assume", s]
    if args.only:
        cmd += ["--only", args.only]
    if args.scale:
        cmd += ["--scale", args.scale]
    if args.budget:
        cmd += ["--budget", args.budget]
    elif args.tier == "quick":
        cmd += ["--budget", "%.0f" % max(60, 560 - built)]
    if not args.no_known:
        for k, what in findings(prop):
            cmd += ["--known", k]
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, what), flush=True)
    env = environment(prop)
    env["PBT_TMP"] = tmpdir
    try:
        r = subprocess.run(cmd, env=env, cwd=tmpdir)
    finally:
        os.unlink(exe)
        shutil.rmtree(tmpdir, ignore_errors=True)
    return r.returncode if r.returncode in (0, 1) else 3


sys.exit(main())
