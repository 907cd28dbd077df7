"""Build + run machinery shared by all checks (see DESIGN.md)."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = max(2, min(8, os.cpu_count() or 8))

DEFS = ["-DLINUX", "-D__NO_COPYRIGHT__", "-D__USE_LONG_INTEGERS__", "-D__USE_LONG_FINTS__"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
WARN = ["-w"]
VARIANTS = {
    "asan":  dict(cxx="clang++", flags=["-O1", "-gline-tables-only"] + SAN),
    "plain": dict(cxx="g++", flags=["-O2", "-g1"]),
    "msan":  dict(cxx="clang++", flags=["-O1", "-gline-tables-only", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "tsan":  dict(cxx="clang++", flags=["-O1", "-gline-tables-only", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
    "cov":   dict(cxx="clang++", flags=["-O0", "-g", "-fprofile-instr-generate", "-fcoverage-mapping"]),
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:color=never",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99:color=never",
    "MSAN_OPTIONS": "exitcode=99:color=never",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:color=never:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp"),
    "LSAN_OPTIONS": "exitcode=99",
}


class BuildError(Exception):
    pass


def _hash_tree(paths, extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(e.encode() + b"\0")
    files = []
    for p in paths:
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _object(cmd, src, deps):
    """Compile one source file; the result is cached by the contents of everything it is made of."""
    o = os.path.join(BUILD, "obj-%s-%s.o" % (os.path.splitext(os.path.basename(src))[0], _hash_tree(deps, cmd)))
    if not os.path.exists(o):
        os.makedirs(BUILD, exist_ok=True)
        t = "%s.tmp%d.%d" % (o, os.getpid(), threading.get_ident())
        _run(cmd + ["-c", src, "-o", t])
        os.rename(t, o)
    else:
        try:
            os.utime(o)
        except OSError:
            pass
    return o


INTERFACES = ("c", "octave", "matlab", "simulink", "scilab")


def build_lib(variant, schur=False, defs=None):
    """Compile /repo/src into a static archive for one sanitizer variant (content-hashed cache)."""
    v = VARIANTS[variant]
    d = list(DEFS if defs is None else defs)
    d += ["-DSOLVER_" + (schur if isinstance(schur, str) else "MA57")] if schur else ["-DSOLVER_NONE"]
    key = _hash_tree([REPO + "/src", REPO + "/include"], [variant, v["cxx"]] + v["flags"] + d)
    out = os.path.join(BUILD, "lib-%s%s-%s" % (variant, "-schur" if schur else "", key))
    lib = os.path.join(out, "libqp.a")
    if os.path.exists(lib):
        return lib
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    srcs = sorted(f for f in os.listdir(REPO + "/src") if f.endswith(".cpp"))
    srcs.sort(key=lambda f: -os.path.getsize(os.path.join(REPO, "src", f)))

    aux = sorted(os.path.join(REPO, "src", f) for f in os.listdir(REPO + "/src") if not f.endswith((".cpp", ".o", ".d")) and os.path.isfile(os.path.join(REPO, "src", f)))

    def one(f):
        # the bundled LAPACK replacement has empty stand-ins where the Schur-complement solver needs real routines
        ren = ["-D%s_=vf_unused_%s" % (x, x) for x in ("dtrtrs", "dtrcon")] if schur and f.startswith("LAPACK") else []
        o = _object([v["cxx"]] + v["flags"] + WARN + d + ren + ["-I" + REPO + "/include"], os.path.join(REPO, "src", f), [REPO + "/include", os.path.join(REPO, "src", f)] + aux)
        shutil.copy(o, os.path.join(tmp, f[:-4] + ".o"))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, srcs))
    _run(["ar", "rcs", os.path.join(tmp, "libqp.a")] + [os.path.join(tmp, f[:-4] + ".o") for f in srcs])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return lib


def build_driver(src, variant, schur=False, defs=None, extra=(), more=()):
    v = VARIANTS[variant]
    lib = build_lib(variant, schur, defs)
    d = list(DEFS if defs is None else defs)
    d += ["-DSOLVER_" + (schur if isinstance(schur, str) else "MA57")] if schur else ["-DSOLVER_NONE"]
    hdir = os.path.join(VERIF, "harness")
    key = _hash_tree([hdir, lib] + ([REPO + "/interfaces/" + d for d in INTERFACES] if more else []), [src, variant] + v["flags"] + d + list(extra) + list(more))
    exe = os.path.join(BUILD, "drv-%s-%s%s-%s" % (os.path.splitext(src)[0], variant, "-schur" if schur else "", key))
    if os.path.exists(exe):
        return exe
    srcs = [os.path.join(hdir, src)] + [os.path.join(hdir, f) for f in more] + ([os.path.join(hdir, "ma57_stub.cpp")] if schur else [])
    deps = [hdir, REPO + "/include"] + ([REPO + "/interfaces/" + i for i in INTERFACES] if more else [])
    inc = ["-I" + REPO + "/include", "-I" + hdir, "-I" + hdir + "/mexmock", "-I" + hdir + "/simmock"]

    def one(f):
        if f.endswith(".c"):             # a plain C translation unit
            cmd = [v["cxx"].replace("clang++", "clang").replace("g++", "gcc")]
        else:
            cmd = [v["cxx"], "-std=c++11"]
        return _object(cmd + v["flags"] + WARN + d + list(extra) + inc, f, deps)
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, srcs))
    _run([v["cxx"]] + v["flags"] + objs + [lib, "-lpthread", "-lm", "-o", exe + ".tmp%d" % os.getpid()])
    os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe


class Result:
    def __init__(self):
        self.viol = []      # (key, case, detail, replaycmd, report)
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.cases = 0
        self.errors = []
        self.inconclusive = []
        self.lock = threading.Lock()


_frame = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+?:\d+)(?::\d+)?$")


def crash_key(err, rc):
    """Stable key for a crash: sanitizer kind + innermost library function (no line numbers)."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|MemorySanitizer|ThreadSanitizer): (.+)", err) or \
        re.search(r"WARNING: (AddressSanitizer|LeakSanitizer|MemorySanitizer|ThreadSanitizer): (.+)", err)
    if m:
        kind = m.group(1)[:1] + "San-" + re.sub(r"[^A-Za-z]+", "-", m.group(2).split(" on ")[0].split("(")[0]).strip("-")[:40]
    else:
        m = re.search(r"runtime error: (.+)", err)
        if m:
            kind = "UBSan-" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|[-\d.e+]+", "", m.group(1)))[:50].strip("-")
    if kind is None:
        kind = "exit%d" % rc
    fn = ""
    for line in err.splitlines():
        m = _frame.search(line.strip())
        if m and (REPO in m.group(2)):
            fn = re.sub(r"\(.*", "", m.group(1)).replace("qpOASES::", "")
            break
    return "%s@%s" % (kind, fn)


def _run_range(exe, args, lo, hi, res, tmpdir, cpu, wall, label, maxcrash=6):
    """Run [lo,hi) of a driver, surviving crashes: a crash is recorded and the run resumes behind it."""
    crashes = 0
    cur = lo
    while cur < hi:
        prog = os.path.join(tmpdir, "prog-%s-%s-%d" % (os.path.basename(exe), label, lo))
        cmd = [exe] + args + ["--from", str(cur), "--to", str(hi), "--cpu", str(cpu), "--progress", prog]
        env = dict(os.environ); env.update(ENV); env["VF_TMP"] = tmpdir; env["VF_REPO"] = REPO
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=wall, cwd=tmpdir)
            out, err, rc = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace"), -999
        done = False
        hang = None
        with res.lock:
            for line in out.splitlines():
                f = line.split("\t")
                if f[0] == "VIOL" and len(f) >= 4:
                    res.viol.append((f[2], int(f[1]), f[3], [exe] + args, "", label))
                elif f[0] == "STAT":
                    k, v = f[1], int(f[2])
                    if k.startswith("max_"):
                        res.stats[k] = max(res.stats.get(k, -10**9), v)
                    else:
                        res.stats[k] = res.stats.get(k, 0) + v
                elif f[0] == "SIG":
                    res.sigs.add(f[1])
                elif f[0] == "SAMPLE" and len(res.samples) < 6:
                    res.samples.append(f[2])
                elif f[0] == "HANG":
                    hang = int(f[1])
                elif f[0] == "DONE":
                    done = True
        if done and rc == 0:
            with res.lock:
                res.cases += hi - cur
            return
        try:
            c = int(open(prog).read().split()[0])
        except Exception:
            c = cur
        if rc == -999:                      # wall watchdog: inconclusive, re-run that case alone once
            with res.lock:
                res.inconclusive.append("%s case %d: wall watchdog" % (label, c))
            key = None
        elif hang is not None:
            # CPU budget exceeded: confirm alone with a three times larger budget
            env2 = dict(os.environ); env2.update(ENV); env2["VF_TMP"] = tmpdir; env2["VF_REPO"] = REPO
            try:
                q = subprocess.run([exe] + args + ["--from", str(hang), "--to", str(hang + 1), "--cpu", str(3 * cpu)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env2, timeout=wall, cwd=tmpdir)
                again = b"HANG" in q.stdout
            except subprocess.TimeoutExpired:
                again = False
            key = "hang" if again else None
            c = hang
            if not again:
                with res.lock:
                    res.inconclusive.append("%s case %d: slow, finished when re-run" % (label, c))
        elif rc == 99 or rc < 0 or "Sanitizer" in err or "runtime error" in err:
            key = crash_key(err, rc)
        elif done:                           # e.g. leak report at exit
            key = crash_key(err, rc)
        else:                                # the process ended itself: library code called exit() or the like
            key = "abnormal-exit-%d" % rc
        if key:
            with res.lock:
                if done and "LeakSanitizer" in err:
                    res.viol.append((key, -1, "leak over cases %d..%d" % (cur, hi), [exe] + args, err[-12000:], label))
                    res.cases += hi - cur
                    return
                res.viol.append((key, c, "run aborted: " + key, [exe] + args, err[-12000:], label))
        with res.lock:
            res.cases += max(0, c - cur) + 1
        cur = c + 1
        crashes += 1
        if crashes >= maxcrash:
            return


def run_parts(parts, seed, thorough, res, tmpdir):
    """parts: list of dict(src, variant, cases=(quick,thorough), shards, cpu, wall, schur, args)."""
    jobs = []
    builds = {}
    def b(p):
        k = (p["src"], p["variant"], p.get("schur", False), tuple(p.get("defs") or ()), tuple(p.get("more") or ()), tuple(p.get("extra") or ()))
        if k not in builds:
            builds[k] = build_driver(p["src"], p["variant"], p.get("schur", False), p.get("defs"), p.get("extra", ()), p.get("more", ()))
        return builds[k]
    locks = {}                           # parts that need different libraries are built side by side
    def prebuild(p):
        with locks[(p["variant"], p.get("schur", False), tuple(p.get("defs") or ()))]:
            b(p)
    for p in parts:
        locks.setdefault((p["variant"], p.get("schur", False), tuple(p.get("defs") or ())), threading.Lock())
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(prebuild, parts))
    for p in parts:
        exe = b(p)
        n = p["cases"][1 if thorough else 0]
        if n <= 0:
            continue
        sh = p.get("shards", 16)
        sh = max(1, min(sh, n))
        args = ["--seed", str(seed), "--variant", p["variant"]] + (["--thorough"] if thorough else []) + list(p.get("args", []))
        step = (n + sh - 1) // sh
        for lo in range(0, n, step):
            jobs.append((exe, args, lo, min(n, lo + step), res, tmpdir, p.get("cpu", 20), p.get("wall", 600 if not thorough else 5400), p.get("label") or os.path.splitext(p["src"])[0] + "-" + p["variant"]))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: _run_range(*j), jobs))


def prune_cache(keep_hours=3):
    if not os.path.isdir(BUILD):
        return
    now = time.time()
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try:
            if now - os.path.getmtime(p) > keep_hours * 3600:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        except OSError:
            pass
