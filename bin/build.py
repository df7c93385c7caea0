#!/usr/bin/env python3
"""Builds the instrumented binaries from /repo's current working tree into /verif/build (git-ignored).

Objects are cached under the hash of everything that can influence them (flags, the source, every header of the
repository and of the harness), so a changed tree can never be served by stale objects.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

SAN = {
    # signed overflow and float-to-int range are left out: they only change values (no memory effects); what matters is the answer
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,float-cast-overflow,vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -g1",
}
WRAP = ["pthread_%s" % x for x in ("mutex_lock", "mutex_trylock", "mutex_unlock", "rwlock_rdlock", "rwlock_wrlock", "rwlock_tryrdlock", "rwlock_trywrlock", "rwlock_unlock")] \
    + ["__tsan_func_entry"] + ["__tsan_atomic%d_%s" % (b, o) for b in (8, 32, 64) for o in ("load", "store")]
LINK_SAN = {"asan": "-fsanitize=address,undefined", "tsan": "-fsanitize=thread " + " ".join("-Wl,--wrap=" + w for w in WRAP), "plain": ""}
SLOW = {"transit_routing_http_server.cpp": "-O0", "osrmgeofilter.cpp": "-O0"}
COMMON = "-std=c++17 -DBOOST_BIND_GLOBAL_PLACEHOLDERS -Wno-everything -pthread"
LIBS = "-lcapnp -lkj -lboost_program_options -lboost_filesystem -lboost_system -lboost_thread -lpthread"

class BuildError(Exception):
    pass

def am_sources(path, var):
    txt = open(path).read()
    txt = "\n".join(l for l in txt.split("\n") if not l.lstrip().startswith("#"))
    txt = txt.replace("\\\n", " ")
    m = re.search(r"^%s\s*\+?=\s*(.*)$" % re.escape(var), txt, re.M)
    if not m:
        raise BuildError("no %s in %s" % (var, path))
    d = os.path.dirname(path)
    return [os.path.normpath(os.path.join(d, f)) for f in m.group(1).split() if f.endswith(".cpp")]

def repo_sources():
    a = am_sources(REPO + "/src/Makefile.am", "trRouting_SOURCES")
    b = am_sources(REPO + "/connection_scan_algorithm/src/Makefile.am", "libcsa_la_SOURCES")
    seen, r = set(), []
    for f in a + b:
        if f not in seen:
            seen.add(f)
            r.append(f)
    main = [f for f in r if re.search(r"^\s*int\s+main\s*\(", open(f, errors="replace").read(), re.M)]
    return [f for f in r if f not in main], main

def digest_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def headers(*dirs):
    r = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if not x.startswith(".")]
            r += [os.path.join(root, f) for f in fs if f.endswith((".hpp", ".h", ".capnp", ".tcc", ".ipp", ".inl"))]
    return r

def run(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Builder:
    def __init__(self, jobs=8):
        self.jobs = jobs
        self.pool = concurrent.futures.ThreadPoolExecutor(jobs)
        os.makedirs(BUILD + "/obj", exist_ok=True)
        os.makedirs(BUILD + "/bin", exist_ok=True)
        self.gen = self.capnp()
        self.repo_hdr = digest_files(headers(REPO + "/include", REPO + "/src", REPO + "/connection_scan_algorithm"))
        self.harness_hdr = digest_files(headers(HARNESS))
        self.realspd = False
        self.compiled = 0
        self.reused = 0

    def capnp(self):
        src = sorted(glob.glob(REPO + "/include/capnp/*.capnp"))
        key = digest_files(src)[:16]
        out = BUILD + "/gen-" + key
        if not os.path.exists(out + "/.done"):
            tmp = out + ".tmp%d" % os.getpid()
            os.makedirs(tmp + "/capnp", exist_ok=True)
            r = run(["capnp", "compile", "-oc++:" + tmp + "/capnp"] + [os.path.basename(s) for s in src], cwd=REPO + "/include/capnp")
            if r.returncode:
                raise BuildError("capnp: " + r.stdout)
            open(tmp + "/.done", "w").close()
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp)
        return out

    def flags(self, san, src, harness, real):
        f = SAN[san]
        b = os.path.basename(src)
        if harness and b == "perturb.cpp":
            f = SAN["plain"] # not instrumented: its own synchronisation must not hide races
        if not harness and b in SLOW:
            f = re.sub(r"-O\d", SLOW[b], f)
        inc = "-I%s -I%s -I%s/include -I%s/connection_scan_algorithm/include" % (self.gen, self.gen + "/capnp", REPO, REPO)
        if harness:
            inc = "-I%s " % HARNESS + inc
        if real:
            inc += " -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL"
        else:
            inc = "-I%s/stub " % HARNESS + inc
        return "%s %s %s" % (COMMON, f, inc)

    def obj(self, san, src, harness=False, real=False):
        fl = self.flags(san, src, harness, real)
        h = hashlib.sha256((fl + "\0" + src + "\0" + self.repo_hdr + (self.harness_hdr)).encode())
        with open(src, "rb") as f:
            h.update(f.read())
        o = BUILD + "/obj/" + os.path.basename(src)[:-4] + "-" + h.hexdigest()[:20] + ".o"
        if os.path.exists(o):
            self.reused += 1
            return o, None
        tmp = o + ".tmp%d" % os.getpid()
        r = run("clang++ %s -c %s -o %s" % (fl, src, tmp))
        if r.returncode:
            return None, "%s:\n%s" % (src, r.stdout[-3000:])
        os.rename(tmp, o)
        self.compiled += 1
        return o, None

    def objs(self, san, files, real=False):
        """files: [(src, harness?)]"""
        # slowest first
        order = sorted(files, key=lambda f: (os.path.basename(f[0]) not in SLOW, -os.path.getsize(f[0])))
        res = dict(zip([f[0] for f in order], self.pool.map(lambda f: self.obj(san, f[0], f[1], real), order)))
        errs = [e for (_, e) in res.values() if e]
        if errs:
            raise BuildError("\n".join(errs))
        return [res[f[0]][0] for f in files]

    def capnp_objs(self, san):
        return sorted(glob.glob(self.gen + "/capnp/*.capnp.c++"))

    def link(self, san, objs, name, real):
        key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:20]
        out = BUILD + "/bin/%s-%s-%s" % (name, san, key)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = run("clang++ -pthread %s %s -o %s %s %s" % (LINK_SAN[san], " ".join(objs), tmp, LIBS, "-lspdlog -lfmt" if real else ""))
            if r.returncode:
                raise BuildError("link %s: %s" % (name, r.stdout[-4000:]))
            os.rename(tmp, out)
        return out

    def capnp_lib(self, san):
        # generated schema code: compiled once, uninstrumented
        r = []
        def one(c):
            o = c[:-len(".c++")] + ".o"
            if not os.path.exists(o):
                tmp = o + ".tmp%d" % os.getpid()
                x = run("clang++ -std=c++17 -O0 -w -x c++ -I%s -I%s/capnp -c %s -o %s" % (self.gen, self.gen, c, tmp))
                if x.returncode:
                    raise BuildError(x.stdout)
                os.rename(tmp, o)
            return o
        return list(self.pool.map(one, self.capnp_objs(san)))

    def build(self, targets):
        """targets: list of (name, san, [harness sources], with_main) -> list of paths"""
        lib, main = repo_sources()
        out = []
        for real in (False, True):
            try:
                # compile everything needed first, in one parallel wave per sanitizer
                cap = self.capnp_lib("")
                plan = {}
                for name, san, hs, with_main in targets:
                    l = plan.setdefault(san, [])
                    for f in [(x, False) for x in lib] + ([(x, False) for x in main] if with_main else []) + [(os.path.join(HARNESS, h), True) for h in hs]:
                        if f not in l:
                            l.append(f)
                comp = {}
                for san, l in plan.items():
                    comp[san] = dict(zip([f[0] for f in l], self.objs(san, l, real)))
                out = []
                for name, san, hs, with_main in targets:
                    # repository objects first: shared inline functions resolve to their instrumented copies
                    os_ = [comp[san][f] for f in lib] + ([comp[san][f] for f in main] if with_main else []) + [comp[san][os.path.join(HARNESS, h)] for h in hs]
                    out.append(self.link(san, os_ + cap, name, real))
                self.realspd = real
                return out
            except BuildError as e:
                if real:
                    raise
                sys.stderr.write("build with the logging stub failed, retrying with the real spdlog headers\n%s\n" % str(e)[:1500])
        return out

HARNESS_SRC = ["model.cpp", "oracle.cpp", "gen.cpp", "runner.cpp", "http.cpp", "sut.cpp", "cachewriter.cpp", "live.cpp", "faults.cpp", "main.cpp"]
TARGETS = {
    "calc": ("calc", "asan", HARNESS_SRC + ["checks_calc.cpp", "checks_data.cpp", "pick_calc.cpp"], False),
    "http": ("http", "asan", HARNESS_SRC + ["checks_calc.cpp", "checks_data.cpp", "checks_http.cpp", "pick_http.cpp"], False),
    "race": ("race", "tsan", HARNESS_SRC + ["checks_calc.cpp", "checks_data.cpp", "checks_race.cpp", "pick_race.cpp", "perturb.cpp"], False),
    "server-asan": ("server", "asan", [], True),
    "server-tsan": ("server", "tsan", ["perturb.cpp"], True),
}

def build(names, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = Builder()
        r = b.build([TARGETS[n] for n in names])
    info = {"compiled": b.compiled, "reused": b.reused, "seconds": round(time.time() - t, 1), "real_spdlog": b.realspd}
    return dict(zip(names, r)), info

if __name__ == "__main__":
    try:
        r, info = build(sys.argv[1:] or ["calc"])
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
    print(info)
    for k, v in r.items():
        print(k, v)
