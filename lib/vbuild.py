"""Builds what a check needs from the current working tree of VERIF_REPO (/repo by
default) into /verif/.work, never writing into the repository.

Objects are cached under a key which hashes the whole source tree (include/, src/,
distributions/), the harness file and the command line, so that nothing stale is
ever reused; a fresh copy of /verif has no cache and builds everything it needs."""
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
VP = "/opt/vp"
PY = "/usr/bin/python3"


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_files(tops):
    for top in tops:
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            yield p
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "build", "_build"))
            for f in sorted(files):
                if not f.endswith((".so", ".pyc", ".swp")):
                    yield os.path.join(d, f)


_hash = {}


def tree_hash(tops):
    tops = tuple(tops)
    if tops not in _hash:
        h = hashlib.sha256()
        for f in tree_files(tops):
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read() + b"\0")
        _hash[tops] = h.hexdigest()[:24]
    return _hash[tops]


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fd:
            h.update(fd.read() + b"\0")
    return h.hexdigest()[:24]


class Graph:
    """A tiny parallel task graph. A task is (outputs exist?) skip : run(cmds)."""

    def __init__(self):
        self.tasks = {}

    def add(self, out, cmds, deps=(), weight=1.0):
        """cmds: list of argv lists or callables; `out` is both id and file."""
        if out not in self.tasks:
            self.tasks[out] = dict(cmds=cmds, deps=[d for d in deps if d], weight=weight)
        return out

    def run(self, log=sys.stderr):
        todo = {o for o in self.tasks if not os.path.exists(o)}
        # only what is missing; deps of a present output are irrelevant
        need, stack = set(), list(todo)
        while stack:
            o = stack.pop()
            if o in need:
                continue
            need.add(o)
        prio = {}

        def p(o):
            if o not in prio:
                prio[o] = self.tasks[o]["weight"] + max(
                    [p(x) for x in need if o in self.tasks[x]["deps"]] or [0])
            return prio[o]
        for o in need:
            p(o)
        done, running, failed = set(), set(), []
        cv = threading.Condition()

        def ready():
            return sorted((o for o in need if o not in done and o not in running
                           and all(d not in need or d in done for d in self.tasks[o]["deps"])),
                          key=lambda o: -prio[o])

        def work():
            while True:
                with cv:
                    while True:
                        if failed or len(done) == len(need):
                            cv.notify_all()
                            return
                        r = ready()
                        if r:
                            o = r[0]
                            running.add(o)
                            break
                        cv.wait()
                err = None
                try:
                    os.makedirs(os.path.dirname(o), exist_ok=True)
                    for c in self.tasks[o]["cmds"]:
                        if callable(c):
                            c()
                            continue
                        cwd = None
                        if isinstance(c, dict):
                            cwd, c = c["cwd"], c["cmd"]
                        r = subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        if r.returncode:
                            err = "%s\n%s" % (" ".join(c), r.stdout.decode(errors="replace")[-4000:])
                            break
                    if not err and not os.path.exists(o):
                        err = "no output " + o
                except Exception as e:  # noqa
                    err = "%s: %r" % (o, e)
                with cv:
                    running.discard(o)
                    if err:
                        failed.append(err)
                    else:
                        done.add(o)
                    cv.notify_all()
        ts = [threading.Thread(target=work) for _ in range(NCPU)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if failed:
            raise BuildError(failed[0])


def replace_step(tmp, out):
    return lambda: os.replace(tmp, out)


# ---------------------------------------------------------------- C++ library
CPPDEFS = ["-DDIST_DEBUG_LEVEL=3", "-DDIST_THROW_ON_ERROR"]
FAST = ["-msse4.1", "-mfpmath=sse", "-ffast-math", "-funsafe-math-optimizations"]
VARIANTS = {
    # flags of setup.py / CMakeLists.txt
    "prod": dict(lib=["-std=c++0x", "-O3"] + FAST, har=["-std=gnu++14", "-O1"] + FAST, link=[]),
    # CMAKE_CXX_FLAGS_RELEASE: assertions of every debug level are off, errors abort (the harness then offers no bad arguments)
    "rel": dict(defs=["-DNDEBUG=1"], lib=["-std=c++0x", "-O3"] + FAST, har=["-std=gnu++14", "-O1", "-DVH_RELEASE"] + FAST, link=[]),
    "asan": dict(
        lib=["-std=c++0x", "-O1", "-g1", "-msse4.1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
        har=["-std=gnu++14", "-O1", "-g1", "-msse4.1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
        link=["-fsanitize=address,undefined"]),
    "tsan": dict(
        lib=["-std=c++0x", "-O1", "-g1", "-msse4.1", "-fsanitize=thread"],
        har=["-std=gnu++14", "-O1", "-g1", "-msse4.1", "-fsanitize=thread"],
        link=["-fsanitize=thread"]),
    "vg": dict(lib=["-std=c++0x", "-O1", "-g", "-msse4.1"],
               har=["-std=gnu++14", "-O1", "-g", "-msse4.1"], link=[]),
}


def cppdefs(variant):
    return list(VARIANTS[variant].get("defs", CPPDEFS))


LIBSRC = ["common", "special", "random", "vector_math", "clustering", "models/nich", "models/gp", "models/niw"]


def gen_dir():
    return os.path.join(WORK, "gen", file_hash(os.path.join(REPO, "distributions/io/schema.proto")))


def add_proto(g):
    """protoc output (C++ and Python), as build.sh makes it."""
    d = gen_dir()
    stamp = d + "/schema.stamp"
    tmp = d + ".%d.tmp" % os.getpid()

    def prep():
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp + "/include/distributions/io")
        os.makedirs(tmp + "/py")

    def fin():
        open(tmp + "/schema.stamp", "w").close()
        shutil.rmtree(d, ignore_errors=True)
        os.replace(tmp, d)
    g.add(stamp, [prep, dict(cwd=REPO, cmd=["protoc", "--cpp_out=" + tmp + "/include", "--python_out=" + tmp + "/py",
                                            "distributions/io/schema.proto"]), fin], weight=2)
    return stamp


def inc():
    return ["-I" + gen_dir() + "/include", "-I" + os.path.join(REPO, "include")]


def add_obj(g, src, variant, flags, key, deps=(), weight=3.0, shared_flags=()):
    out = os.path.join(WORK, "obj", variant, sha(key, file_hash(src), *flags) + "-" +
                       os.path.basename(src).replace("/", "_") + ".o")
    tmp = out + ".%d.tmp.o" % os.getpid()
    g.add(out, [["g++", "-w", "-fPIC"] + flags + inc() + list(shared_flags) + ["-c", src, "-o", tmp],
                replace_step(tmp, out)], deps, weight)
    return out


def repo_key():
    return tree_hash(["include", "src", "distributions/io/schema.proto"])


def lib_objs(g, variant, want=None, proto=False):
    objs = []
    for s in (want or LIBSRC):
        fl = cppdefs(variant) + list(VARIANTS[variant]["lib"])
        w = 3.0
        if s == "models/niw":
            fl = [("-O1" if x == "-O3" else x) for x in fl]
            w = 15.0
        objs.append(add_obj(g, os.path.join(REPO, "src", s + ".cc"), variant, fl, repo_key(), weight=w))
    if proto:
        stamp = add_proto(g)
        src = gen_dir() + "/include/distributions/io/schema.pb.cc"
        fl = ["-std=gnu++14", "-O0"] + [f for f in VARIANTS[variant]["lib"] if f.startswith("-fsanitize=thread")]
        out = os.path.join(WORK, "obj", "tsan" if len(fl) > 2 else "plain", os.path.basename(gen_dir()) + "-schema.pb.o")
        tmp = out + ".%d.tmp.o" % os.getpid()
        g.add(out, [["g++", "-w", "-fPIC"] + fl + inc() + ["-c", src, "-o", tmp], replace_step(tmp, out)], [stamp], 6.0)
        objs.append(out)
    return objs


def har_headers():
    d = os.path.join(VERIF, "cpp")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".hpp")]


def add_bin(g, name, srcs, variant="prod", want=None, proto=False, defs=(), ref=True, weight=8.0, libs=(), har=None):
    """srcs: harness sources (in /verif/cpp), compiled with the variant's flags."""
    key = sha(repo_key(), file_hash(*har_headers()))
    stamp = add_proto(g) if proto else None
    objs = []
    for s in srcs:
        src = os.path.join(VERIF, "cpp", s)
        objs.append(add_obj(g, src, variant, cppdefs(variant) + list(har or VARIANTS[variant]["har"]) + list(defs), key,
                            [stamp], weight))
    if ref:  # reference functions: no fast-math, no sanitizer
        objs.append(add_obj(g, os.path.join(VERIF, "cpp", "ref.cc"), "ref", ["-std=gnu++14", "-O2"],
                            file_hash(*har_headers()), weight=3.0))
    objs += lib_objs(g, variant, want, proto)
    out = os.path.join(WORK, "bin", sha(*objs) + "-" + name)
    tmp = out + ".%d.tmp" % os.getpid()
    g.add(out, [["g++"] + VARIANTS[variant]["link"] + objs + ["-o", tmp, "-lpthread"] +
                (["-lprotobuf"] if proto else []) + list(libs), replace_step(tmp, out)], objs, 1.0)
    return out


# ---------------------------------------------------------------- Python tree
HP = ["has_cython", "rng_cc", "global_rng", "_eigen", "hp.special", "hp.random",
      "hp.models.dd", "hp.models.gp", "hp.models.nich"]
LPBASE = ["lp.special", "lp.random", "lp.vector"]
LPMODELS = ["bb", "dd", "dpd", "gp", "bnb", "nich", "niw"]


def lp_models(names):
    return [x for n in names for x in ("lp.models.%s" % n, "lp.models._%s" % n)]


ALLEXT = HP + LPBASE + lp_models(LPMODELS) + ["lp.clustering", "lp.mixture"]
EXTW = {"_niw": 13, "random": 8, "_dpd": 7, "clustering": 7}


def py_tree(g, exts):
    """Mirrors the Python package (2to3, protoc) and builds the named extensions.
    Returns (tree path, [outputs])."""
    key = sha(tree_hash(["include", "src", "distributions", "examples", "setup.py"]), "4")
    tree = os.path.join(WORK, "py", key)
    stamp = tree + "/.mirrored"
    pstamp = add_proto(g)

    def mirror():
        spec = importlib.util.spec_from_file_location("vp_sync", VP + "/sync.py")
        m = importlib.util.module_from_spec(spec)
        sys.modules["vp_sync"] = m
        spec.loader.exec_module(m)
        m.SRC, m.DST, m.CACHE = REPO, tree, os.path.join(WORK, "2to3-cache")
        os.makedirs(tree, exist_ok=True)
        bad = m.main()
        if bad:
            raise BuildError("sync failed")
        gd = gen_dir()
        shutil.copy(gd + "/py/distributions/io/schema_pb2.py", tree + "/distributions/io/schema_pb2.py")
        for f in ("schema.pb.h", "schema.pb.cc"):
            shutil.copy(gd + "/include/distributions/io/" + f, tree + "/include/distributions/io/" + f)
        open(stamp, "w").close()
    g.add(stamp, [mirror], [pstamp], 10.0)
    outs = [stamp]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    if PY != sys.executable:
        suffix = subprocess.check_output(
            [PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().strip()
    pyinc = subprocess.check_output(
        [PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include'],numpy.get_include())"]).decode().split()
    sosrc = lib_objs(g, "prod", proto=False)
    libdir = tree + "/.lib"
    so = libdir + "/libdistributions_shared.so"
    # linked as cmake links it, with the compile flags (so crtfastmath is in, as in production)
    g.add(so, [["g++", "-shared", "-fPIC"] + FAST + sosrc + ["-o", so + ".tmp", "-lm"],
               replace_step(so + ".tmp", so)], sosrc + [stamp], 1.0)
    flags = CPPDEFS[:1] + ["-DDIST_THROW_ON_ERROR=1", "-std=c++0x", "-O1", "-ffast-math",
                           "-funsafe-math-optimizations", "-mfpmath=sse", "-msse4.1", "-w", "-fPIC"]
    for e in exts:
        rel = "distributions/" + e.replace(".", "/") + ".pyx"
        cpp = tree + "/.ext/distributions.%s.cpp" % e
        out = tree + "/distributions/" + e.replace(".", "/") + suffix
        w = next((v for k, v in EXTW.items() if e.endswith(k)), 4)
        libs = ["-L" + libdir, "-Wl,-rpath," + libdir, "-ldistributions_shared", "-lm"] if e.startswith("lp") else ["-lm"]
        mk = (lambda: os.makedirs(tree + "/.ext", exist_ok=True))
        g.add(out, [mk, dict(cwd=tree, cmd=["env", "PYTHONPATH=/opt/vp/cython029", "PYTHONDONTWRITEBYTECODE=1", PY, "-m", "cython", "-2", "--cplus",
                                        "-I", ".", rel, "-o", cpp]),
                    ["g++"] + flags + ["-I" + tree + "/include", "-I" + tree + "/distributions", "-I" + tree] +
                    ["-I" + x for x in pyinc] + ["-c", cpp, "-o", cpp + ".o"],
                    ["g++", "-shared", cpp + ".o", "-o", out + ".tmp"] + libs, replace_step(out + ".tmp", out)],
              [stamp, so if e.startswith("lp") else None], w)
        outs.append(out)
    return tree, outs


def prune(keep=6):
    """Drop old trees/objects so the cache stays small."""
    for sub in ("py", "bin", "gen"):
        d = os.path.join(WORK, sub)
        if os.path.isdir(d):
            xs = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
            lim = keep if sub != "bin" else 60
            for x in xs[:-lim]:
                shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.unlink(x)
    d = os.path.join(WORK, "obj")
    if os.path.isdir(d):
        now = time.time()
        for dd, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(dd, f)
                if now - os.path.getmtime(p) > 6 * 3600:
                    os.unlink(p)


if __name__ == "__main__":
    t = time.time()
    g = Graph()
    tree, outs = py_tree(g, ALLEXT)
    g.run()
    print(tree, time.time() - t)
