"""Builds /repo's working tree for the checks, outside of /repo. Everything is keyed by content."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")


class BuildError(Exception):
    pass


def scratch(name):
    d = os.path.join(CACHE, name)
    os.makedirs(d, exist_ok=True)
    return d


def cleanup(d):
    assert os.path.abspath(d).startswith(CACHE + os.sep)
    shutil.rmtree(d, ignore_errors=True)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, suffixes):
    r = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        r += [os.path.join(d, f) for f in sorted(files) if f.endswith(suffixes)]
    return r


def prune(pattern, keep, n):
    """Keep the cache small: drop all but the n most recent entries."""
    e = sorted((p for p in glob.glob(os.path.join(CACHE, pattern)) if p not in keep), key=os.path.getmtime)
    for p in e[: max(0, len(e) - n)]:
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def cpp():
    """The C++ fuzzer (AddressSanitizer), returns the path of the executable."""
    src = os.path.join(REPO, "dwave/optimization/src")
    inc = os.path.join(REPO, "dwave/optimization/include")
    cxx = os.environ.get("CXX", "g++")
    flags = ["-std=c++20", "-O1", "-g1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer", "-w",
             "-I" + inc, "-I" + src]
    headers = tree(inc, (".hpp", ".h")) + tree(src, (".hpp", ".h"))
    hh = digest(*[x for p in headers for x in (os.path.relpath(p, REPO), read(p))], " ".join(flags))
    own = tree(os.path.join(HERE, "cpp"), (".hpp",))
    oh = digest(*[read(p) for p in own])
    jobs = []
    harness = os.path.join(HERE, "cpp", "dwofuzz.cpp")
    objdir = scratch("obj")
    jobs.append((harness, os.path.join(objdir, digest(hh, oh, read(harness)) + ".o"), ["-I" + os.path.join(HERE, "cpp")]))
    for p in sorted(tree(src, (".cpp",)), key=lambda p: -os.path.getsize(p)):
        jobs.append((p, os.path.join(objdir, digest(hh, os.path.relpath(p, REPO), read(p)) + ".o"), []))
    exe = os.path.join(scratch("exe"), digest(*[o for _, o, _ in jobs]))
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(exe)
            return exe

        def one(job):
            s, o, extra = job
            if os.path.exists(o):
                os.utime(o)
                return
            fd, t = tempfile.mkstemp(suffix=".o", dir=objdir)
            os.close(fd)
            r = subprocess.run([cxx] + flags + extra + ["-c", s, "-o", t], capture_output=True, text=True)
            if r.returncode:
                os.unlink(t)
                raise BuildError(f"{s}:\n{r.stderr}")
            os.replace(t, o)

        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(one, jobs))
        t = exe + ".tmp"
        r = subprocess.run([cxx, "-fsanitize=address"] + [o for _, o, _ in jobs] + ["-o", t], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        os.replace(t, exe)
        prune("obj/*.o", {o for _, o, _ in jobs}, 60)
        prune("exe/*", {exe}, 6)
    return exe


PYTHON = "/opt/dwo-venv/bin/python"


def py(asan=False):
    """The Python package, built from the working tree; returns how to run the Python fuzzer with it.

    The extension modules are compiled without optimisation (they only call into the library), the
    library itself as in a release (NDEBUG); with asan everything has AddressSanitizer.
    """
    pkg = os.path.join(REPO, "dwave/optimization")
    src, inc = os.path.join(pkg, "src"), os.path.join(pkg, "include")
    cxx = os.environ.get("CXX", "g++")
    pyinc = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_path('include'))"],
                           capture_output=True, text=True).stdout.strip()
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
    base = [cxx, "-std=c++20", "-DNDEBUG", "-fPIC", "-g1", "-w", "-I" + inc, "-I" + src] + san
    headers = tree(inc, (".hpp", ".h")) + tree(src, (".hpp", ".h"))
    hh = digest(*[x for p in headers for x in (os.path.relpath(p, REPO), read(p))], " ".join(base))
    pyx = [p for p in tree(pkg, (".pyx",))]
    cyh = digest(*[x for p in pyx + tree(pkg, (".pxd", ".pxi")) for x in (os.path.relpath(p, REPO), read(p))])
    pure = [p for p in tree(os.path.join(REPO, "dwave"), (".py",))]
    objdir = scratch("obj")
    jobs = [(None, p, os.path.join(objdir, digest(hh, "pic", os.path.relpath(p, REPO), read(p)) + ".o"))
            for p in sorted(tree(src, (".cpp",)), key=lambda p: -os.path.getsize(p))]
    ext = [(p, None, os.path.join(objdir, digest(hh, "ext", cyh, os.path.relpath(p, REPO), read(p)) + ".o"))
           for p in sorted(pyx, key=lambda p: -os.path.getsize(p))]
    site = os.path.join(scratch("site"), digest(*[j[2] for j in jobs + ext], *[x for p in pure for x in (
        os.path.relpath(p, REPO), read(p))]))
    env = {"PYTHONPATH": site, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
    if asan:
        lib = subprocess.run([cxx, "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        std = subprocess.run([cxx, "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=os.path.realpath(lib) + " " + os.path.realpath(std), PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:handle_abort=0")
    art = {"py_env": env, "py_cmd": [PYTHON, "-u", os.path.join(HERE, "py", "dwofuzz.py")]}
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(site):
            os.utime(site)
            return art
        work = tempfile.mkdtemp(dir=CACHE, prefix="cy-")
        try:
            def sh(cmd, **kw):
                r = subprocess.run(cmd, capture_output=True, text=True, **kw)
                if r.returncode:
                    raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:] + r.stderr[-6000:])

            def one(job):
                pyxfile, cppfile, o = job
                if os.path.exists(o):
                    os.utime(o)
                    return
                t = os.path.join(work, os.path.basename(o))
                if pyxfile:
                    c = os.path.join(work, os.path.basename(pyxfile)[:-4] + ".cpp")
                    sh([PYTHON, "-m", "cython", "-3", "--cplus", os.path.relpath(pyxfile, REPO), "-o", c], cwd=REPO)
                    sh(base + ["-O0", "-I" + pyinc, "-c", c, "-o", t])
                else:
                    sh(base + ["-O1", "-c", cppfile, "-o", t])
                os.replace(t, o)

            with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                list(ex.map(one, ext + jobs))
            top = os.path.join(work, "site")
            for p in pure:
                d = os.path.join(top, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(p, d)
            out = os.path.join(top, "dwave/optimization")
            os.makedirs(out, exist_ok=True)
            sh([cxx, "-shared", "-o", os.path.join(out, "libdwave-optimization.so")] + san + [j[2] for j in jobs])

            def link(job):
                name = os.path.relpath(job[0], REPO)[:-4]
                sh([cxx, "-shared", "-o", os.path.join(top, name + ".so"), job[2]] + san
                   + ["-L" + out, "-ldwave-optimization", "-Wl,-rpath,$ORIGIN"])

            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                list(ex.map(link, ext))
            r = subprocess.run([PYTHON, "-c", "import dwave.optimization as d, dwave.optimization.generators; "
                                "print(d.__file__)"], capture_output=True, text=True, cwd=work,
                               env=dict(os.environ, **dict(env, PYTHONPATH=top)))
            if r.returncode or top not in r.stdout:
                raise BuildError("the built package cannot be imported:\n" + r.stdout + r.stderr)
            os.replace(top, site)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        prune("obj/*.o", {j[2] for j in jobs + ext}, 80)
        prune("site/*", {site}, 6)
    return art
