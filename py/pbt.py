"""Choice-sequence based property testing: generation, crash isolation, shrinking, reporting.

The Python twin of cpp/core.hpp and cpp/main.hpp: a case is a function of a sequence of small integers, every
random decision is one draw, so any failure can be shrunk by shortening and lowering that sequence, and is
replayed from it. Cases run in a forked child; a child that dies (signal, sanitizer) or hangs is a failure of
the case that was running.
"""
import ctypes
import hashlib
import json
import mmap
import os
import random
import signal
import struct
import sys
import time

MAXC = 6000


class Violation(Exception):
    def __init__(self, tag, msg):
        super().__init__(tag, msg)
        self.tag, self.msg = tag, msg


class Discard(Exception):
    pass


class Shared(ctypes.Structure):
    _fields_ = [("cases", ctypes.c_uint64), ("discards", ctypes.c_uint64), ("steps", ctypes.c_uint64),
                ("checks", ctypes.c_uint64), ("refused", ctypes.c_uint64), ("case_start", ctypes.c_double),
                ("n", ctypes.c_uint32), ("choices", ctypes.c_uint32 * MAXC),
                ("tag", ctypes.c_char * 200), ("msg", ctypes.c_char * 6000)]


class Src:
    __slots__ = ("sh", "out", "n", "fixed", "rng")

    def __init__(self, sh, seed=None, fixed=None):
        self.sh = sh
        self.out = sh.choices
        self.n = 0
        self.fixed = fixed
        self.rng = random.Random(seed).random if fixed is None else None
        sh.n = 0

    def draw(self, n):
        """Uniform in [0, n); 0 is the simplest outcome."""
        i = self.n
        if i >= MAXC:
            raise Discard()
        if self.fixed is None:
            v = int(self.rng() * n) if n > 1 else 0
        else:
            v = self.fixed[i] % n if (i < len(self.fixed) and n > 1) else 0
        self.out[i] = v
        self.n = i + 1
        self.sh.n = i + 1
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den):
        """True with probability num/den, False is the simple outcome."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Info:
    def __init__(self, verbose=False):
        self.verbose = verbose
        self.nontrivial = False
        self.steps = self.checks = self.refused = 0
        self.feat = {}
        self.lines = []

    def log(self, *a):
        if self.verbose:
            self.lines.append(" ".join(map(str, a)))
            print(*a, flush=True)

    def f(self, k, n=1):
        self.feat[k] = self.feat.get(k, 0) + n


def make_shared():
    m = mmap.mmap(-1, ctypes.sizeof(Shared))
    return Shared.from_buffer(m)


def run_one(fn, src, info):
    try:
        fn(src, info)
    except (Violation, Discard):
        raise
    except MemoryError:
        raise Discard()
    except RecursionError as e:
        raise Violation("recursion", repr(e)[:300])
    except Exception as e:  # an exception the case did not expect
        import traceback
        tb = traceback.format_exc()
        raise Violation("exception:" + type(e).__name__, f"{e!r}\n{tb[-3000:]}")


def quiet():
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


class Outcome:
    def __init__(self, kind=0, tag="", msg="", choices=()):
        self.kind, self.tag, self.msg, self.choices = kind, tag, msg, list(choices)


def finish(status, sh):
    o = Outcome(choices=sh.choices[:sh.n])
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
        return o
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 11:
        o.kind, o.tag, o.msg = 1, sh.tag.decode(errors="replace"), sh.msg.decode(errors="replace")
    elif os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        o.kind, o.tag, o.msg = 3, "hang", "the case did not finish within its time limit"
    else:
        o.kind, o.tag = 2, "crash"
        o.msg = (f"process killed by signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status)
                 else f"memory error / abnormal exit, status {os.WEXITSTATUS(status)}")
    return o


# A failure that needs the cases before it (something survives from one model to the next) is written as
# [RANGE, seed, first, last]: the generated cases first..last of that seed, of which the last one fails.
RANGE = 0xffffffff


def is_range(c):
    return len(c) == 4 and c[0] == RANGE


def source(fn, choices, sh):
    if not is_range(choices):
        return Src(sh, fixed=choices)
    _, seed, first, last = choices
    for i in range(first, last):
        try:
            run_one(fn, Src(sh, seed=(seed << 40) + i), Info())
        except (Violation, Discard):
            pass
    return Src(sh, seed=(seed << 40) + last)


def attempt(fn, choices, sh, timeout):
    sh.n = 0
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            quiet()
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            run_one(fn, source(fn, choices, sh), Info())
        except Violation as v:
            sh.tag = v.tag.encode(errors="replace")[:199]
            sh.msg = v.msg.encode(errors="replace")[:5999]
            code = 11
        except Discard:
            code = 0
        except BaseException:
            code = 12
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    return finish(st, sh)


def strip(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return c


def simpler(a, b):
    return (len(a), a) < (len(b), b)


def shrink(fn, best, sh, budget):
    end = time.monotonic() + budget
    best.choices = strip(best.choices)

    def ok(c):
        if time.monotonic() > end or not simpler(strip(c), best.choices):
            return False
        o = attempt(fn, c, sh, 10)
        if o.kind in (0, 3) or o.tag != best.tag:
            return False
        a, b = strip(o.choices), strip(c)
        new = a if simpler(a, b) else b
        if not simpler(new, best.choices):
            return False
        best.choices, best.msg, best.kind = new, o.msg, o.kind
        return True

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for chunk in (64, 32, 16, 8, 4, 3, 2, 1):
            i = 0
            while i < len(best.choices) and time.monotonic() < end:
                c = best.choices
                e = min(i + chunk, len(c))
                if ok(c[:i] + c[e:]):
                    progress = True
                    continue
                if any(c[i:e]) and ok(c[:i] + [0] * (e - i) + c[e:]):
                    progress = True
                i += max(1, chunk // 2)
        i = 0
        while i < len(best.choices) and time.monotonic() < end:
            while i < len(best.choices) and best.choices[i] > 0:
                c = best.choices
                if ok(c[:i] + [c[i] // 2] + c[i + 1:]) or ok(c[:i] + [c[i] - 1] + c[i + 1:]) or (
                        i + 1 < len(c) and ok(c[:i] + [c[i] - 1] + c[i + 2:])):
                    progress = True
                    continue
                break
            i += 1
    return best


def describe(fn, choices, sh):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(w, 1)
            os.dup2(w, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(30)
            try:
                run_one(fn, source(fn, choices, sh), Info(verbose=True))
                print("(no violation)", flush=True)
            except Violation as v:
                print(f"VIOLATED [{v.tag}]: {v.msg}", flush=True)
            except Discard:
                print("(discarded)", flush=True)
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        if len(out) < 60000:
            out += b
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode(errors="replace")


def child(fn, sh, seed, start, max_cases, end, out, case_limit):
    """Runs cases until the end; exits 0, or 11 on a violation (choices are in sh)."""
    quiet()
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    hashes, feat = [], {}

    def flush():
        if out:
            with open(out + ".hash", "ab") as f:
                f.write(struct.pack(f"<{len(hashes)}Q", *hashes))
            with open(out + ".feat", "a") as f:
                for k, v in feat.items():
                    f.write(f"{k}\t{v}\n")
        hashes.clear()
        feat.clear()

    i = start
    code = 0
    while i < max_cases and time.monotonic() < end:
        src = Src(sh, seed=(seed << 40) + i)
        info = Info()
        sh.case_start = time.monotonic()
        signal.alarm(case_limit)
        i += 1
        sh.cases = i
        try:
            run_one(fn, src, info)
        except Violation as v:
            sh.tag = v.tag.encode(errors="replace")[:199]
            sh.msg = v.msg.encode(errors="replace")[:5999]
            code = 11
            break
        except Discard:
            sh.discards += 1
            continue
        sh.steps += info.steps
        sh.checks += info.checks
        sh.refused += info.refused
        for k, v in info.feat.items():
            feat[k] = feat.get(k, 0) + v
        if info.nontrivial:
            h = hashlib.blake2b(bytes(src.out)[: 4 * src.n], digest_size=8).digest()
            hashes.append(struct.unpack("<Q", h)[0])
        if len(hashes) >= 500:
            flush()
    signal.alarm(0)
    flush()
    os._exit(code)


def main(modes):
    mode, args = sys.argv[1], sys.argv[2:]
    opt = dict(zip(args[::2], args[1::2]))
    fn = modes[mode.split("/")[0]]
    sh = make_shared()
    if "--replay" in opt:
        c = []
        for line in open(opt["--replay"], errors="replace"):
            if line.startswith("choices:"):
                c = [int(x) for x in line[8:].split()]
                break
        if "--direct" in opt:
            try:
                run_one(fn, source(fn, c, sh), Info(verbose=True))
            except Violation as v:
                print(f"VIOLATED [{v.tag}]: {v.msg}")
                return 1
            except Discard:
                print("(discarded)")
            return 0
        print(describe(fn, c, sh))
        return 1 if attempt(fn, c, sh, 60).kind else 0
    seed = int(opt.get("--seed", "1"))
    seconds = float(opt.get("--seconds", "10"))
    max_cases = int(opt.get("--cases", str(10 ** 12)))
    shrink_s = float(opt.get("--shrink", "25"))
    out = opt.get("--out", "")
    triage = "--triage" in opt
    case_limit = 30  # seconds; cases take milliseconds, the deepest ones of C20 a second or two
    end = time.monotonic() + seconds
    failures = {}
    start = 0
    if out:
        for e in (".hash", ".feat"):
            if os.path.exists(out + e):
                os.unlink(out + e)
    while start < max_cases and time.monotonic() < end:
        pid = os.fork()
        if pid == 0:
            child(fn, sh, seed, start, max_cases, end, out, case_limit)
        _, st = os.waitpid(pid, 0)
        o = finish(st, sh)
        o.first, o.last = start, sh.cases - 1
        start = sh.cases
        if not o.kind:
            break
        if o.kind == 1 and o.tag in failures:
            if not triage and len(failures[o.tag]) >= 2:
                if sum(len(v) for v in failures.values()) > 6:
                    break
                continue
        failures.setdefault(o.tag, []).append(o)
        if o.kind == 3 and not triage:
            break  # everything about a hang takes long
        if not triage and sum(len(v) for v in failures.values()) >= 3:
            break
        if triage and sum(len(v) for v in failures.values()) > 200:
            break
    res = []
    for tag, lst in failures.items():
        o = min(lst, key=lambda o: len(o.choices))
        lim = case_limit if o.kind == 3 else 30
        if attempt(fn, o.choices, sh, lim).kind:
            o = shrink(fn, o, sh, shrink_s)
        else:  # fails only after other cases: look for the shortest run of cases that shows it
            o = min(lst, key=lambda o: o.last - o.first)
            w = 1
            while True:
                c = [RANGE, seed, max(o.first, o.last - w), o.last]
                if attempt(fn, c, sh, 150).kind:
                    o.choices, lim = c, 150
                    break
                if c[2] == o.first:
                    break
                w *= 4
        confirmed = 0
        for _ in range(3):
            a = attempt(fn, o.choices, sh, lim)
            if a.kind and a.tag == o.tag:
                confirmed += 1
                o.msg = a.msg or o.msg
        res.append(dict(tag=tag, confirmed=confirmed, msg=o.msg, text=describe(fn, o.choices, sh),
                        choices=o.choices, count=len(lst)))
    samples = []
    for k in range(int(opt.get("--samples", "0"))):
        for j in range(40):  # a case that is not trivial
            s = Src(sh, seed=(seed << 40) + 1000003 * k + j)
            info = Info()
            try:
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        quiet()
                        signal.alarm(30)
                        run_one(fn, s, info)
                        code = 0 if info.nontrivial else 1
                    finally:
                        os._exit(code)
                _, st = os.waitpid(pid, 0)
                if st == 0:
                    samples.append(describe(fn, sh.choices[:sh.n], sh)[:1800])
                    break
            except Exception:
                pass
    d = dict(cases=sh.cases, discards=sh.discards, steps=sh.steps, checks=sh.checks, refused=sh.refused,
             failures=res, samples=samples)
    if out:
        with open(out, "w") as f:
            json.dump(d, f)
    if triage or not out:
        print({k: v for k, v in d.items() if k not in ("failures", "samples")})
        for s in samples:
            print("--- sample\n" + s)
        for r in res:
            print(f"=== {r['tag']} x{r['count']} confirmed={r['confirmed']}\n{r['text']}\nchoices: "
                  + " ".join(map(str, r["choices"])))
    return 0
