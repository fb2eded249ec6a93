"""A small property-based testing engine (choice sequences, integrated shrinking, replay).

Every random decision of a generator is an integer drawn from a Draw object. A case is the
JSON value that the generator builds from those integers, so a replay file holds the case
itself, and shrinking works on the integers (shorter and smaller sequences first) by running
the generator again. The engine runs under the interpreter of the repository (PyPy), in
several forked shards, each a pure function of the code, the shard number and VERIF_SEED.
"""
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8


class Violation(Exception):
    """The code under test broke the property."""


class Skip(Exception):
    """The case is outside of the domain (rejected by construction rules)."""


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Overrun(Exception):
    pass


class Draw:
    """Source of choices: replays `prefix`, then random ones."""

    def __init__(self, rng=None, prefix=(), limit=4000):
        self.rng = rng
        self.prefix = prefix
        self.limit = limit
        self.choices = []

    def n(self, hi):
        """An integer in [0, hi]; 0 is the simplest."""
        i = len(self.choices)
        if i >= self.limit:
            raise Overrun()
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > hi:
                v = hi
        elif self.rng is None:
            v = 0
        else:
            v = self.rng.randint(0, hi)
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.n(hi - lo)

    def chance(self, pct):
        """True with the given probability in percent; False is simplest."""
        return self.n(99) >= 100 - pct

    def pick(self, seq):
        return seq[self.n(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest first."""
        total = sum(w for w, _ in pairs)
        r = self.n(total - 1)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def size(self, lo, hi, more=60):
        """A length: each further element with the given probability."""
        k = lo
        while k < hi and self.chance(more):
            k += 1
        return k

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.n(len(seq) - 1)))
        return out

    def subset(self, seq, pct=50):
        return [x for x in seq if self.chance(pct)]

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    # ---- values
    def integer(self):
        kind = self.weighted([(50, 0), (20, 1), (10, 2), (12, 3), (8, 4)])
        if kind == 0:
            v = self.n(20)
        elif kind == 1:
            v = self.n(10000)
        elif kind == 2:
            v = self.n(2**53)
        elif kind == 3:
            v = self.pick([2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64, 2**31 - 1, 10**12, 999999999999, 255, 256])
        else:
            v = self.n(2**80)
        return -v if self.chance(25) else v

    def int64(self):
        v = self.integer()
        return v if -(2**63) <= v < 2**63 else self.n(1000)

    def real(self, nonfinite=True):
        kind = self.weighted([(30, 0), (20, 1), (15, 2), (15, 3), (12, 4), (8 if nonfinite else 0, 5)] if nonfinite else [(30, 0), (20, 1), (15, 2), (15, 3), (12, 4)])
        if kind == 0:
            v = float(self.n(20))
        elif kind == 1:
            v = self.n(10000) / 100.0
        elif kind == 2:
            v = self.n(2**53) * 10.0 ** self.int(-30, 10)
        elif kind == 3:
            import struct

            v = struct.unpack("<d", struct.pack("<Q", self.n(2**64 - 1)))[0]
            if v != v or v in (float("inf"), float("-inf")):
                v = 0.5
        elif kind == 4:
            v = self.pick([0.1, 1e-3, 1e-7, 1e-16, 1e-17, 5e-324, 1.7976931348623157e308, 2.0**53, 2.0**63, 1e22, 1e23, 123456789012345680000.0, 1.5, 0.30000000000000004])
        else:
            return self.pick([float("inf"), float("-inf"), float("nan")])
        return -v if self.chance(25) else v

    CHARS = list("ab z01_A.") + ["'", '"', "\\", "\n", "\t", "\r", "\0", "é", "=", "@", ":", ",", "(", ")", "{", "}", "[", "]", "/", "#", "\x01", "\x1b", "\x7f", "\x85", "\u200b", "\u2028", "\ufeff", "ß", "中", "\U0001F600", "\U000e0001", "\u0301", "%", "$", "-", "+", "*", "<", ">"]
    WORDS = ["", "a", "b", "c", "abc", "None", "true", "False", "1", "1.0", "-3", "nan", "inf", "<blob:msgpack>", "a'b", 'say "hi"', "\\u{41}", "u{41}", "\\'", "C:\\dir\\x", "0.00001.0", "1.0.0", "x: 1", "// c", "/* c */", "Some(1)", "()", "[]", "line\nbreak", "tab\t", " lead", "trail ", "step", "version", "!__name__", "lr=0.1", "1@step"]

    def text(self, chars=None, maxlen=8):
        kind = self.n(3)
        if kind <= 1 and chars is None:
            s = self.pick(self.WORDS)
        else:
            s = "".join(self.pick(chars or self.CHARS) for _ in range(self.size(0, maxlen, 70)))
            if chars is None and self.chance(3):
                s = (s * self.pick([20, 200, 4000, 30000]))[:100000]
        return s

    NAMES = ["x", "y", "lr", "size", "name", "steps", "alpha", "beta_1", "use_bias", "hidden_dim", "opt", "net", "task", "seed", "mode", "n", "data", "items", "table", "kind", "beta", "warmup_steps", "lr_max", "a", "b", "c1", "camelCase", "UPPER", "x_", "value", "type_", "fields", "state", "path", "index_", "count_", "k9", "eta", "tau", "rho", "nu", "mu",
             "X", "Lr", "A", "B", "lr_", "data2", "keys", "values", "get", "pop", "self", "cls", "index", "count", "step", "default", "len"]

    def names(self, k, used=()):
        pool = [n for n in self.NAMES if n not in used]
        return self.sample(pool, k)


# ------------------------------------------------------------------ running one case


class Ctx:
    """Per-shard context: scratch folders, labels of the current case."""

    def __init__(self, base):
        self.base = base
        self.labels = set()
        self.nontrivial = False
        self._n = 0
        self._dirs = []

    def label(self, *names):
        self.labels.update(names)

    def mark(self, *names):
        """The case is non-trivial."""
        self.nontrivial = True
        self.labels.update(names)

    def dir(self):
        self._n += 1
        d = os.path.join(self.base, "d%d" % self._n)
        os.mkdir(d)
        self._dirs.append(d)
        return d

    def reset(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []
        self.labels = set()
        self.nontrivial = False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, case, ctx, limit=40):
    """Returns None if the property held, or (kind, message)."""
    ctx.reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        if isinstance(case, dict) and "known" in case:
            import known

            known.run(case["known"], ctx)
        else:
            check.run(case, ctx)
        return None
    except Violation as e:
        return "violation", str(e)
    except Skip:
        ctx.nontrivial = False
        ctx.labels = {"skipped: outside of the domain"}
        return None
    except (HarnessError, MemoryError):
        raise
    except CaseTimeout:
        return "timeout", "the case did not finish within %d s" % limit
    except (Exception, SystemExit) as e:
        # Cases only run operations that succeed on correct code, so whatever escapes
        # is the doing of the code under test, unless the machine is failing.
        if isinstance(e, OSError) and e.errno in (28, 24, 12):
            raise
        tb = traceback.format_exc()
        return "exception", "unexpected exception: %r\n%s" % (e, tb[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def generate(check, draw):
    try:
        return json.loads(json.dumps(check.gen(draw)))
    except (Skip, Overrun):
        return None


# ------------------------------------------------------------------ shrinking


def shrink(check, choices, ctx, budget=400, seconds=60):
    """Greedy shrinking of the choice sequence; the failing case found last."""
    deadline = time.time() + seconds
    best = list(choices)
    d = Draw(None, best)
    best_case = generate(check, d)
    count = [0]
    cache = {}

    def attempt(cand):
        nonlocal best, best_case
        if count[0] >= budget or time.time() > deadline:
            return False
        key = tuple(cand)
        if key in cache:
            return False
        cache[key] = True
        d = Draw(None, cand)
        case = generate(check, d)
        if case is None:
            return False
        got = d.choices[: len(cand)] if len(d.choices) > len(cand) else d.choices
        while got and got[-1] == 0:
            got = got[:-1]
        if (len(got), got) >= (len(best), best):
            return False
        count[0] += 1
        bad = run_case(check, case, ctx)
        if bad is None:
            return False
        best, best_case = got, case
        return True

    improved = True
    while improved and count[0] < budget and time.time() < deadline:
        improved = False
        k = 32
        while k >= 1:
            i = len(best) - k
            while i >= 0:
                if i + k <= len(best) and attempt(best[:i] + best[i + k :]):
                    improved = True
                else:
                    i -= k if k > 1 else 1
                if i > len(best) - k:
                    i = len(best) - k
            k //= 2
        k = 16
        while k >= 2:
            i = 0
            while i + k <= len(best):
                if any(best[i : i + k]):
                    improved |= attempt(best[:i] + [0] * k + best[i + k :])
                i += k
            k //= 2
        for i in range(len(best)):
            if i < len(best) and best[i] > 0:
                if attempt(best[:i] + [0] + best[i + 1 :]):
                    improved = True
                    continue
                lo, hi = 0, best[i] if i < len(best) else 0
                while lo + 1 < hi:
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1 :]):
                        improved = True
                        hi = mid
                    else:
                        lo = mid
                    if i >= len(best):
                        break
    return best, best_case


# ------------------------------------------------------------------ shards


def _quiet():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.stdin = open(os.devnull)


def confine(work):
    """Files of the code under test stay in `work`: everything else belongs to another user."""
    import resource

    os.umask(0o022)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    if os.geteuid() == 0:
        os.chown(work, 65534, 65534)
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    tmp = os.path.join(work, "tmp")
    os.mkdir(tmp)
    os.environ["TMPDIR"] = tmp
    os.environ["HOME"] = tmp
    tempfile.tempdir = tmp
    os.chdir(tmp)


def shard_main(check, shard, shards, seed, count, seconds, base, out):
    """Runs in a forked child; writes its findings to `out`."""
    report = open(out, "w")
    _quiet()
    os.mkdir(base)
    confine(base)
    ctx = Ctx(base)
    t0 = time.time()
    res = dict(evaluations=0, nontrivial={}, labels={}, samples=[], failure=None, error=None, skipped=0, capped=False)
    history = []
    seen = 0
    current = os.path.join(base, "current.json")

    def one(case, choices):
        nonlocal seen
        seen += 1
        history.append(case)
        with open(current, "w") as f:
            json.dump(case, f)
        if len(history) > 3000:
            del history[0]
        bad = run_case(check, case, ctx)
        res["evaluations"] += 1
        for l in ctx.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if ctx.nontrivial:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode("utf8", "surrogatepass")).hexdigest()[:16]
            if h not in res["nontrivial"]:
                res["nontrivial"][h] = 1
                if len(res["samples"]) < 3 and len(json.dumps(case)) < 3000:
                    res["samples"].append(case)
        if bad is not None:
            kind, msg = bad
            if choices is not None and kind != "timeout":
                _, small = shrink(check, choices, ctx)
                again = run_case(check, small, ctx)
                if again is not None:
                    res["failure"] = dict(case=small, original=case, kind=again[0], message=again[1], history=history)
                    return True
            res["failure"] = dict(case=case, original=case, kind=kind, message=msg, history=history)
            return True
        return False

    try:
        stop = False
        corpus = [c for c in check.corpus()]
        for i, case in enumerate(corpus):
            if i % shards == shard and one(json.loads(json.dumps(case)), None):
                stop = True
                break
        rng = random.Random("%s/%d/%d" % (check.id, seed, shard))
        i = 0
        while not stop and i < count:
            if time.time() - t0 > seconds:
                res["capped"] = True
                break
            i += 1
            d = Draw(random.Random(rng.getrandbits(64)))
            case = generate(check, d)
            if case is None:
                res["skipped"] += 1
                continue
            stop = one(case, d.choices)
    except BaseException:
        res["error"] = traceback.format_exc()
    ctx.reset()
    res["nontrivial"] = sorted(res["nontrivial"])
    json.dump(res, report)
    report.close()


class Check:
    id = ""
    rule = ""
    technique = "property-based testing"
    level = "exploration"
    quick = 200
    thorough = 5000
    quick_s = 100
    thorough_s = 600
    assumptions = []
    shim = False  # preload the shim that counts, crashes and fails file operations

    def gen(self, d):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def corpus(self):
        return []

    def prepare(self, base):
        """Build what the cases need (once per run, before the shards start)."""
