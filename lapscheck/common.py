"""Building the dumps from /repo's working tree, and reporting."""
import fcntl
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import mir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
DRIVER = os.path.join(CACHE, "driver", "debug", "laps-mir-driver")
WITNESS = os.path.join(VERIF, "witness")
LAPS = ["laps", "laps_regex", "laps_macros"]


class CheckError(Exception):
    """the check cannot give an answer"""


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, start_new_session=True)
    try:
        out, error = p.communicate(timeout=timeout)
    except BaseException:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, error)


def sysroot_lib():
    f = os.path.join(CACHE, "sysroot")
    if os.path.exists(f):
        p = open(f).read().strip()
        if os.path.isdir(p):
            return p
    p = run(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip() + "/lib"
    os.makedirs(CACHE, exist_ok=True)
    with open(f, "w") as h:
        h.write(p)
    return p


def build_driver():
    if os.path.exists(DRIVER):
        return
    r = run(["cargo", "+nightly", "build", "--offline", "-q"],
            {"CARGO_TARGET_DIR": os.path.join(CACHE, "driver")}, os.path.join(VERIF, "driver"))
    if not os.path.exists(DRIVER):
        raise CheckError("the MIR driver does not build:\n" + r.stderr[-3000:])


def models_json():
    out = os.path.join(CACHE, "models", "models.json")
    src = os.path.join(VERIF, "models", "src", "lib.rs")
    stamp = hashlib.sha256(open(src, "rb").read()).hexdigest()
    sf = out + ".stamp"
    if os.path.exists(out) and os.path.exists(sf) and open(sf).read() == stamp:
        return out
    build_driver()
    d = os.path.dirname(out)
    os.makedirs(d, exist_ok=True)
    tgt = os.path.join(CACHE, "tm")
    shutil.rmtree(tgt, ignore_errors=True)
    r = run(["cargo", "+nightly", "check", "--offline", "-q"],
            {"CARGO_TARGET_DIR": tgt, "LAPS_DUMP_DIR": d, "LAPS_DUMP_CRATES": "models",
             "RUSTC_WRAPPER": DRIVER, "LD_LIBRARY_PATH": sysroot_lib()}, os.path.join(VERIF, "models"))
    if not os.path.exists(out):
        raise CheckError("the std models do not build:\n" + r.stderr[-3000:])
    with open(sf, "w") as h:
        h.write(stamp)
    return out


def tree_hash(extra=()):
    h = hashlib.sha256()
    roots = [REPO] + [os.path.join(WITNESS, w) for w in extra]
    for root in roots:
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
                h.update(b"\0")
    h.update(open(DRIVER, "rb").read())
    h.update(open(os.path.join(WITNESS, "Cargo.lock"), "rb").read())
    h.update(open(os.path.join(WITNESS, "Cargo.toml"), "rb").read())
    return h.hexdigest()[:24]


BUILD_SECONDS = 300


class BuildFailure(Exception):
    def __init__(self, text):
        super().__init__(text)
        self.text = text


def dump(witness="w_base", crates=None):
    """directory with one JSON per crate, made from the current /repo tree"""
    build_driver()
    crates = (crates or LAPS) + [witness]
    os.makedirs(os.path.join(CACHE, "dump"), exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(CACHE, "dump", witness + "-" + tree_hash((witness,)))
        if os.path.exists(os.path.join(out, "done")):
            return out
        for old in glob.glob(os.path.join(CACHE, "dump", witness + "-*")):
            if time.time() - os.path.getmtime(old) > 600:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, "w")
        for c in LAPS + [witness]:
            shutil.rmtree(os.path.join(tgt, "debug", "build", c), ignore_errors=True)
        try:
            r = run(["cargo", "+nightly", "check", "--offline", "-p", witness],
                    {"CARGO_TARGET_DIR": tgt, "LAPS_DUMP_DIR": out, "LAPS_DUMP_CRATES": ",".join(crates),
                     "RUSTC_WRAPPER": DRIVER, "LD_LIBRARY_PATH": sysroot_lib()}, WITNESS, BUILD_SECONDS)
        except subprocess.TimeoutExpired:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildFailure(f"error: compiling {witness} does not finish within {BUILD_SECONDS} s")
        if r.returncode != 0:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildFailure(r.stderr)
        with open(os.path.join(out, "done"), "w") as h:
            h.write("ok")
        return out


_progs = {}


def program(witness="w_base", crates=("laps",), models=True):
    """the analysed program: bodies, impls and types of the given crates"""
    k = (witness, tuple(crates), models)
    if k in _progs:
        return _progs[k]
    d = dump(witness)
    p = mir.Program()
    for c in crates:
        f = os.path.join(d, c + ".json")
        if not os.path.exists(f):
            raise CheckError(f"crate {c} was not compiled through the driver")
        p.load(f)
    if models:
        p.load(models_json())
    _progs[k] = p
    return p


CURRENT = []            # the check under way
JOURNAL = []            # file that keeps what was found so far


def journal(what, args):
    if JOURNAL:
        try:
            pickle.dump((what, args), JOURNAL[0])
            JOURNAL[0].flush()
        except Exception:
            pass


class Check:
    def __init__(self, pid, rule, explanation):
        CURRENT.append(self)
        self.pid = pid
        self.rule = rule
        self.explanation = explanation
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.obl = []           # (name, status, detail)
        self.viol = []
        self.undec = []
        self.known = []
        self.counts = {}
        self.functions = set()
        self.floors = {}
        self.samples = []
        self.findings = load_findings(pid)
        journal("init", (pid, rule, explanation))

    # -- results --------------------------------------------------------------------------

    def obligation(self, name, ok=True, detail=""):
        self.obl.append((name, "held" if ok else "violated", detail))

    def violation(self, key, where, message, trace=()):
        """key identifies the failing construct without line numbers"""
        for v in self.viol:
            if v["key"] == key:
                return
        for f in self.findings:
            if f["key"] == key:
                if key not in [k["key"] for k in self.known]:
                    self.known.append(f)
                return
        self.viol.append({"key": key, "where": where, "message": message, "trace": list(trace)})
        journal("violation", (key, where, message, tuple(map(str, trace))))

    def undecided(self, where, message):
        m = (str(where), str(message))
        if m not in self.undec:
            self.undec.append(m)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        self.floors[name] = n

    def engine(self, E, where):
        """book-keeping after an engine run"""
        self.functions |= E.bodies_used
        self.count("abstract_states", E.nstates)
        self.count("abstract_steps", E.nsteps)
        for msg, loc in E.undecided:
            self.undecided(where, f"{msg} at {loc}")

    # -- output -----------------------------------------------------------------------------

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        open_ = {w for w, _ in self.undec}
        self.obl = [(n, "undecided" if n in open_ and s == "held" else s, d) for n, s, d in self.obl]
        held = sum(1 for o in self.obl if o[1] == "held")
        for name, n in self.floors.items():
            have = self.counts.get(name, 0)
            if have < n and not self.viol and not self.undec:
                print(f"ERROR: {self.pid} analysed {have} {name}, expected at least {n}")
                raise CheckError(f"floor {name}: {have} < {n}")
        cov = {
            "explanation": self.explanation,
            "rule": self.rule,
            "obligations": len(self.obl),
            "discharged": held,
            "undecided": [{"where": w, "why": m} for w, m in self.undec],
            "violations": [v["key"] for v in self.viol],
            "known_findings": [k["key"] for k in self.known],
            "functions_analysed": sorted(self.functions),
            "counts": self.counts,
            "samples": [f"{n}: {s} {d}".strip() for n, s, d in self.obl[:40]] + self.samples[:20],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 3)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: {len(self.obl)} obligations, {held} hold, {len(self.viol)} violations, "
              f"{len(self.undec)} undecided; {len(self.functions)} functions analysed")
        for w, m in self.undec:
            print(f"UNDECIDED: property={self.pid} {w}: {m}")
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['key']}: {k['what']}")
        if self.viol:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.violation.txt")
            with open(rp, "w") as f:
                for v in self.viol:
                    f.write(f"property {self.pid}\nrule     {self.rule}\nwhere    {v['where']}\n"
                            f"key      {v['key']}\n{v['message']}\n")
                    if v["trace"]:
                        f.write("path:\n" + "".join(f"  {x}\n" for x in v["trace"]))
                    f.write("\n")
            for v in self.viol[:10]:
                print(f"{v['where']}: {v['message']}")
                for x in v["trace"][-14:]:
                    print("    " + x)
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


class Probe:
    """records what an obligation reports"""

    def __init__(self, ck):
        self.ck = ck
        self.log = []

    def engine(self, E, where):
        self.log.append(("engine", (E, where), {}))
        for (body, span), trace in E.hangs()[:3]:
            self.log.append(("violation", (f"{where}: never leaves a loop of {body}", f"{span[0]}:{span[1]}",
                                           f"{where}: once here, the loop in {body} is never left", trace), {}))
        if getattr(self.ck, "wants_misuse", False):
            for body, line, op, why, trace in E.misuse:
                self.log.append(("violation", (f"{body}: {op}", line, f"unchecked operation {op}: {why}", trace), {}))

    def __getattr__(self, n):
        if n in ("obligation", "violation", "undecided", "count"):
            return lambda *a, **k: self.log.append((n, a, k))
        return getattr(self.ck, n)

    def keys(self):
        return {a[0] for n, a, k in self.log if n == "violation"}


BEGUN = time.time()
SOFT, HARD = 690, 840       # seconds: nothing new is explored, whatever is under way ends
CONFIRM_SECONDS = 40        # for one obligation
CONFIRM_TOTAL = 400         # for all of a check
SPENT = [0]


def confirmed(fn):
    """Report a violation only if it is also found without merging loop iterations.

    The fixpoint merges iterations and can therefore show paths that do not exist. An
    obligation that fails there is analysed again with the first iterations of every loop kept
    apart; what fails only after merging is reported as undecided. A construct the analysis has no model for
    makes the obligation undecided, too."""
    def go(ck, *a, **k):
        from .engine import MODE
        p = Probe(ck)
        label = fn.__name__ + "".join(f" {x}" for x in a[1:] if isinstance(x, (str, int)))
        if time.time() > BEGUN + SOFT:
            ck.undecided(label, "time limit")
            return
        MODE["until"] = BEGUN + SOFT
        try:
            fn(p, *a, **k)
        except (BuildFailure, CheckError):
            raise
        except Exception as e:
            ck.undecided(label, f"{type(e).__name__}: {e}")
            if os.environ.get("LAPS_DEBUG"):
                raise
        keep = set()
        for depth in (5, 13):
            if not p.keys() - keep:
                break
            q = Probe(ck)
            MODE["exact"] = depth
            begun = time.time()
            MODE["until"] = min(begun + min(CONFIRM_SECONDS, max(2, CONFIRM_TOTAL - SPENT[0])), BEGUN + HARD - 40)
            try:
                fn(q, *a, **k)
            except Exception as e:
                q.undecided(label, f"{type(e).__name__}: {e}")
            finally:
                MODE["exact"] = 0
                MODE["until"] = BEGUN + SOFT
                SPENT[0] += time.time() - begun
            keep |= q.keys()
        for n, x, y in p.log:
            if n == "violation" and x[0] not in keep:
                ck.undecided(x[1], f"not confirmed without merging: {x[2]}")
                continue
            getattr(ck, n)(*x, **y)
    go.__name__ = fn.__name__
    return go


def provided(ck, prog, trait, want, name=lambda imp: imp["self"][1]):
    """the documented implementors of a trait of laps are still there"""
    imps = prog.impls_by_trait.get(trait, [])
    if any(i["self"][0] == "param" for i in imps if i.get("imap") is not None and trait not in BLANKET):
        return
    have = [name(i) for i in imps if i["crate"] == "laps"]
    t = trait.split("::")[-1]
    for x in want:
        if x not in have:
            ck.violation(f"{t} for {x}", "src", f"{x} no longer implements {t}")
    ck.obligation(f"{t} is implemented by the documented types", all(x in have for x in want), f"{len(want)} types")


BLANKET = ("laps::span::TrySpan",)     # already has an implementation for every T: Spanned


def load_findings(pid):
    """known findings: `known: property=<id> key=<key> | <what fails>` lines"""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(.+?) \| (.+)$", line.strip())
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


class TimeUp(BaseException):
    pass


def time_up(*_):
    raise TimeUp()


def main(argv):
    """The analysis runs in a child process: an operation that never comes back (the comparison of two terms
    with exponentially many shared parts, say) cannot be interrupted by a signal handler."""
    if os.environ.get("LAPS_DEBUG"):
        return work(argv)
    log = tempfile.TemporaryFile()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        JOURNAL.append(log)
        rc = 3
        try:
            rc = work(argv)
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 2
        except BaseException:
            traceback.print_exc()
            rc = 2
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    for s in (signal.SIGTERM, signal.SIGINT):
        signal.signal(s, lambda n, f: (os.kill(pid, signal.SIGKILL), os._exit(128 + n)))
    while time.time() < BEGUN + HARD + 15:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            if os.WIFEXITED(status):
                return os.WEXITSTATUS(status)
            break
        time.sleep(0.02)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    log.seek(0)
    ck = None
    while True:
        try:
            what, args = pickle.load(log)
        except Exception:
            break
        if what == "init" and ck is None:
            ck = Check(*args)
        elif what == "violation" and ck is not None:
            ck.violation(*args)
    if ck is None:
        print(f"ERROR: {argv[1]}: no time left before anything was analysed")
        return 2
    ck.undecided("the rest of the check", "the analysis did not come to an end")
    return ck.finish()


def work(argv):
    import importlib
    from .engine import MODE
    from . import std  # noqa: F401 (registers the library models)
    pid = argv[1]
    sys.setrecursionlimit(20000)
    MODE["until"] = BEGUN + SOFT
    signal.signal(signal.SIGALRM, time_up)
    signal.alarm(HARD)
    try:
        m = importlib.import_module("lapscheck.checks." + pid.lower())
        return m.main()
    except TimeUp:
        if not CURRENT:
            print(f"ERROR: {pid}: no time left before anything was analysed")
            return 2
        CURRENT[0].undecided("the rest of the check", "time limit")
        return CURRENT[0].finish()
    except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, StopIteration, RecursionError) as e:
        # code written in a way the check does not know: it decides nothing about the rest
        if os.environ.get("LAPS_DEBUG") or not CURRENT:
            raise
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        CURRENT[0].undecided("the rest of the check", f"{type(e).__name__}: {e} ({tb.tb_frame.f_code.co_filename}:{tb.tb_lineno})")
        return CURRENT[0].finish()
    except BuildFailure as e:
        print(f"ERROR: {pid}: /repo does not compile for the analysis")
        print(e.text[-4000:])
        return 2
    except CheckError as e:
        print(f"ERROR: {pid}: {e}")
        return 2
