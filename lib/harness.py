"""Common harness of the checks: evidence, known findings, verdict lines.

A check is a function run(ctx).  It records
  ctx.ok(rule, what)              an obligation that was decided and holds
  ctx.violation(rule, where, msg) an obligation that is definitely broken
  ctx.undecided(rule, where, why) an obligation the analysis could not settle
and the harness writes the evidence file, compares the violations with the
committed list of known findings and prints the verdict.  Exit status: 0 the
property held on everything analysed, 1 violation, 2 the check itself broke.
"""
import json, os, sys, time, traceback, hashlib, subprocess, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAITLYN_REPO", "/repo")
INC = os.path.join(REPO, "include")
SCRATCH_ROOT = os.path.join(VERIF, "build")


class Broken(Exception):
    """The check cannot give an answer (an anchor vanished, a tool failed)."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obligations = {}      # rule -> [n_ok, n_violated, n_undecided]
        self.violations = []       # dicts
        self.undecideds = []
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.functions = set()
        self.level = "other"
        self.explanation = ""
        self.scratch = os.path.join(SCRATCH_ROOT, prop + "." + str(os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)

    def _o(self, rule):
        return self.obligations.setdefault(rule, [0, 0, 0])

    def ok(self, rule, what=None, n=1):
        self._o(rule)[0] += n
        if what and len(self.samples) < 40:
            s = "%s: %s" % (rule, what)
            if s not in self.samples:
                self.samples.append(s)

    def violation(self, rule, where, msg, key=None):
        """where: human readable site; key: stable identity used by known findings."""
        v = dict(rule=rule, where=where, message=msg, key=key or (rule + "|" + where))
        if any(x["key"] == v["key"] for x in self.violations):
            return
        self._o(rule)[1] += 1
        self.violations.append(v)

    def undecided(self, rule, where, why):
        self._o(rule)[2] += 1
        if len(self.undecideds) < 200:
            self.undecideds.append(dict(rule=rule, where=where, why=why))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, n, minimum, what):
        if what == "entries" and any(r.startswith("driver/") for r in self.obligations):
            # parts of the driver do not fit the current code and are undecided
            return
        if n < minimum:
            raise Broken("only %d %s analysed, expected at least %d" % (n, what, minimum))


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("open: "):
                # open: property=<id> key=<key> :: <what fails>
                body, _, what = line[6:].partition(" :: ")
                prop, _, key = body.partition(" key=")
                out.append((prop.replace("property=", "").strip(), key.strip(), what.strip()))
    return out


def run_check(prop, fn, level, explanation, assumptions=()):
    t0 = time.time()
    ctx = Ctx(prop)
    ctx.level = level
    ctx.explanation = explanation
    ctx.assumptions = list(assumptions)
    try:
        fn(ctx)
        total = sum(sum(v) for v in ctx.obligations.values())
        if total == 0:
            raise Broken("no obligation was analysed")
    except Broken as e:
        print("CHECK-BROKEN property=%s %s" % (prop, e))
        if not ctx.violations:
            _cleanup(ctx)
            return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-BROKEN property=%s internal error" % prop)
        _cleanup(ctx)
        return 2
    known = [(k, w) for p, k, w in known_findings() if p == prop]
    fresh, listed = [], []
    for v in ctx.violations:
        m = [w for k, w in known if k == v["key"]]
        (listed if m else fresh).append((v, m[0] if m else None))
    ok = sum(v[0] for v in ctx.obligations.values())
    bad = sum(v[1] for v in ctx.obligations.values())
    und = sum(v[2] for v in ctx.obligations.values())
    cov = dict(explanation=ctx.explanation,
               obligations=ok + bad + und, discharged=ok, violated=bad, undecided=und,
               per_rule={r: dict(holds=v[0], violated=v[1], undecided=v[2]) for r, v in sorted(ctx.obligations.items())},
               functions_analysed=len(ctx.functions), functions=sorted(ctx.functions)[:120],
               samples=ctx.samples[:40], undecided_sites=ctx.undecideds[:60], **ctx.counts)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    for old in os.listdir(os.path.join(VERIF, "evidence", "replay")):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(VERIF, "evidence", "replay", old))
    rc = 0
    print("property %s: %d obligations: %d hold, %d violated, %d undecided; %d functions; %.1fs" % (
        prop, ok + bad + und, ok, bad, und, len(ctx.functions), time.time() - t0))
    for v, what in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for i, (v, _) in enumerate(fresh):
        rp = os.path.join("evidence", "replay", "%s-%d.json" % (prop, i + 1))
        json.dump(dict(property=prop, **v), open(os.path.join(VERIF, rp), "w"), indent=1)
        if i < 20:
            print("  %s [%s] %s" % (v["where"], v["rule"], v["message"]))
        if i == 0:
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    _cleanup(ctx)
    return rc


def _cleanup(ctx):
    import shutil
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    try:
        os.rmdir(SCRATCH_ROOT)
    except OSError:
        pass


def sh(cmd, timeout=300, stdin=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=stdin)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


def pmap(f, xs, jobs=8):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, xs))


def public_headers():
    d = os.path.join(INC, "Caitlyn")
    hs = sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)) and not f.startswith("__"))
    return hs


COMPILERS = {"g++": ["g++", "-w"], "clang++": ["clang++", "-w"]}
STDS = ["c++11", "c++14", "c++17", "c++20"]


def compile_text(text, compiler, std, extra=(), scratch=None, lang="c++"):
    cmd = COMPILERS[compiler] + ["-std=" + std, "-I", INC, "-fsyntax-only", "-x", lang] + list(extra) + ["-"]
    rc, out, err = sh(cmd, stdin=text.encode())
    return rc, err


def first_error(err):
    for line in err.splitlines():
        if "error:" in line or "fatal error" in line:
            return line.strip()[:300]
    return err.strip().splitlines()[0][:300] if err.strip() else "?"
