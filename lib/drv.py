"""Drivers: small C++ programs against the public API that are analysed, never run.

Every extern "C" function t_<name>() of a driver is one analysis entry.  The
declared-only vp_* functions are its vocabulary:
  vp_assert(bool, msg)   obligation at this point on every abstract path
  vp_assume(bool)        restricts the paths
  vp_bool/int/size/u32(name)  arbitrary inputs
  vp_reach(msg)          must be reached on some path (guards against vacuity)
  vp_never(msg)          must not be reached
  vp_count(cls)          live objects of an opaque class;  vp_val(obj): identity of its content
Classes of namespace vp are opaque: their special members are declared only,
so every construction, copy, move, assignment and destruction is visible to the
analysis as an event on a typestate (dead / live(content) / moved-from).
"""
import os, sys, re, time, traceback, multiprocessing, signal
from harness import Broken
import ir
from interp import *
import models

PRELUDE = r'''
#include <cstddef>
#include <cstdint>
#include <utility>
#include <new>
extern "C" {
void vp_assert(bool, const char*);
void vp_assume(bool);
bool vp_bool(const char*);
int vp_int(const char*);
std::size_t vp_size(const char*);
std::uint32_t vp_u32(const char*);
std::int64_t vp_i64(const char*);
std::int8_t vp_s8(const char*); std::uint8_t vp_u8(const char*); std::int16_t vp_s16(const char*); std::uint16_t vp_u16(const char*);
std::int32_t vp_s32(const char*); std::int64_t vp_s64(const char*); std::uint64_t vp_u64(const char*);
float vp_f32(const char*); double vp_f64(const char*); long double vp_f80(const char*);
void vp_reach(const char*);
void vp_never(const char*);
int vp_count(const char*);
int vp_valp(const void*);
void vp_event(const char*);
void vp_mark(const char*, int);
}
template <typename X> int vp_val(const X& x) { return vp_valp(static_cast<const void*>(&x)); }
'''


def opaque(name, copy=True, move=True, throwing=False, copyassign=None, default=True):
    """Declaration of an opaque class in namespace vp."""
    ca = copy if copyassign is None else copyassign
    s = "namespace vp { struct %s { " % name
    if default:
        s += "%s(); " % name
    s += "explicit %s(int); " % name
    if copy:
        s += "%s(const %s&); " % (name, name)
    else:
        s += "%s(const %s&) = delete; " % (name, name)
    if move:
        s += "%s(%s&&) noexcept; " % (name, name)
        s += "%s& operator=(%s&&) noexcept; " % (name, name)
    if ca:
        s += "%s& operator=(const %s&); " % (name, name)
    s += "~%s(); int pad_; }; }\n" % name
    return s


def cstr(eng, st, p):
    """Bytes of a C string literal."""
    if p[0] != "p" or not isinstance(p[1], str) or not p[1].startswith("g:"):
        return None
    g = eng.mod.gvar(p[1][2:])
    if g is None or g["init"] is None or g["init"][0] not in ("str", "zero"):
        return None
    if g["init"][0] == "zero":
        return ""
    b = g["init"][1][p[2]:]
    return b.split(b"\0")[0].decode("utf-8", "replace")


class Run:
    """Result of analysing one driver entry."""

    def __init__(self, name):
        self.name = name
        self.ok = {}            # message -> number of abstract states in which it held
        self.viol = []          # (msg, where)
        self.und = []
        self.reach = {}
        self.fns = []
        self.steps = 0
        self.outs = 0
        self.err = None
        self.unmodelled = {}
        self.wall = 0


def lib_classes(eng, throwing=()):
    """Typestate hooks of the opaque classes."""
    rx = re.compile(r"^vp::(\w+)::(~?)(\w+|operator=)\((.*)\)")

    def key(p):
        if p[0] != "p" or p[3]:
            raise Giveup("object at an unknown place")
        return ("live", p[1], p[2])

    def where_ok(eng, st, p, cls, what):
        if p[0] == "u":
            raise Fault("%s %s at an uninitialised address" % (what, cls))
        if p[0] != "p":
            raise Giveup("object at an unknown place")
        eng.access(st, p, 4, what)

    def member(eng, st, a, inst, f):
        d = eng.mod.dem(f.name)
        m = rx.match(d)
        if not m:
            return None
        if not f.declared:
            return None
        cls, til, nm, params = m.groups()
        this = a[0]
        thr = cls in throwing
        if til:
            where_ok(eng, st, this, cls, "destroys")
            k = key(this)
            if k not in st.g:
                raise Fault("destroys a %s that is not alive (destroyed twice or never constructed)" % cls)
            del st.g[k]
            return ret(st)
        if nm == "operator=":
            where_ok(eng, st, this, cls, "assigns to")
            where_ok(eng, st, a[1], cls, "assigns from")
            k, k2 = key(this), key(a[1])
            if k not in st.g:
                raise Fault("assigns to a %s that is not alive" % cls)
            if k2 not in st.g:
                raise Fault("assigns from a %s that is not alive" % cls)
            outs = []
            if thr and "const&" in params:
                s = st.copy()
                s.g[k] = (cls, ("unspecified",))
                s.g["threw"] = s.g.get("threw", 0) + 1
                outs.append(eng.throw(s, "vp_user_exception"))
            v = st.g[k2][1]
            st.g[k] = (cls, v)
            if "&&" in params and k != k2:
                st.g[k2] = (cls, ("moved", v))
            elif "&&" in params:
                st.g[k2] = (cls, ("moved", v))      # self-move: content unspecified
            return outs + ret(st, this)
        if nm != cls:
            return None
        # constructors
        where_ok(eng, st, this, cls, "constructs")
        k = key(this)
        if k in st.g:
            raise Fault("constructs a %s over a live one" % cls)
        outs = []
        if params in ("", "int"):
            if params == "":
                v = ("default", cls)
            else:
                x = a[1]
                v = ("int", x)
        else:
            k2 = key(a[1])
            where_ok(eng, st, a[1], cls, "copies")
            if k2 not in st.g:
                raise Fault("copies a %s that is not alive" % cls)
            v = st.g[k2][1]
            if v[0] == "moved" and not eng.allow_moved:
                pass
            if "&&" in params:
                st.g[k2] = (cls, ("moved", v))
            elif thr:
                s = st.copy()
                s.g["threw"] = s.g.get("threw", 0) + 1
                outs.append(eng.throw(s, "vp_user_exception"))
        st.g[k] = (cls, v)
        return outs + ret(st)
    eng.allow_moved = True
    eng.hook(r"vp::\w+::", member)

    # storage that goes away with a live object inside
    def gone(st, oid, how):
        for k in list(st.g):
            if isinstance(k, tuple) and k[0] == "live" and k[1] == oid:
                raise Fault("%s storage that still holds a live %s" % (how, st.g[k][0]))
    eng.on_delete = lambda eng, st, oid: gone(st, oid, "frees")


def vocabulary(eng, run):
    R = eng.rt

    def vassert(eng, st, a, inst, f):
        msg = cstr(eng, st, a[1]) or "?"
        c = eng.cond(a[0])
        bad = eng.assume(st.copy(), c, False)
        for s in bad:
            eng.fault(s, "assert", msg)
        good = eng.assume(st, c, True)
        if good and not bad:
            run.ok[msg] = run.ok.get(msg, 0) + len(good)
        return [("ret", U, s) for s in good]
    R["vp_assert"] = vassert
    R["vp_assume"] = lambda eng, st, a, inst, f: [("ret", U, s) for s in eng.assume(st, eng.cond(a[0]), True)]

    def inp(w, signed):
        def h(eng, st, a, inst, f):
            nm = cstr(eng, st, a[0]) or "in"
            s = eng.memo(("input", nm, w), lambda: eng.fresh(w, nm, signed))
            return ret(st, ("n", w, 0, ((s, 1),)))
        return h
    R["vp_int"] = inp(32, True)
    R["vp_i64"] = inp(64, True)
    R["vp_size"] = inp(64, False)
    R["vp_u32"] = inp(32, False)
    for w in (8, 16, 32, 64):
        R["vp_s%d" % w] = inp(w, True)
        R["vp_u%d" % w] = inp(w, False)

    def finp(eng, st, a, inst, f):
        nm = cstr(eng, st, a[0]) or "in"
        return ret(st, ("f", ("x", nm, eng.memo(("finput", nm, f.name), lambda: eng.fresh(8, nm)))))
    for n in ("vp_f32", "vp_f64", "vp_f80"):
        R[n] = finp
    R["vp_bool"] = lambda eng, st, a, inst, f: ret(st, ("c", ("sb", ("in", cstr(eng, st, a[0])))))

    def reach(eng, st, a, inst, f):
        m = cstr(eng, st, a[0])
        run.reach[m] = run.reach.get(m, 0) + 1
        return ret(st)
    R["vp_reach"] = reach
    R["vp_never"] = lambda eng, st, a, inst, f: eng.fault(st, "assert", cstr(eng, st, a[0]) or "?")

    def count(eng, st, a, inst, f):
        m = cstr(eng, st, a[0])
        n = sum(1 for k, v in st.g.items() if isinstance(k, tuple) and k[0] == "live" and v[0] == m)
        return ret(st, N(32, n))
    R["vp_count"] = count

    def valp(eng, st, a, inst, f):
        p = a[0]
        if p[0] != "p" or p[3]:
            raise Giveup("content of an object at an unknown place")
        eng.access(st, p, 4, "reads")
        k = ("live", p[1], p[2])
        if k not in st.g:
            raise Fault("uses an object that is not alive")
        v = st.g[k][1]
        n = eng.memo(("val", v), lambda: len(eng.sy.memo) + 1000)
        return ret(st, N(32, n))
    R["vp_valp"] = valp

    def event(eng, st, a, inst, f):
        st.g["trace"] = st.g.get("trace", ()) + (cstr(eng, st, a[0]),)
        return ret(st)
    R["vp_event"] = event

    def mark(eng, st, a, inst, f):
        m = cstr(eng, st, a[0])
        st.g[("mark", m)] = a[1]
        return ret(st)
    R["vp_mark"] = mark


def analyse(mod, entry, cfg, timeout):
    """Analyses one entry; cfg(eng, run) installs check-specific models."""
    run = Run(entry)
    t0 = time.time()
    eng = Interp(mod)
    eng.deadline = (time.process_time() + timeout, min(t0 + 4 * timeout, BORN + 720))   # a check as a whole answers in time
    vocabulary(eng, run)
    models.install(eng)
    ends = []
    fin = None
    if cfg is not None:
        fin = cfg(eng, run, entry)

    def on_fault(kind, st, where, msg):
        if st.taint is not None:
            run.und.append((msg, where, st.taint))
        else:
            run.viol.append((msg, where))
    eng.on_fault = on_fault
    st = State()
    try:
        outs = eng.run(entry, [], st)
        run.outs = len(outs)
        for k, v, s in outs:
            if k == "throw":
                if eng.allow_throw:
                    continue
                ti = eng.exc_ti(s, v)
                eng.stack.append((mod.funcs[entry], None))
                on_fault("throw", s, "entry %s" % entry, "an exception (%s) escapes the operation" % ti)
                eng.stack.pop()
                continue
            if fin is not None:
                fin(eng, run, s)
    except Giveup as g:
        run.und.append(("analysis gave up", "entry %s" % entry, str(g) + " at " + eng.where()))
    except RecursionError:
        run.und.append(("analysis gave up", "entry %s" % entry, "depth"))
    for g, n in eng.giveups.items():
        run.und.append(("loop or call not followed", "entry %s" % entry, g))
    run.fns = [mod.dem(n) for n in eng.fnseen]
    run.steps = eng.steps
    run.unmodelled = eng.unmodelled
    run.wall = time.time() - t0
    return run


Interp.allow_throw = False


def owned(s, heap):
    """The allocations that are reachable from objects of static storage duration."""
    nodes = {}
    for k, v in s.g.items():
        if isinstance(k, tuple) and k[0] == "um":
            nodes.setdefault(k[1], []).extend(n[1] for _, n in v)
    out, work = set(), [o for o, b in s.mem.items() if b.kind == "global"] + [o for o in nodes if o not in s.mem]
    while work:
        o = work.pop()
        b = s.mem.get(o)
        cells = [c[1] for c in b.cells.values()] if b is not None else []
        for x in [c[1] for c in cells if isinstance(c, tuple) and c and c[0] == "p"] + nodes.get(o, []):
            if x in heap and x not in out:
                out.add(x)
                work.append(x)
    return out


def leakcheck(eng, run, s, allow=()):
    """At the end of an entry nothing may be left alive."""
    left = [v[0] for k, v in s.g.items() if isinstance(k, tuple) and k[0] == "live"]
    msg = "everything that was constructed is destroyed by the end"
    if left:
        eng.on_fault("leak", s, "end of %s" % run.name, "%d %s object(s) never destroyed" % (len(left), "/".join(sorted(set(left)))))
        return
    heap = {o for o, b in s.mem.items() if b.kind == "heap"}
    if heap:
        heap -= owned(s, heap)
    if heap:
        eng.on_fault("leak", s, "end of %s" % run.name, "%d allocation(s) never freed" % len(heap))
        return
    run.ok[msg] = run.ok.get(msg, 0) + 1


BORN = time.time()
_G = {}


def _work(a):
    mod, cfg, timeout = _G["a"]
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            box.append(analyse(mod, a, cfg, timeout))
        except Exception:
            r = Run(a)
            r.err = traceback.format_exc()
            box.append(r)
    t = threading.Thread(target=go)
    t.start(); t.join()
    return box[0]


def entries(mod):
    return sorted(n for n, f in mod.funcs.items() if n.startswith("t_") and not f.declared)


def entry_spans(src):
    """[(name, first line, last line, start, end)] of the entry functions of a driver."""
    out = []
    for m in re.finditer(r"void (t_\w+)\(\)\s*(\{|[A-Z]\w*[^\n{;]*$)", src, re.M):
        if m.group(2) != "{":
            # body from a macro on one line
            ln = src.count("\n", 0, m.start()) + 1
            out.append((m.group(1), ln, src.count("\n", 0, m.end()) + 1, m.start(), m.end()))
            continue
        i, d = m.end(), 1
        while i < len(src) and d:
            c = src[i]
            if c in "\"'":
                j = i + 1
                while j < len(src) and src[j] != c and src[j] != "\n":
                    j += 2 if src[j] == "\\" else 1
                i = j
            elif c == "{":
                d += 1
            elif c == "}":
                d -= 1
            i += 1
        out.append((m.group(1), src.count("\n", 0, m.start()) + 1, src.count("\n", 0, i) + 1, m.start(), i))
    return out


def chunk_spans(src):
    """[(name, first line, last line, start, end)] of the top-level declarations of a driver."""
    out, i, n, start, d, line = [], 0, len(src), None, 0, 1
    ext = re.compile(r'extern "C" \{')
    begin = 0
    while i < n:
        c = src[i]
        if start is None:
            if c == "\n" or c.isspace():
                line += c == "\n"
                i += 1
                continue
            if c == "#":
                while i < n and src[i] != "\n":
                    if src[i] == "\\" and i + 1 < n and src[i + 1] == "\n":
                        line += 1
                        i += 1
                    i += 1
                continue
            if src.startswith("//", i):
                while i < n and src[i] != "\n":
                    i += 1
                continue
            m = ext.match(src, i)
            if m:
                i = m.end()
                continue
            if c == "}":
                i += 1
                continue
            start, begin, d = i, line, 0
        if src.startswith("//", i):
            while i < n and src[i] != "\n":
                i += 1
            continue
        if c in "\"'" and not (c == "'" and i and src[i - 1].isalnum() and i + 1 < n and src[i + 1].isalnum() and src[i - 1].isdigit()):
            j = i + 1
            while j < n and src[j] != c and src[j] != "\n":
                j += 2 if src[j] == "\\" else 1
            i = j + 1
            continue
        if c == "\n":
            line += 1
        elif c in "({[":
            d += 1
        elif c in ")}]":
            d -= 1
        i += 1
        if d == 0 and (c == ";" or (c == "}" and not re.match(r"\s*;", src[i:i + 20]))):
            head = src[start:i]
            m = re.match(r"(?:static |inline |template <[^>]*>\s*)*(?:struct|class)\s+(\w+)|[^({=;]*?(\w+)\s*[({=;]", head)
            out.append(((m and (m.group(1) or m.group(2))) or "declaration", begin, line, start, i))
            start = None
    return out


def headers_compile(src, ctx, name, extra):
    """Do the headers a driver includes compile as they are?"""
    inc = "".join(l + "\n" for l in src.split("\n") if l.startswith("#include"))
    try:
        ir.compile_ir(inc, ctx.scratch, name + "_headers", extra=extra)
        return True
    except Broken:
        return False


def compile_driver(ctx, src, name, extra):
    """Compiles a driver; parts that do not fit the current code (renamed internals) and the entries
    that need them are dropped, and these entries are undecided."""
    full = src
    for attempt in range(12):
        try:
            return ir.compile_ir(src, ctx.scratch, name, extra=extra)
        except Broken as e:
            err = getattr(e, "log", "")
            lines = set(int(x) for x in re.findall(re.escape(name) + r"\.cpp:(\d+)", err))
            spans = entry_spans(src)
            got = set(s[3] for s in spans)
            bad = [s for s in spans if any(s[1] <= n <= s[2] for n in lines)]
            if attempt:
                inside = [(s[3], s[4]) for s in spans]
                bad += [s for s in chunk_spans(src) if any(s[1] <= n <= s[2] for n in lines) and not any(a < s[4] and s[3] < b for a, b in inside)]
            elif not bad:
                continue
            if not bad or attempt == 11:
                if headers_compile(full, ctx, name, extra):
                    ctx.undecided("driver/whole", "driver " + name, "does not compile against the current code")
                    return None
                raise
            for nm, a, b, i, j in sorted(bad, key=lambda s: -s[3]):
                if i in got:
                    ctx.undecided("driver/" + nm, "entry " + nm, "does not compile against the current code")
                src = src[:i] + "\n" * src.count("\n", i, j) + src[j:]
    return None


def analyse_all(ctx, src, cfg=None, timeout=120, name="driver", jobs=8, extra=()):
    """Compiles the driver and analyses all its entries in parallel."""
    mod = compile_driver(ctx, PRELUDE + src, name, extra)
    if mod is None:
        return None, []
    mod.demangle_all()
    es = entries(mod)
    if not es:
        return mod, []
    _G["a"] = (mod, cfg, timeout)
    mp = multiprocessing.get_context("fork")
    if jobs == 1 or len(es) == 1:
        res = [_work(e) for e in es]
    else:
        with mp.Pool(min(jobs, len(es)), maxtasksperchild=4) as p:
            res = p.map(_work, es, chunksize=1)
    return mod, res


def settle(ctx, rule, src, cfg=None, timeout=120, name="driver", reach=(), keyfn=None, extra=(), expect=None):
    """Standard evaluation of a driver file: every entry is one rule instance."""
    mod, res = analyse_all(ctx, src, cfg, timeout, name, extra=extra)
    for r in res:
        if r.err:
            # an internal error of the analysis: no verdict for this entry
            sys.stderr.write("entry %s: %s\n" % (r.name, r.err[-1500:]))
            ctx.undecided(rule + "/" + r.name[2:], "entry " + r.name, "internal error of the analysis: " + r.err.strip().split("\n")[-1][:200])
            continue
        rn = rule + "/" + r.name[2:]
        for m, n in r.ok.items():
            ctx.ok(rn, "%s [%s]" % (m, r.name[2:]))
            ctx.count("abstract_states_checked", n)
        ctx.count("ir_instructions_interpreted", r.steps)
        ctx.count("entries_analysed")
        for f in r.fns:
            if "Caitlyn::" in f:
                ctx.functions.add(f[:200])
        seen = set()
        for msg, where in r.viol:
            if (msg, where) in seen:
                continue
            seen.add((msg, where))
            ctx.violation(rn, where, msg, key="%s|%s|%s" % (rn, msg, re.sub(r"^\S+:\d+ in ", "", where)))
        for msg, where, why in r.und:
            ctx.undecided(rn, where, "%s (%s)" % (msg, why))
        if os.environ.get("VP_DEBUG"):
            print("  %-28s %.1fs outs=%d steps=%d ok=%d viol=%d und=%d reach=%s %s" % (r.name, r.wall, r.outs, r.steps, len(r.ok), len(r.viol), len(r.und), r.reach, r.unmodelled or ""))
            for x in r.und[:5]:
                print("      und", x)
            for x in r.viol[:5]:
                print("      VIOL", x)
    return mod, res


def reached(ctx, res, n):
    """Guards against vacuity: every entry reaches its end unless it already has something to say."""
    dropped = sum(1 for r in ctx.obligations if r.startswith("driver/"))
    ctx.need(len(res) + dropped, n, "entries")
    for r in res:
        ctx.need(sum(r.reach.values()) + len(r.viol) + len(r.und) + (1 if r.err else 0), 1, "paths reaching the end of " + r.name)
