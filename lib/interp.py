"""Transfer functions of IR instructions, calls, exceptions and control flow."""
import struct
import re, time
from eng import Eng, State, Obj, Frame, Fault, Bounds, Giveup, U, NULL, N, sgn, fconst
from dom import add, sub, scale, addc, const, var
import ir

STD_BASES = {
    "St9exception": None, "St11logic_error": "St9exception", "St13runtime_error": "St9exception", "St16invalid_argument": "St11logic_error",
    "St12domain_error": "St11logic_error", "St12length_error": "St11logic_error", "St12out_of_range": "St11logic_error",
    "St11range_error": "St13runtime_error", "St14overflow_error": "St13runtime_error", "St15underflow_error": "St13runtime_error",
    "St9bad_alloc": "St9exception", "St20bad_array_new_length": "St9bad_alloc", "St8bad_cast": "St9exception", "St10bad_typeid": "St9exception",
    "St13bad_exception": "St9exception", "St12system_error": "St13runtime_error", "NSt8ios_base7failureB5cxx11E": "St12system_error",
    "St17bad_function_call": "St9exception", "St8bad_weak_ptr": "St9exception"}


class Interp(Eng):
    def __init__(self, mod, ctx=None):
        super().__init__(mod, ctx)
        self.rt = {}          # mangled name -> handler(eng, st, args, inst, fn) -> outcomes
        self.tid = {}
        self.envs = []
        self.recdepth = {}
        self.summaries = {}
        self.loopstats = {}
        install_runtime(self)

    # ------------------------------------------------------------ entry
    def hook(self, pattern, handler):
        self.hooks.append((re.compile(pattern), handler))

    def run(self, name, args, st):
        f = self.mod.funcs[name]
        return self.call_fn(f, args, st, None)

    # ------------------------------------------------------------ calls
    def call_fn(self, f, args, st, inst):
        """Outcomes [(kind, value, state)], kind in ret|throw."""
        name = f.name
        h = self.hcache.get(name)
        if h is None:
            h = ()
            if name in self.rt:
                h = (self.rt[name],)
            else:
                d = self.mod.dem(name)
                for rx, fn in self.hooks:
                    if rx.match(d):
                        h += (fn,)
            self.hcache[name] = h
        for fn in h:
            self.stack.append((f, None))
            try:
                r = fn(self, st, args, inst, f)
            except Fault as e:
                self.stack.pop()
                self.fault(st, "fault", str(e))
                return []
            except Bounds as b:
                self.stack.pop()
                self.bounds(st, b)
                return []
            except BaseException:
                self.stack.pop()
                raise
            self.stack.pop()
            if r is not None:
                return r
        if f.declared or "available_externally" in (f.attrs or ""):
            return self.unknown_call(f, args, st, inst)
        return self.exec_fn(f, args, st)

    def bounds(self, st, b):
        """The access is not proven to be inside: report the inputs for which it is outside."""
        bad = []
        for L in (addc(scale(b.off, -1), -1), addc(sub(b.off, b.size), b.n - 1)):
            s = self.ge(st.copy(), L)
            if s is not None:
                bad.append((s, L))
        for s, L in bad[:1] if bad else []:
            self.fault(s, "bounds", "%s outside the object: offset %s, %d bytes, size %s" % (b.what, self.show(b.off), b.n, self.show(b.size)))

    def show(self, L):
        return " + ".join([str(L[0])] + ["%d*%s" % (c, self.sy.name[s]) if c != 1 else self.sy.name[s] for s, c in L[1]])

    def unknown_call(self, f, args, st, inst):
        if f.name.startswith("llvm."):
            return self.intrinsic(f, args, st, inst)
        self.unmodelled[self.mod.dem(f.name)] = self.unmodelled.get(self.mod.dem(f.name), 0) + 1
        self.taint(st, "unmodelled call " + self.mod.dem(f.name)[:80])
        # anything reachable directly through pointer arguments may have changed
        for a in args:
            if a[0] == "p" and a[1] in st.mem and not st.mem[a[1]].ro:
                o = st.w(a[1])
                o.cells = {}; o.default = "top"
        return [("ret", self.havoc(self.mod.res(f.ret), "result of " + f.name[:30], st), st)]

    def exec_fn(self, f, args, st):
        if len(self.stack) > self.MAXDEPTH:
            raise Giveup("call depth")
        d = self.recdepth.get(f.name, 0)
        if d >= self.MAXREC:
            raise Giveup("recursion of " + self.mod.dem(f.name)[:80])
        self.recdepth[f.name] = d + 1
        self.mod.body(f)
        self.fnseen.add(f.name)
        fr = Frame()
        fr.fn = f; fr.allocas = []
        env = {}
        for (t, nm, a), v in zip(f.params, args):
            env[nm] = v
        if f.byval:
            for i, bt in f.byval.items():
                n = self.mod.size(bt)
                oid = self.alloc(st, "stack", const(n), U, {"byval": True, "fn": f.name})
                copy_bytes(self, st, ("p", oid, 0, ()), args[i], n)
                env[f.params[i][1]] = ("p", oid, 0, ())
                env.setdefault("#al", ())
                env["#al"] += (oid,)
        outs = []
        self.stack.append((f, None))
        try:
            ex, backs = self.region(fr, None, None, [(f.entry, None, env, st)], outs)
        finally:
            self.stack.pop()
            self.recdepth[f.name] = d
        res = []
        for kind, v, s, e in outs:
            for oid in e.get("#al", ()):
                if oid in s.mem:
                    self.free(s, oid, "local of " + self.mod.dem(f.name)[:60])
            res.append((kind, v, s))
        if len(res) > self.MAXOUT:
            raise Giveup("too many paths in " + self.mod.dem(f.name)[:80])
        if len(res) > self.MERGE:
            res = self.merge_outs(res)
        return res

    MERGE = 10

    def merge_outs(self, res):
        return res

    # ------------------------------------------------------------ control flow
    def region(self, fr, body, head, items, outs):
        """Propagates items through the blocks of body (None: whole function).
        Returns (exits, backs): items leaving the region / returning to head."""
        f = fr.fn
        q = {}
        for blk, pred, env, st in items:
            q.setdefault(blk, []).append((pred, env, st))
        exits, backs = [], []
        first = head is not None
        while q:
            b = min(q, key=lambda n: f.blocks[n].idx)
            its = q.pop(b)
            if b in f.loops and not (b == head):
                ex = self.loop(fr, b, its, outs)
                edges = ex
            else:
                edges = []
                if len(its) > self.JOIN:
                    its = self.join_items(fr, b, its)
                for pred, env, st in its:
                    edges += self.exec_block(fr, f.blocks[b], pred, env, st, outs)
            for tgt, pred, env, st in edges:
                if tgt == head:
                    backs.append((tgt, pred, env, st))
                elif body is not None and tgt not in body:
                    exits.append((tgt, pred, env, st))
                else:
                    q.setdefault(tgt, []).append((pred, env, st))
        return exits, backs

    MAXITEMS = 400
    JOIN = 40

    def join_items(self, fr, b, its):
        return its

    def loop(self, fr, h, its, outs):
        f = fr.fn
        body = f.loops[h]
        exits = []
        cur = [(h, p, e, s) for p, e, s in its]
        und = 0
        n = 0
        entry = cur
        while cur:
            if und >= self.UNROLL or n > self.CONC:
                if not self.genloops:
                    self.giveup("loop in " + self.mod.dem(f.name)[:100])
                    return exits
                return exits + self.generalise(fr, h, entry, cur, outs)
            no = len(outs)
            prev = cur
            ex, cur = self.region(fr, body, h, cur, outs)
            n += 1
            exits += ex
            if cur and (ex or len(outs) > no):
                und += 1
            if len(cur) > self.MAXITEMS and n > 2:
                und = self.UNROLL
        return exits

    def generalise(self, fr, h, entry, cur, outs):
        self.giveup("loop in " + self.mod.dem(fr.fn.name)[:100])
        return []

    def giveup(self, why):
        self.giveups[why] = self.giveups.get(why, 0) + 1

    def exec_block(self, fr, blk, pred, env, st, outs):
        """Executes one block; returns edges (target, pred, env, state)."""
        edges = []
        if blk.phis and pred is not None:
            new = {}
            for ph in blk.phis:
                t, inc = ph.x
                new[ph.res] = self.val(st, env, inc[pred], t)
            env = dict(env)
            env.update(new)
        work = [(0, env, st)]
        insts = blk.insts
        n = len(insts)
        while work:
            i, env, st = work.pop()
            while True:
                inst = insts[i]
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Giveup("analysis budget")
                if self.deadline and (self.steps & 255) == 0 and (time.process_time() > self.deadline[0] or time.time() > self.deadline[1]):
                    raise Giveup("time budget")
                op = inst.op
                self.stack[-1] = (fr.fn, inst)
                try:
                    if op in ("br", "ret", "switch", "unreachable", "resume"):
                        self.terminator(fr, blk, inst, env, st, edges, outs)
                        break
                    if op in ("call", "invoke"):
                        res = self.do_call(fr, inst, env, st)
                        self.stack[-1] = (fr.fn, inst)
                        nxt = []
                        for kind, v, s in res:
                            if kind == "ret":
                                e = env if len(res) == 1 else dict(env)
                                if inst.res is not None:
                                    if e is env:
                                        e = dict(env)
                                    e[inst.res] = v
                                if op == "invoke":
                                    edges.append((inst.x[5], blk.name, e, s))
                                else:
                                    nxt.append((i + 1, e, s))
                            elif kind == "throw":
                                if op == "invoke":
                                    e = dict(env)
                                    self.unwind(fr, blk, inst, v, e, s, edges, outs)
                                else:
                                    outs.append(("throw", v, s, env))
                        if not nxt:
                            break
                        i, env, st = nxt[0]
                        work += nxt[1:]
                        continue
                    r = self.simple(inst, env, st)
                except Fault as e:
                    self.fault(st, "fault", str(e))
                    break
                except Bounds as b:
                    self.bounds(st, b)
                    break
                if not r:
                    break
                if len(r) == 1:
                    v, st = r[0]
                    if inst.res is not None:
                        env = dict(env)
                        env[inst.res] = v
                        if op == "alloca":
                            env["#al"] = env.get("#al", ()) + (v[1],)
                else:
                    for v, s in r[1:]:
                        e = dict(env)
                        if inst.res is not None:
                            e[inst.res] = v
                        work.append((i + 1, e, s))
                    v, st = r[0]
                    env = dict(env)
                    if inst.res is not None:
                        env[inst.res] = v
                i += 1
        return edges

    def unwind(self, fr, blk, inst, exc, env, st, edges, outs):
        lp = fr.fn.blocks[inst.x[6]]
        lpi = next(x for x in lp.insts if x.op == "landingpad")
        _, clauses, cleanup = lpi.x
        ti = self.exc_ti(st, exc)
        sel = None
        for k, v in clauses:
            if k == "catch":
                if v[0] == "null":
                    sel = self.typeid("*")
                    break
                if self.derives(ti, v[1]):
                    sel = self.typeid(v[1])
                    break
            elif k == "filter":
                sel = -1
                break
        if sel is None:
            if not cleanup:
                outs.append(("throw", exc, st, env))
                return
            sel = 0
        env["#exc"] = ("a", (exc, N(32, sel)))
        edges.append((inst.x[6], blk.name, env, st))

    def exc_ti(self, st, exc):
        o = st.mem.get(exc[1])
        return o.meta["ti"] if o is not None and o.meta else "?"

    def typeid(self, n):
        return self.tid.setdefault(n, len(self.tid) + 1)

    def derives(self, ti, base):
        """Is the class with typeinfo ti the class base or derived from it?"""
        seen = 0
        work = [ti]
        while work and seen < 60:
            seen += 1
            t = work.pop()
            if t == base:
                return True
            short = t[4:] if t.startswith("_ZTI") else t
            if short in STD_BASES:
                b = STD_BASES[short]
                if b:
                    work.append("_ZTI" + b)
                continue
            g = self.mod.gvar(t)
            if g and g["init"] and g["init"][0] == "agg":
                for et, ev in g["init"][1][2:]:
                    if ev[0] == "g":
                        work.append(ev[1])
        return False

    def terminator(self, fr, blk, inst, env, st, edges, outs):
        op = inst.op
        if op == "br":
            if len(inst.x) == 1:
                edges.append((inst.x[0], blk.name, env, st))
                return
            c = self.val(st, env, inst.x[0], ir.I1)
            cond = self.cond(c)
            r = self.split(st, cond)
            if inst.x[1] == inst.x[2]:
                edges.append((inst.x[1], blk.name, env, st))
                return
            if self.obs is not None and len(r) == 2:
                self.obs(self, fr, blk, inst, cond)
            for s, t in r:
                edges.append((inst.x[1] if t else inst.x[2], blk.name, env, s))
            return
        if op == "switch":
            t, c, d, cases = inst.x
            v = self.val(st, env, c, t)
            for s, nv in self.tonum(st, v):
                if not nv[3]:
                    tgt = d
                    for k, l in cases:
                        if (k & ((1 << t.a) - 1)) == nv[2]:
                            tgt = l
                    edges.append((tgt, blk.name, env, s))
                    continue
                for s1, L in self.norm(s, nv, False):
                    rest = s1.copy()
                    bytgt = {}
                    for k, l in cases:
                        k &= (1 << t.a) - 1
                        s2 = self.eq(s1.copy(), addc(L, -k))
                        if s2 is not None:
                            edges.append((l, blk.name, env, s2))
                        rest = self.ne(rest, addc(L, -k)) if rest is not None else None
                    if rest is not None:
                        edges.append((d, blk.name, env, rest))
            return
        if op == "ret":
            v = U if inst.x[1] is None else self.val(st, env, inst.x[1], inst.x[0])
            outs.append(("ret", v, st, env))
            return
        if op == "unreachable":
            # falling off after a noreturn call or __builtin_unreachable
            prev = blk.insts[-2] if len(blk.insts) > 1 else None
            if prev is None or prev.op not in ("call",):
                self.fault(st, "unreachable", "control reaches code declared unreachable")
            return
        if op == "resume":
            v = self.val(st, env, inst.x[1], inst.x[0])
            outs.append(("throw", v[1][0], st, env))
            return

    def cond(self, v):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "u":
            raise Fault("branch on an uninitialised value")
        if k == "n":
            if not v[3]:
                return bool(v[2] & 1)
            return ("cmp", "ne", v, N(v[1], 0))
        if k == "z":
            return v[2]
        raise Giveup("condition from %r" % (v,))

    def val(self, st, env, o, t):
        if o[0] == "l":
            return env[o[1]]
        return self.cval(st, o, t)

    def do_call(self, fr, inst, env, st):
        rt, callee, args = inst.x[:3]
        av = []
        for t, v, a in args:
            av.append(self.val(st, env, v, t) if v[0] != "undef" or t.k != "meta" else U)
        if callee[0] == "g":
            n = self.mod.aliases.get(callee[1], callee[1])
            f = self.mod.funcs.get(n)
            if f is None:
                raise Giveup("call of " + n)
            return self.call_fn(f, av, st, inst)
        if callee[0] == "asm":
            return [("ret", U, st)]
        c = self.val(st, env, callee, ir.PTR)
        if c[0] == "p" and isinstance(c[1], str) and c[1].startswith("fn:"):
            f = self.mod.funcs.get(c[1][3:])
            if f is None:
                h = self.rt.get(c[1][3:])
                if h is None:
                    raise Giveup("call of " + c[1][3:])
                return h(self, st, av, inst, None)
            return self.call_fn(f, av, st, inst)
        if c[0] == "p" and c[1] == 0:
            raise Fault("call through a null function pointer")
        if c[0] == "u":
            raise Fault("call through an uninitialised function pointer")
        if self.on_indirect is not None:
            r = self.on_indirect(self, st, c, av, inst)
            if r is not None:
                return r
        raise Giveup("indirect call")

    on_indirect = None

    # ------------------------------------------------------------ instructions
    def simple(self, inst, env, st):
        op, x = inst.op, inst.x
        if op == "load":
            p = self.val(st, env, x[1], ir.PTR)
            return [(v, s) for s, v in self.loadp(st, p, x[0])]
        if op == "store":
            v = self.val(st, env, x[1], x[0])
            p = self.val(st, env, x[2], ir.PTR)
            if p[0] == "q":
                raise Giveup("write through an unknown pointer")
            self.store(st, p, v, x[0])
            return [(U, st)]
        if op == "getelementptr":
            t, base, idx, bt = x
            b = self.val(st, env, base, ir.PTR)
            ix = []
            res = [(st, [])]
            for it, iv in idx:
                if iv[0] == "l":
                    v = env[iv[1]]
                    nx = []
                    for s, acc in res:
                        for s1, nv in self.tonum(s, v):
                            for s2, L in self.norm(s1, nv, True):
                                nx.append((s2, acc + [(it, ("L", L))]))
                    res = nx
                else:
                    res = [(s, acc + [(it, iv)]) for s, acc in res]
            out = []
            for s, acc in res:
                out.append((self.padd(b, self.gepoff(s, env, t, acc)), s))
            return out
        if op == "alloca":
            t, n = x
            nv = self.val(st, env, n, ir.I64)
            oid = self.alloc(st, "stack", const(self.mod.size(t) * nv[2]), U, {"fn": self.stack[-1][0].name, "name": inst.res, "ty": t})
            return [(("p", oid, 0, ()), st)]
        if op == "icmp":
            pr, t, a, b = x
            return self.icmp(st, pr, self.val(st, env, a, t), self.val(st, env, b, t))
        if op in ir.BIN:
            t, a, b, fl = x
            return self.binop(st, op, t, self.val(st, env, a, t), self.val(st, env, b, t), fl)
        if op in ir.CAST:
            t, a, t2, fl = x
            return self.cast(st, op, t, self.val(st, env, a, t), t2)
        if op == "select":
            t, c, a, b, ct = x
            va, vb = self.val(st, env, a, t), self.val(st, env, b, t)
            return [(va if tr else vb, s) for s, tr in self.split(st, self.cond(self.val(st, env, c, ct)))]
        if op == "extractvalue":
            t, a, ix = x
            v = self.val(st, env, a, t)
            if v[0] == "u":
                return [(U, st)]
            for i in ix:
                if v[0] != "a":
                    raise Giveup("extractvalue")
                v = v[1][i]
            return [(v, st)]
        if op == "insertvalue":
            t, a, t2, b, ix = x
            v = self.val(st, env, a, t)
            w = self.val(st, env, b, t2)
            return [(self.insert(v, w, ix, t), st)]
        if op == "landingpad":
            return [(env["#exc"], st)]
        if op == "fcmp":
            pr, t, a, b = x
            va, vb = self.val(st, env, a, t), self.val(st, env, b, t)
            ta, tb = self.fterm(va), self.fterm(vb)
            fa, fb = fconst(ta), fconst(tb)
            c = ("fc", pr, ta, tb)
            if fa is not None and fb is not None:
                c = bool(self.assume_fcmp(st.copy(), pr, ta, tb, True))
            return [(("c", c), st)]
        if op == "atomicrmw":
            o, t, a, b, order = x
            p = self.val(st, env, a, ir.PTR)
            v = self.val(st, env, b, t)
            if self.on_rmw is not None:
                r = self.on_rmw(self, st, o, p, v, t, order, inst)
                if r is not None:
                    return r
            out = []
            for s, old in self.loadp(st, p, t):
                if o in ("add", "sub"):
                    for nv, s2 in self.binop(s, o, t, old, v, ()):
                        self.store(s2, p, nv, t)
                        out.append((old, s2))
                elif o == "xchg":
                    self.store(s, p, v, t); out.append((old, s))
                else:
                    for nv, s2 in self.binop(s, o, t, old, v, ()):
                        self.store(s2, p, nv, t)
                        out.append((old, s2))
            return out
        if op == "cmpxchg":
            t, a, b, c, o = x
            p = self.val(st, env, a, ir.PTR); exp = self.val(st, env, b, t); new = self.val(st, env, c, t)
            if self.on_cas is not None:
                r = self.on_cas(self, st, p, exp, new, t, inst)
                if r is not None:
                    return r
            out = []
            for s, old in self.loadp(st, p, t):
                for cv, s2 in self.icmp(s, "eq", old, exp):
                    for s3, tr in self.split(s2, self.cond(cv)):
                        if tr:
                            self.store(s3, p, new, t)
                        out.append((("a", (old, ("c", tr))), s3))
            return out
        if op == "fence":
            return [(U, st)]
        if op == "freeze":
            return [(self.val(st, env, x[1], x[0]), st)]
        if op == "fneg":
            v = self.fterm(self.val(st, env, x[1], x[0]))
            c = fconst(v)
            return [(("f", ("k", -c) if c is not None else ("neg", v)), st)]
        raise Giveup("instruction " + str(x[0])[:60])

    on_rmw = None
    on_cas = None

    def loadp(self, st, p, t):
        if p[0] == "q":
            raise Giveup("read through an unknown pointer")
        return self.load(st, p, t)

    def insert(self, v, w, ix, t):
        r = self.mod.res(t)
        n = len(r.a) if r.k == "struct" else r.a
        parts = list(v[1]) if v[0] == "a" else [U] * n
        if len(ix) == 1:
            parts[ix[0]] = w
        else:
            et = r.a[ix[0]] if r.k == "struct" else r.b
            parts[ix[0]] = self.insert(parts[ix[0]], w, ix[1:], et)
        return ("a", tuple(parts))

    def fterm(self, v):
        if v[0] == "f":
            return v[1]
        if v[0] == "n" and not v[3] and v[2] == 0:
            return ("k", 0.0)
        if v[0] == "u":
            raise Fault("use of an uninitialised value")
        return ("of", v)

    def icmp(self, st, pr, a, b):
        if a[0] == "u" or b[0] == "u":
            return [(U, st)]
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if isinstance(y, bool) and pr in ("eq", "ne"):
                same = y if pr == "eq" else not y
                return [(("c", x if same else neg(x)), st)]
            out = []
            for s, tx in self.split(st, x):
                for s2, ty in self.split(s, y):
                    ca, cb = (-int(tx), -int(ty)) if pr[0] == "s" else (int(tx), int(ty))
                    out.append((("c", concmp(pr, ca, cb)), s2))
            return out
        if a[0] == "z" and b[0] == "n" and not b[3] and pr in ("eq", "ne"):
            if b[2] == 0:
                return [(("c", neg(a[2]) if pr == "eq" else a[2]), st)]
            if b[2] == 1:
                return [(("c", a[2] if pr == "eq" else neg(a[2])), st)]
            return [(("c", pr == "ne"), st)]
        if a[0] == "q" or b[0] == "q":
            if a == b and pr in ("eq", "ne"):
                return [(("c", pr == "eq"), st)]
            if pr in ("eq", "ne"):
                c = ("sb", ("weak", "qeq", tuple(sorted((a, b), key=repr))))
                return [(("c", c if pr == "eq" else neg(c)), st)]
            raise Giveup("comparison of unknown pointers")
        if a[0] == "p" and b[0] == "p":
            if a[1] != b[1]:
                if pr in ("eq", "ne"):
                    return [(("c", pr == "ne"), st)]
                a, b = self.p2i(st, a), self.p2i(st, b)
            else:
                a, b = N(64, a[2], a[3]), N(64, b[2], b[3])
                if a == b:
                    return [(("c", pr in ("eq", "ule", "uge", "sle", "sge")), st)]
                D = sub((a[2], a[3]), (b[2], b[3]))
                # offsets of one object: compare as signed quantities
                if pr in ("eq", "ne"):
                    return [(("c", self.cmpc(st, pr, a, b)), st)]
                return [(("c", self.cmpc(st, "s" + pr[1:], a, b)), st)]
        out = []
        if a[0] != "n" or b[0] != "n":
            for s, na in self.tonum(st, a):
                for s2, nb in self.tonum(s, b):
                    out.append((("c", self.cmpc(s2, pr, na, nb)), s2))
            return out
        return [(("c", self.cmpc(st, pr, a, b)), st)]

    def cmpc(self, st, pr, a, b):
        if not a[3] and not b[3]:
            w = a[1]
            if pr[0] == "s":
                return concmp(pr, sgn(a[2], w), sgn(b[2], w))
            return concmp(pr, a[2] & ((1 << w) - 1), b[2] & ((1 << w) - 1))
        if a == b:
            return pr in ("eq", "ule", "uge", "sle", "sge")
        w = a[1]
        signed = pr[0] == "s"
        m = 1 << w
        lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        A, B = (a[2], a[3]), (b[2], b[3])
        if not A[1]:
            A = const(sgn(A[0], w) if signed else A[0] % m)
        if not B[1]:
            B = const(sgn(B[0], w) if signed else B[0] % m)
        ra, rb = st.num.rng(self.sy, A), st.num.rng(self.sy, B)
        if ra[0] >= lo and ra[1] <= hi and rb[0] >= lo and rb[1] <= hi:
            p = pr if pr in ("eq", "ne") else pr[1:]
            D = sub(A, B)
            l, h = st.num.rng(self.sy, D)
            if p in ("eq", "ne"):
                if l > 0 or h < 0:
                    return p == "ne"
                if l == h == 0:
                    return p == "eq"
            elif p == "lt":
                if h < 0: return True
                if l >= 0: return False
            elif p == "le":
                if h <= 0: return True
                if l > 0: return False
            elif p == "gt":
                if l > 0: return True
                if h <= 0: return False
            elif p == "ge":
                if l >= 0: return True
                if h < 0: return False
        return ("cmp", pr, a, b)

    def cast(self, st, op, t, v, t2):
        k = v[0]
        if k == "u":
            return [(U, st)]
        if op in ("bitcast", "addrspacecast", "freeze"):
            if t.k == "float" and t2.k == "int" or t.k == "int" and t2.k == "float":
                return [(("f", ("bits", v)) if t2.k == "float" else self.tonum(st, v, t2.a)[0][1], st)]
            return [(v, st)]
        if op == "zext":
            if k == "c":
                c = v[1]
                return [(N(t2.a, int(c)) if isinstance(c, bool) else ("z", t2.a, c), st)]
            if k == "z":
                return [(("z", t2.a, v[2]), st)]
            out = []
            for s, nv in self.tonum(st, v, t.a):
                for s2, L in self.norm(s, nv, False):
                    out.append((N(t2.a, L[0], L[1]), s2))
            return out
        if op == "sext":
            if k == "c":
                c = v[1]
                if isinstance(c, bool):
                    return [(N(t2.a, -int(c)), st)]
                return [(N(t2.a, -1 if tr else 0), s) for s, tr in self.split(st, c)]
            out = []
            for s, nv in self.tonum(st, v, t.a):
                for s2, L in self.norm(s, nv, True):
                    out.append((N(t2.a, L[0], L[1]), s2))
            return out
        if op == "trunc":
            if k == "z":
                if t2.a == 1:
                    return [(("c", v[2]), st)]
                return [(("z", t2.a, v[2]), st)]
            out = []
            for s, nv in self.tonum(st, v, t.a):
                if t2.a == 1:
                    if not nv[3]:
                        out.append((("c", bool(nv[2] & 1)), s))
                        continue
                    for s2, L in self.norm(s, nv, False):
                        a, b = s2.num.rng(self.sy, L)
                        if a >= 0 and b <= 1:
                            out.append((("c", ("cmp", "ne", N(8, L[0], L[1]), N(8, 0))), s2))
                        else:
                            R = sub(L, scale(self.divc(s2, L, 2), 2))
                            out.append((("c", ("cmp", "ne", N(8, R[0], R[1]), N(8, 0))), s2))
                else:
                    out.append((N(t2.a, nv[2], nv[3]), s))
            return out
        if op == "ptrtoint":
            if k == "p":
                w = self.p2i(st, v)
                return [(N(t2.a, w[2], w[3]), st)]
            if k == "q":
                x = self.memo(("q2i", v), lambda: self.fresh(64, "addr?", weak=True))
                return [(N(64, 0, ((x, 1),)), st)]
            return [(v, st)]
        if op == "inttoptr":
            return [(self.i2p(st, v), st)]
        if op in ("sitofp", "uitofp"):
            out = []
            for s, nv in self.tonum(st, v, t.a):
                if not nv[3]:
                    c = sgn(nv[2], nv[1]) if op == "sitofp" else nv[2]
                    out.append((("f", ("k", float(c))), s))
                else:
                    out.append((("f", (op, nv)), s))
            return out
        if op in ("fptosi", "fptoui"):
            ft = self.fterm(v)
            c = fconst(ft)
            if c is not None and c == c and abs(c) < 2.0 ** 63:
                return [(N(t2.a, int(c)), st)]
            if ft[0] in ("sitofp", "uitofp") and ft[1][1] <= 32:
                nv = ft[1]
                out = []
                for s, L in self.norm(st, nv, ft[0] == "sitofp"):
                    out.append((N(t2.a, L[0], L[1]), s))
                return out
            x = self.memo((op, ft, t2.a), lambda: self.fresh(t2.a, "int(f)", signed=op == "fptosi", weak=True))
            return [(N(t2.a, 0, ((x, 1),)), st)]
        if op in ("fptrunc", "fpext"):
            ft = self.fterm(v)
            if fconst(ft) is not None and op == "fpext":
                return [(("f", ft), st)]
            if fconst(ft) is not None and t2.a == "float":
                try:
                    return [(("f", ("k", struct.unpack("f", struct.pack("f", fconst(ft)))[0])), st)]
                except OverflowError:
                    return [(("f", ("k", float("inf") if fconst(ft) > 0 else -float("inf"))), st)]
            if fconst(ft) is not None and t2.a == "double":
                return [(("f", ft), st)]
            return [(("f", (op, t.a, t2.a, ft)), st)]
        raise Giveup("cast " + op)

    def binop(self, st, op, t, a, b, fl):
        if op[0] == "f":
            ta, tb = self.fterm(a), self.fterm(b)
            return [(("f", self.fop(op, ta, tb, t.a)), st)]
        if a[0] == "u" or b[0] == "u":
            return [(U, st)]
        if t.k != "int":
            raise Giveup("vector arithmetic")
        if t.a == 1 or (a[0] in "cz" and b[0] in "cz" and op in ("and", "or", "xor")):
            if op in ("and", "or", "xor"):
                ca, cb = self.cond(a), self.cond(b)
                r = boolop(op, ca, cb)
                if r is None:
                    out = []
                    for s, ta in self.split(st, ca):
                        for s2, tb in self.split(s, cb):
                            out.append((("c", ta != tb) if t.a == 1 else N(t.a, int(ta != tb)), s2))
                    return out
                if t.a == 1:
                    return [(("c", r), st)]
                return [(N(t.a, int(r)) if isinstance(r, bool) else ("z", t.a, r), st)]
        out = []
        for s, na in self.tonum(st, a, t.a):
            for s2, nb in self.tonum(s, b, t.a):
                out += self.intop(s2, op, t.a, na, nb, fl)
        return out

    def intop(self, st, op, w, a, b, fl):
        A, B = (a[2], a[3]), (b[2], b[3])
        m = 1 << w
        if op in ("add", "sub"):
            R = add(A, B, 1 if op == "add" else -1)
            if not B[1] and B[0] >= m >> 1:
                R = add(A, const(sgn(B[0], w)), 1 if op == "add" else -1)
            elif not A[1] and A[0] >= m >> 1:
                R = add(const(sgn(A[0], w)), B, 1 if op == "add" else -1)
            v = N(w, R[0], R[1])
            if "nsw" in fl and R[1]:
                h = (m >> 1) - 1
                ra, rb = st.num.rng(self.sy, R)
                if ra < -h - 1 or rb > h:
                    # signed overflow is undefined: only the mathematical sum continues
                    for X in (A, B):
                        xa, xb = st.num.rng(self.sy, X)
                        if xa < -h - 1 or xb > h:
                            break
                    else:
                        s = self.ge(st.copy(), addc(scale(R, -1), h))
                        s = self.ge(s, addc(R, h + 1)) if s is not None else None
                        if s is None:
                            return []
                        return [(v, s)]
            return [(v, st)]
        if op == "mul":
            if not B[1]:
                R = scale(A, sgn(B[0], w))
                return [(N(w, R[0], R[1]), st)]
            if not A[1]:
                R = scale(B, sgn(A[0], w))
                return [(N(w, R[0], R[1]), st)]
            x, y = sorted((A, B))
            ra, rb = st.num.rng(self.sy, x), st.num.rng(self.sy, y)
            ps = [p * q for p in ra for q in rb]
            lo, hi = min(ps), max(ps)
            if "nsw" in fl and (lo < -(m >> 1) or hi >= m >> 1):
                lo, hi = max(lo, -(m >> 1)), min(hi, (m >> 1) - 1)
            elif lo < 0 or hi >= m:
                lo, hi = 0, m - 1
            s = self.memo(("mul", x, y, lo, hi), lambda: self.fresh(w, "product", lo=lo, hi=hi, weak=True))
            return [(N(w, 0, ((s, 1),)), st)]
        if op == "shl":
            if not B[1]:
                k = B[0]
                if k >= w:
                    raise Fault("shift by %d of a %d-bit value" % (k, w))
                R = scale(A, 1 << k)
                return [(N(w, R[0], R[1]), st)]
            return [(self.opaque(st, op, w, A, B), st)]
        if op in ("udiv", "urem", "lshr", "sdiv", "srem", "ashr"):
            signed = op in ("sdiv", "srem", "ashr")
            if op in ("sdiv", "srem", "udiv", "urem"):
                # division by zero
                out0 = []
                if not B[1]:
                    if B[0] == 0:
                        raise Fault("division by zero")
                else:
                    z = self.assume_cmp(st.copy(), "eq", b, N(w, 0), True)
                    if z:
                        for s in z:
                            self.fault(s, "divzero", "division by zero")
                        nz = self.assume_cmp(st, "ne", b, N(w, 0), True)
                        if not nz:
                            return []
                        st = nz[0]
            if not B[1]:
                c = B[0]
                if op in ("lshr", "ashr"):
                    if c >= w:
                        raise Fault("shift by %d of a %d-bit value" % (c, w))
                    c = 1 << c
                elif signed:
                    c = sgn(c, w)
                if c > 0:
                    out = []
                    for s, L in self.norm(st, a, signed):
                        lo, hi = s.num.rng(self.sy, L)
                        parts = []
                        if not signed or op == "ashr" or lo >= 0:
                            parts = [(s, self.divc(s, L, c))]
                        else:
                            sp = self.ge(s.copy(), L)
                            sn = self.ge(s.copy(), addc(scale(L, -1), -1))
                            if sp is not None:
                                parts.append((sp, self.divc(sp, L, c)))
                            if sn is not None:
                                parts.append((sn, scale(self.divc(sn, scale(L, -1), c), -1)))
                        for s2, Q in parts:
                            R = Q if op in ("udiv", "lshr", "sdiv", "ashr") else sub(L, scale(Q, c))
                            out.append((N(w, R[0], R[1]), s2))
                    return out
            return [(self.opaque(st, op, w, A, B), st)]
        if op == "and":
            if not A[1]:
                A, B, a, b = B, A, b, a
            if not B[1]:
                k = B[0]
                if k == 0:
                    return [(N(w, 0), st)]
                if k == m - 1:
                    return [(a, st)]
                lo = (k & -k).bit_length() - 1
                top = k >> lo
                if top & (top + 1) == 0:      # contiguous mask
                    hb = lo + top.bit_length()
                    out = []
                    for s, L in self.norm(st, a, False):
                        Q = self.divc(s, L, 1 << lo)
                        if hb < w:
                            Q2 = self.divc(s, L, 1 << hb)
                            Q = sub(Q, scale(Q2, 1 << (hb - lo)))
                        R = scale(Q, 1 << lo)
                        out.append((N(w, R[0], R[1]), s))
                    return out
            if a == b:
                return [(a, st)]
            return [(self.opaque(st, op, w, A, B), st)]
        if op in ("or", "xor"):
            if not B[1] and B[0] == 0:
                return [(a, st)]
            if not A[1] and A[0] == 0:
                return [(b, st)]
            if a == b:
                return [(a if op == "or" else N(w, 0), st)]
            if op == "xor" and not B[1] and B[0] == m - 1:
                R = sub(const(-1), A)
                return [(N(w, R[0], R[1]), st)]
            out = []
            for s, L in self.norm(st, a, False):
                for s2, M in self.norm(s, b, False):
                    if not L[1] and not M[1]:
                        out.append((N(w, L[0] | M[0] if op == "or" else L[0] ^ M[0]), s2))
                        continue
                    ok = False
                    for X, Y in ((L, M), (M, L)):
                        g = 0
                        from math import gcd
                        g = X[0]
                        for _, c in X[1]:
                            g = gcd(g, c)
                        tz = (g & -g) if g else 1 << w
                        if self.inrange(s2, Y, 0, tz - 1):
                            ok = True
                    if not ok and not M[1]:
                        # constant with high bits set over a small value
                        pass
                    if ok:
                        R = add(L, M)
                        out.append((N(w, R[0], R[1]), s2))
                    else:
                        out.append((self.opaque(s2, op, w, L, M), s2))
            return out
        raise Giveup("operation " + op)

    def opaque(self, st, op, w, A, B):
        if not A[1] and not B[1]:
            m = 1 << w
            x, y = A[0] % m, B[0] % m
            if op == "and": return N(w, x & y)
            if op == "or": return N(w, x | y)
            if op == "xor": return N(w, x ^ y)
            if op == "shl": return N(w, x << y)
            if op == "lshr": return N(w, x >> y)
            if op == "ashr": return N(w, sgn(x, w) >> y)
            if op == "udiv": return N(w, x // y)
            if op == "urem": return N(w, x % y)
            sx, sy_ = sgn(x, w), sgn(y, w)
            q = abs(sx) // abs(sy_) * (1 if (sx < 0) == (sy_ < 0) else -1)
            return N(w, q if op == "sdiv" else sx - q * sy_)
        if op in ("and", "or", "xor"):
            A, B = sorted((A, B))
        hi = None
        if op == "and":
            for X in (A, B):
                a, b = st.num.rng(self.sy, X)
                if a >= 0:
                    hi = b if hi is None else min(hi, b)
        s = self.memo((op, w, A, B), lambda: self.fresh(w, op, hi=hi, lo=0, weak=True))
        return N(w, 0, ((s, 1),))

    def fop(self, op, a, b, ty="double"):
        x, y = fconst(a), fconst(b)
        if x is not None and y is not None:
            try:
                r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}.get(op)
                if r:
                    v = r()
                    return ("k", struct.unpack("f", struct.pack("f", v))[0] if ty == "float" else v)
            except (ZeroDivisionError, OverflowError):
                pass
        return (op, a, b)

    # ------------------------------------------------------------ throwing
    def excvt(self, st, p):
        """Gives a standard exception object a virtual table whose what() is modelled."""
        oid = st.g.get("excvt")
        if oid is None or oid not in st.mem:
            oid = self.alloc(st, "global", None, "top", {})
            self.storec(st, oid, 16, 8, ("p", "fn:vp_what", 0, ()))
            st.g["excvt"] = oid
        st.w(p[1])
        self.storec(st, p[1], p[2], 8, ("p", oid, 0, ()))

    def throw(self, st, ti, msg=None):
        """Outcome of throwing a fresh exception object of typeinfo ti."""
        oid = self.alloc(st, "exc", const(64), "top", {"ti": ti, "msg": msg})
        self.excvt(st, ("p", oid, 0, ()))
        return ("throw", ("p", oid, 0, ()), st)


def neg(c):
    if isinstance(c, bool):
        return not c
    if c[0] == "not":
        return c[1]
    return ("not", c)


def boolop(op, a, b):
    if op == "and":
        if a is False or b is False: return False
        if a is True: return b
        if b is True: return a
        return ("and", a, b)
    if op == "or":
        if a is True or b is True: return True
        if a is False: return b
        if b is False: return a
        return ("or", a, b)
    if isinstance(a, bool):
        return neg(b) if a else b
    if isinstance(b, bool):
        return neg(a) if b else a
    if a == b:
        return False
    return None


def concmp(pr, a, b):
    p = pr if pr in ("eq", "ne") else pr[1:]
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]


def copy_bytes(eng, st, dst, src, n):
    """memcpy of a constant number of bytes, cell by cell."""
    if n == 0:
        return
    so, soff = eng.access(st, src, n, "read")
    do, doff = eng.access(st, dst, n, "write")
    if soff is None or doff is None:
        if doff is not None:
            eng.storec(st, dst[1], doff, n, U)
            st.w(dst[1]).default = "top"
        else:
            o = st.w(dst[1]); o.cells = {}; o.default = "top"
        eng.taint(st, "block copy at an unknown position")
        return
    # materialise the source cells
    cells = []
    for o, (cn, cv) in so.cells.items():
        if o < soff + n and soff < o + cn:
            if o >= soff and o + cn <= soff + n:
                cells.append((o, cn, cv))
            elif cv == ("z0",) or cv == U:
                lo, hi = max(o, soff), min(o + cn, soff + n)
                cells.append((lo, hi - lo, cv))
            elif cv[0] == "n" and not cv[3]:
                for i in range(cn):
                    if soff <= o + i < soff + n:
                        cells.append((o + i, 1, N(8, cv[2] >> (8 * i))))
            else:
                eng.taint(st, "partial block copy")
                lo, hi = max(o, soff), min(o + cn, soff + n)
                cells.append((lo, hi - lo, U))
    default = so.default
    gaps = []
    if isinstance(default, tuple) and default[0] == "g":
        covered = set()
        for o, cn, cv in cells:
            covered.update(range(o, o + cn))
        g = eng.mod.gvar(default[1])
        if g is not None and g["init"] is not None:
            for o, w, v in flatten(eng, st, g["init"], g["type"], 0):
                if soff <= o and o + w <= soff + n and o not in covered:
                    cells.append((o, w, v))
        elif g is None or g["ext"]:
            eng.taint(st, "copy of external data")
    elif default == "z":
        covered = sorted((o, cn) for o, cn, _ in cells)
        pos = soff
        for o, cn in covered:
            if o > pos:
                cells.append((pos, o - pos, ("z0",)))
            pos = max(pos, o + cn)
        if pos < soff + n:
            cells.append((pos, soff + n - pos, ("z0",)))
    elif default == "top":
        eng.taint(st, "copy of unknown data")
    eng.storec(st, dst[1], doff, n, U)
    o = st.w(dst[1])
    del o.cells[doff]
    for a, cn, cv in cells:
        o.cells[a - soff + doff] = (cn, cv)
    if o.default not in (U,) :
        # uncovered bytes must not fall back to the old default
        cov = sorted((a - soff + doff, cn) for a, cn, _ in cells)
        pos = doff
        for a, cn in cov:
            if a > pos:
                o.cells[pos] = (a - pos, U)
            pos = max(pos, a + cn)
        if pos < doff + n:
            o.cells[pos] = (doff + n - pos, U)


def flatten(eng, st, init, t, off):
    r = eng.mod.res(t)
    k = init[0]
    if k == "agg":
        if r.k == "struct":
            for o, (et, ev) in zip(eng.mod.offsets(r), init[1]):
                yield from flatten(eng, st, ev, et, off + o)
        else:
            es = eng.mod.size(r.b)
            for i, (et, ev) in enumerate(init[1]):
                yield from flatten(eng, st, ev, et, off + i * es)
    elif k == "str":
        for i, b in enumerate(init[1]):
            yield (off + i, 1, N(8, b))
    elif k == "zero":
        yield (off, eng.mod.size(t), ("z0",))
    elif k == "undef":
        yield (off, eng.mod.size(t), U)
    else:
        v = eng.cval(st, init, t)
        if v[0] == "c":
            v = N(8, int(v[1]))
        yield (off, eng.mod.size(t), v)


# ---------------------------------------------------------------- runtime
def ret(st, v=U):
    return [("ret", v, st)]


def install_runtime(e):
    R = e.rt

    def new(eng, st, a, inst, f):
        s = a[0]
        L = (s[2], s[3]) if s[0] == "n" else None
        if s[0] != "n":
            raise Giveup("allocation size")
        out = []
        for s2, M in eng.norm(st, s, False):
            oid = eng.alloc(s2, "heap", M, U, {"site": eng.where() if False else None})
            if eng.on_new is not None:
                eng.on_new(eng, s2, oid)
            out.append(("ret", ("p", oid, 0, ()), s2))
        return out
    for n in ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t"):
        R[n] = new

    def delete(eng, st, a, inst, f):
        p = a[0]
        if p[0] == "u":
            raise Fault("deletes an uninitialised pointer")
        if p[0] != "p":
            raise Giveup("delete of an unknown pointer")
        if p[1] == 0:
            return ret(st)
        o = st.mem.get(p[1])
        if o is None:
            raise Fault("deletes storage twice (%s)" % st.freed.get(p[1], "unknown"))
        if o.kind != "heap" or p[3] or p[2] != 0:
            raise Fault("deletes something that was not allocated with new")
        if eng.on_delete is not None:
            eng.on_delete(eng, st, p[1])
        eng.free(st, p[1], "deleted")
        return ret(st)
    for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"):
        R[n] = delete
    e.on_new = None
    e.on_delete = None

    def alloc_exc(eng, st, a, inst, f):
        oid = eng.alloc(st, "exc", const(a[0][2]), U, {"ti": "?"})
        return ret(st, ("p", oid, 0, ()))
    R["__cxa_allocate_exception"] = alloc_exc

    def free_exc(eng, st, a, inst, f):
        eng.free(st, a[0][1], "exception")
        return ret(st)
    R["__cxa_free_exception"] = free_exc

    def cxa_throw(eng, st, a, inst, f):
        p, ti = a[0], a[1]
        o = st.w(p[1])
        o.meta = dict(o.meta or {}); o.meta["ti"] = ti[1][2:]
        dt = a[2]
        o.meta["dtor"] = dt[1][3:] if dt[0] == "p" and isinstance(dt[1], str) else None
        return [("throw", p, st)]
    R["__cxa_throw"] = cxa_throw

    def begin_catch(eng, st, a, inst, f):
        st.exc = st.exc + (a[0],)
        ti = eng.exc_ti(st, a[0])
        if ti.startswith("_ZTIP"):
            r = eng.load(st, a[0], ir.PTR)
            return [("ret", v, s) for s, v in r]
        return ret(st, a[0])
    R["__cxa_begin_catch"] = begin_catch

    def end_catch(eng, st, a, inst, f):
        p = st.exc[-1]
        st.exc = st.exc[:-1]
        if p in st.exc or (p[1], "rethrown") in st.g:
            st.g.pop((p[1], "rethrown"), None)
            return ret(st)
        return destroy_exc(eng, st, p)
    R["__cxa_end_catch"] = end_catch

    def destroy_exc(eng, st, p):
        o = st.mem.get(p[1])
        if o is not None and o.meta.get("dtor"):
            outs = eng.call_fn(eng.mod.funcs[o.meta["dtor"]], [p], st, None)
            res = []
            for k, v, s in outs:
                if k == "ret":
                    eng.free(s, p[1], "exception object")
                res.append((k, v, s))
            return res
        eng.free(st, p[1], "exception object")
        return ret(st)

    def rethrow(eng, st, a, inst, f):
        if not st.exc:
            return eng.fault(st, "terminate", "throw; without a current exception")
        p = st.exc[-1]
        st.g[(p[1], "rethrown")] = True
        return [("throw", p, st)]
    R["__cxa_rethrow"] = rethrow

    def terminate(eng, st, a, inst, f):
        return eng.fault(st, "terminate", "the program is terminated (exception leaves a noexcept function)")
    for n in ("_ZSt9terminatev", "__clang_call_terminate", "abort"):
        R[n] = terminate
    def pexit(eng, st, a, inst, f):
        return []
    R["exit"] = pexit

    def guard_acquire(eng, st, a, inst, f):
        return ret(st, N(32, 1))
    R["__cxa_guard_acquire"] = guard_acquire

    def guard_release(eng, st, a, inst, f):
        eng.store(st, a[0], N(8, 1), ir.I8)
        return ret(st)
    R["__cxa_guard_release"] = guard_release
    for n in ("__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit"):
        R[n] = lambda eng, st, a, inst, f: ret(st, N(32, 0))
    R["__cxa_pure_virtual"] = lambda eng, st, a, inst, f: eng.fault(st, "purevirtual", "calls a pure virtual function")

    def intrinsic(f, args, st, inst):
        eng = e
        n = f.name
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, k = args[:3]
            for x in (d, s):
                if x[0] not in ("p", "u"):
                    raise Giveup("block copy through an unknown pointer")
            if k[0] == "n" and k[3]:
                a, b = st.num.rng(eng.sy, (k[2], k[3]))
                if a == b:
                    k = N(64, a)
            if k[0] == "n" and not k[3]:
                copy_bytes(eng, st, d, s, k[2])
            else:
                o = st.w(d[1]); o.cells = {}; o.default = "top"
                eng.taint(st, "block copy of unknown length")
            return ret(st)
        if n.startswith("llvm.memset"):
            d, v, k = args[:3]
            if k[0] == "n" and not k[3] and k[2] > 0:
                _, off = eng.access(st, d, k[2], "write")
                if off is None:
                    raise Giveup("memset at an unknown position")
                if v[0] == "n" and not v[3] and v[2] == 0:
                    eng.storec(st, d[1], off, k[2], ("z0",))
                elif k[2] <= 64:
                    for i in range(k[2]):
                        eng.storec(st, d[1], off + i, 1, v)
                else:
                    eng.storec(st, d[1], off, k[2], U)
            return ret(st)
        if n.startswith("llvm.eh.typeid.for"):
            p = args[0]
            return ret(st, N(32, eng.typeid(p[1][2:] if p[1] else "*")))
        if n.startswith(("llvm.lifetime", "llvm.stack", "llvm.assume", "llvm.invariant", "llvm.experimental")):
            return ret(st)
        if n.startswith("llvm.expect"):
            return ret(st, args[0])
        if n.startswith("llvm.trap"):
            return eng.fault(st, "trap", "trap")
        if ".with.overflow." in n:
            op = "add" if ".uadd" in n or ".sadd" in n else "sub" if "sub" in n else "mul"
            w = args[0][1]
            signed = n[5] == "s"
            out = []
            for v, s, A, B in [(v, s3, A, B) for s1, A in eng.norm(st, args[0], signed) for s2, B in eng.norm(s1, args[1], signed) for v, s3 in eng.binop(s2, op, ir.mk("int", w), args[0], args[1], ())]:
                # exact when both operands are known to be in range
                if op == "mul":
                    if not B[1]:
                        R = scale(A, B[0])
                    elif not A[1]:
                        R = scale(B, A[0])
                    else:
                        R = None
                else:
                    R = add(A, B, 1 if op == "add" else -1)
                if R is None:
                    out.append(("ret", ("a", (v, ("c", ("sb", ("weak", eng.fresh(1, "ovf")))))), s))
                    continue
                m = 1 << w
                lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
                okst = eng.ge(s.copy(), addc(R, -lo))
                okst = eng.ge(okst, addc(scale(R, -1), hi)) if okst is not None else None
                if okst is not None:
                    out.append(("ret", ("a", (v, ("c", False))), okst))
                for X in (addc(scale(R, -1), lo - 1), addc(R, -hi - 1)):
                    ov = eng.ge(s.copy(), X)
                    if ov is not None:
                        out.append(("ret", ("a", (v, ("c", True))), ov))
            return out
        if n.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            pr = {"llvm.umax": "uge", "llvm.umin": "ule", "llvm.smax": "sge", "llvm.smin": "sle"}[n[:9]]
            out = []
            for c, s in eng.icmp(st, pr, args[0], args[1]):
                for s2, t in eng.split(s, eng.cond(c)):
                    out.append(("ret", args[0] if t else args[1], s2))
            return out
        if n.startswith(("llvm.fabs", "llvm.floor", "llvm.ceil", "llvm.fmuladd", "llvm.is.fpclass", "llvm.trunc", "llvm.pow", "llvm.sqrt", "llvm.log", "llvm.round", "llvm.copysign")):
            if n.startswith("llvm.is.fpclass"):
                key = ("fpclass", eng.fterm(args[0]), args[1][2])
                k = fconst(key[1])
                if k is not None:
                    import math
                    neg = math.copysign(1, k) < 0
                    bit = 0x3 if k != k else (0x4 if neg else 0x200) if math.isinf(k) else (0x20 if neg else 0x40) if k == 0 else (0x18 if neg else 0x180)
                    if not bit & args[1][2] or not bit & ~args[1][2]:
                        return ret(st, ("c", bool(bit & args[1][2])))
                if args[1][2] == 3:
                    t = eng.fterm(args[0])
                    return [("ret", ("c", ("fc", "uno", t, t)), st)]
                return ret(st, ("c", ("sb", key)))
            if n.startswith("llvm.fabs") and fconst(eng.fterm(args[0])) is not None:
                return ret(st, ("f", ("k", abs(fconst(eng.fterm(args[0]))))))
            return ret(st, ("f", (n,) + tuple(eng.fterm(a) if a[0] == "f" else a for a in args)))
        eng.unmodelled[n] = eng.unmodelled.get(n, 0) + 1
        eng.taint(st, "intrinsic " + n)
        return ret(st, eng.havoc(eng.mod.res(f.ret), n, st))
    e.intrinsic = intrinsic
