"""C41: JSON objects and arrays keep exactly what was put into them."""
import itertools
import drv, jsonsrc, hashtab
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of clang IR (strings and containers from their own source) of every history of up to the bound of operations that add, replace, look up, create or remove members of a JSON object or document, and that index, extend or append to a JSON array, "
               "with arbitrary keys (equal or different in every way), values and indices. A reference list kept by the driver is compared with the container after each history: members, order, values, size, membership answers and lookups of an arbitrary key.")
ASSUMPTIONS = ["operator new does not fail", "histories of up to 4 operations on objects (5 in the thorough tier) and 3 on arrays, indices up to 2 past the end", "keys of one arbitrary character in long histories, of up to three in short ones"]
HEAD = jsonsrc.NATIVE + r'''
}
struct Ref { int n; String key[5]; long val[12]; bool null[12]; };
static int find(const Ref& r, const String& k) { for (int i = 0; i < r.n; ++i) if (r.key[i] == k) return i; return -1; }
static void put(Ref& r, const String& k, long v) { int i = find(r, k); if (i < 0) { i = r.n++; r.key[i] = k; } r.val[i] = v; r.null[i] = false; }
static void touch(Ref& r, const String& k) { if (find(r, k) < 0) { r.key[r.n] = k; r.null[r.n] = true; r.val[r.n++] = 0; } }
static void drop(Ref& r, const String& k) { int i = find(r, k); if (i < 0) return; for (; i + 1 < r.n; ++i) { r.key[i] = r.key[i + 1]; r.val[i] = r.val[i + 1]; r.null[i] = r.null[i + 1]; } --r.n; }
static void member(const J& v, const Ref& r, int i) { if (r.null[i]) vp_assert(v.IsNull(), "a member that was only looked up is null"); else vp_assert(v.IsIntegral() && v.GetIntegral() == r.val[i], "a member has the value stored last"); }
static void checkObject(J& o, const Ref& r, const String& q) {
    vp_assert(o.IsObject(), "adding members makes an object"); vp_assert(o.Size() == (SizeType)r.n && o.Length() == (SizeType)r.n, "the size is the number of members");
    auto& d = o.GetData(); vp_assert(d.size() == (SizeType)r.n, "an object has one member per key"); 
    for (int i = 0; i < r.n; ++i) { vp_assert(d[i].first == r.key[i], "members are kept in the order of their first insertion"); member(*d[i].second, r, i); }
    const J& c = o; for (int i = 0; i < r.n; ++i) { vp_assert(c.HasMember(r.key[i]), "every member is found"); member(c.At(r.key[i]), r, i); }
    const int at = find(r, q); vp_assert(c.HasMember(q) == (at >= 0), "exactly the members are found");
    try { const J& x = c.At(q); vp_assert(at >= 0, "looking up a missing key throws"); if (at >= 0) member(x, r, at); } catch (const std::exception&) { vp_assert(at < 0, "looking up a member does not throw"); }
    vp_assert(o.Size() == (SizeType)r.n, "looking up changes nothing"); }
static void element(const J& v, const Ref& r, int i) { if (r.null[i]) vp_assert(v.IsNull(), "an element that was never stored is null"); else vp_assert(v.IsIntegral() && v.GetIntegral() == r.val[i], "an element has the value stored last"); }
static void store(Ref& r, int i, long v) { while (r.n <= i) { r.null[r.n] = true; r.val[r.n++] = 0; } r.val[i] = v; r.null[i] = false; }
static void checkArray(J& a, const Ref& r) {
    vp_assert(a.IsArray(), "adding elements makes an array"); vp_assert(a.Size() == (SizeType)r.n && a.Length() == (SizeType)r.n, "the size is the number of elements");
    const J& c = a; for (int i = 0; i < r.n; ++i) { element(c.At((SizeType)i), r, i); element(a[(SizeType)i], r, i); }
    SizeType x = vp_u64("x"); try { const J& v = c.At(x); vp_assert(x < (SizeType)r.n, "looking up a missing index throws"); for (int i = 0; i < r.n; ++i) if (x == (SizeType)i) element(v, r, i); } catch (const std::exception&) { vp_assert(x >= (SizeType)r.n, "looking up an element does not throw"); }
    vp_assert(a.Size() == (SizeType)r.n && !c.HasMember("a"), "looking up changes nothing"); }
static String word(int n, const char* a, const char* b, const char* c) { String s; if (n > 0) s += text(a); if (n > 1) s += text(b); if (n > 2) s += text(c); return s; }
static String key(const char* n, bool empty) { return empty ? String() : text(n); }
extern "C" {
'''


def gen(N):
    o = []
    # documents: A add, R remove, X look up (creates), S store through the reference
    for n in range(1, N + 1):
        for h in itertools.product("ARX" if n > 3 else "ARXS", repeat=n):
            if h[0] == "R" and n > 2 or n == N and N > 4 and h.count("R") not in (1, 2):
                continue
            decl = "".join('const String k%d = key("k%d", %s); const long v%d = vp_s64("v%d"); (void)v%d; ' % (i, i, "true" if i == 1 and n == 3 else "false", i, i, i) for i in range(n))
            ops = "".join({"A": "d.AddMember(k%d, (Int64)v%d); put(r, k%d, v%d); ", "R": "d.RemoveMember(k%d); drop(r, k%d); ", "X": "(void)d[k%d]; touch(r, k%d); ", "S": "d[k%d] = (Int64)v%d; put(r, k%d, v%d); "}[c].replace("%d", str(i)) for i, c in enumerate(h))
            o.append('void t_doc_%s() { { Ref r; r.n = 0; %sconst String q = text("q"); JsonDocument d; %svp_assert(d.Size() == (SizeType)r.n && d.HasMember(q) == (find(r, q) >= 0) && !d.HasError(), "the document answers like its root"); checkObject(d.root_, r, q); } vp_reach("end"); }\n' % ("".join(h), decl, ops))
    # keys of different lengths
    for x, y in itertools.product(range(4), repeat=2):
        for h in ("AA", "SA", "AR"):
            o.append('void t_len_%s_%d_%d() { { Ref r; r.n = 0; const String k0 = word(%d, "a0", "a1", "a2"), k1 = word(%d, "b0", "b1", "b2"), q = text("q"); const long v0 = vp_s64("v0"), v1 = vp_s64("v1"); (void)v1; JsonDocument d; %scheckObject(d.root_, r, q); } vp_reach("end"); }\n'
                     % (h, x, y, x, y, "".join({"A": "d.AddMember(k%d, (Int64)v%d); put(r, k%d, v%d); ", "S": "d[k%d] = (Int64)v%d; put(r, k%d, v%d); ", "R": "d.RemoveMember(k%d); drop(r, k%d); "}[c].replace("%d", str(i)) for i, c in enumerate(h))))
    # values: L lookup through At, S store by index operator, M member of a kind that is not an object
    for h in itertools.product("LST", repeat=3):
        decl = "".join('const String k%d = key("k%d", false); const long v%d = vp_s64("v%d"); (void)v%d; ' % (i, i, i, i, i) for i in range(3))
        ops = "".join({"L": "(void)o.At(k%d); touch(r, k%d); ", "S": "{ J& x = (o[k%d] = (Int64)v%d); vp_assert(x.GetIntegral() == v%d, \"assignment yields the member\"); put(r, k%d, v%d); } ", "T": "{ J x((Int64)v%d); o.At(k%d) = x; put(r, k%d, v%d); } "}[c].replace("%d", str(i)) for i, c in enumerate(h))
        o.append('void t_val_%s() { { Ref r; r.n = 0; %sconst String q = text("q"); J o; %scheckObject(o, r, q); } vp_reach("end"); }\n' % ("".join(h), decl, ops))
    # arrays: I store at an index, L look up (extends), P append, Q append two
    for n in (1, 2, 3):
        for h in itertools.product("ILPQ", repeat=n):
            decl = "".join('const long v%d = vp_s64("v%d"); const SizeType i%d = vp_u64("i%d"); (void)v%d; (void)i%d; ' % ((i,) * 6) for i in range(n))
            idx = "SizeType j = 0; vp_assume(i%d <= (SizeType)r.n + %d); while (j < i%d) ++j; "
            ops = "".join({"I": "{ " + idx % (i, 2 if n < 3 else 1, i) + "J& x = (a[j] = (Int64)v%d); vp_assert(x.GetIntegral() == v%d, \"assignment yields the element\"); store(r, (int)j, v%d); } ",
                           "L": "{ " + idx % (i, 1, i) + "(void)a.At(j); while (r.n <= (int)j) { r.null[r.n] = true; r.val[r.n++] = 0; } } ",
                           "P": "a.Append((Int64)v%d); store(r, r.n, v%d); ", "Q": "a.Append((Int64)v%d, false, (Int64)v%d); store(r, r.n, v%d); r.n++; r.val[r.n - 1] = 0; r.null[r.n - 1] = true; store(r, r.n, v%d); vp_assert(a[(SizeType)r.n - 2].IsBoolean(), \"several values are appended in order\"); a[(SizeType)r.n - 2] = J(); "}[c].replace("%d", str(i)) for i, c in enumerate(h))
            o.append('void t_arr_%s() { { Ref r; r.n = 0; %sJ a; %scheckArray(a, r); } vp_reach("end"); }\n' % ("".join(h), decl, ops))
    o.append(r'''
void t_sizes() { ARG { const J n = mk(0, i, s), b = mk(1, i, s), x = mk(2, i, s), f = mk(3, i, s), t = mk(4, i, s); vp_assert(n.Size() == (SizeType)-1 && b.Size() == (SizeType)-1 && x.Size() == (SizeType)-1 && f.Size() == (SizeType)-1 && t.Size() == (SizeType)-1, "only objects and arrays have a size"); vp_assert(!n.HasMember(s) && !x.HasMember(s) && !t.HasMember(s), "only objects have members"); } vp_reach("end"); }
void t_doc_other() { ARG { JsonDocument d; d.root_ = mk(7, i, s); d.RemoveMember(s); vp_assert(d.GetType() == JsonClass::Array && d.Size() == 2, "removing a member of something else changes nothing"); d.AddMember(s, (Int64)j); vp_assert(d.GetType() == JsonClass::Object && d.Size() == 1 && d.HasMember(s) && d[s].GetIntegral() == j, "adding a member makes an object"); } vp_reach("end"); }
void t_doc_nested() { ARG { JsonDocument d; d["a"]["b"][2] = (Int64)j; d["a"]["c"] = (Int64)i; vp_assert(d.Size() == 1 && d["a"].Size() == 2 && d["a"]["b"].IsArray() && d["a"]["b"].Size() == 3 && d["a"]["b"][0].IsNull() && d["a"]["b"][2].GetIntegral() == j && d["a"]["c"].GetIntegral() == i, "members of members are created on the way"); const JsonDocument& c = d; vp_assert(c["a"].At("b").At(2).GetIntegral() == j, "members of members are found"); d.RemoveMember("b"); vp_assert(d["a"].HasMember("b"), "only members of the document itself are removed"); d.RemoveMember("a"); vp_assert(d.Size() == 0 && !d.HasMember("a"), "the member is removed"); } vp_reach("end"); }
void t_many() { { const long v = vp_s64("v"); JsonDocument d; J a; const char* const name[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10", "k11"};
    for (int i = 0; i < 12; ++i) { d[name[i]] = (Int64)(i == 5 ? v : i); a.Append((Int64)(i == 7 ? v : i)); }
    vp_assert(d.Size() == 12 && a.Size() == 12, "the size is the number of members"); auto& o = d.root_.GetData(); for (int i = 0; i < 12; ++i) { vp_assert(o[i].first == name[i] && o[i].second->GetIntegral() == (i == 5 ? v : i), "members are kept in the order of their first insertion"); vp_assert(a[(SizeType)i].GetIntegral() == (i == 7 ? v : i), "elements are kept in order"); }
    for (int i = 0; i < 12; i += 3) d.RemoveMember(name[i]); vp_assert(d.Size() == 8, "the size is the number of members"); for (int i = 0, k = 0; i < 12; ++i) { vp_assert(d.HasMember(name[i]) == (i % 3 != 0), "exactly the named members are removed"); if (i % 3) { vp_assert(o[k].first == name[i] && o[k].second->GetIntegral() == (i == 5 ? v : i), "the others stay in order"); ++k; } }
    for (int i = 0; i < 12; i += 6) d[name[i]] = true; vp_assert(d.Size() == 10 && o[8].first == "k0" && o[9].first == "k6" && o[9].second->IsBoolean(), "members added again come last"); a[20] = (Int64)v; vp_assert(a.Size() == 21 && a[20].GetIntegral() == v && a[12].IsNull() && a[19].IsNull() && a[11].GetIntegral() == 11, "the gap is filled with nulls"); } vp_reach("end"); }
void t_long_keys() { ARG { String k1("a key that is longer than the small buffer, 1"), k2("a key that is longer than the small buffer, 2"), k3("a key that is longer than the small buffer"); JsonDocument d; d.AddMember(k1, (Int64)i); d.AddMember(k2, (Int64)j); vp_assert(d.Size() == 2 && d[k1].GetIntegral() == i && d[k2].GetIntegral() == j && !d.HasMember(k3), "keys are compared completely"); d.RemoveMember(k3); vp_assert(d.Size() == 2, "keys are compared completely"); d.RemoveMember(k1); vp_assert(d.Size() == 1 && d.HasMember(k2) && d[k2].GetIntegral() == j, "keys are compared completely"); } vp_reach("end"); }
''')
    return "".join(o) + "}\n", len(o)


def cfg(eng, run, entry):
    jsonsrc.native(eng, run, entry)
    eng.MAXREC = 8
    eng.UNROLL = 24
    return drv.leakcheck


def run(ctx):
    src, n = gen(5 if ctx.tier == "thorough" else 4)
    mod, res = drv.settle(ctx, "containers", HEAD + src, cfg)
    drv.reached(ctx, res, n + 4)
