"""C11: Serialised JSON is well-formed."""
import drv, jsontree
from harness import *
LEVEL = "other"
EXPLANATION = ("Definite-result analysis (path-sensitive abstract interpretation of clang IR; strings, vectors, deques and the recursion of the writer from their own source) of serialising representative trees, compact and indented: "
               "the text is matched against the grammar of JSON together with the tree, so that each member and element has to appear exactly once and in order; one character of keys and strings, and integers, are arbitrary.")
ASSUMPTIONS = ["trees up to four levels and four elements stand for larger ones", "default locale"]
HEAD = jsontree.HEAD.rsplit('extern "C" {', 1)[0] + r'''
static void good(const J& v, const String& out) { Buf t = bytes(out); Match m = {t, 0}; vp_assert(m.value(v), "the text is the JSON text of the tree"); m.sp(); vp_assert(m.p == t.n, "nothing follows the text of the tree"); vp_reach("end"); }
extern "C" {
'''


def src(thorough=False):
    o = [HEAD]
    modes = [("c", "false"), ("m2", "true, 2"), ("m0", "true, 0"), ("m3", "true, 3")] + ([("c5", "false, 5"), ("m1", "true, 1"), ("m8", "true, 8")] if thorough else [])
    for k in range(jsontree.TREES):
        for nm, a in modes:
            for arb in ("i", "s", "t"):
                if arb == "i" and k not in jsontree.USES_I | {1} and k in jsontree.USES_S:
                    continue
                if arb == "s" and k not in jsontree.USES_S or arb == "t" and k not in jsontree.USES_T:
                    continue
                if arb != "i" and (k == 17 or k == 16 and nm != "c") and not thorough:
                    continue
                i, s, t = "7", "lits(\"u\\\"\")", "lits(\"v\")"
                if arb == "i":
                    i = 'vp_s64("i")' if k in (1, 2) else 'small("i")'
                if arb == "s":
                    s = 'str1(byte("s"))'
                if arb == "t":
                    t = 'str1(byte("t"))'
                o.append('void t_%d_%s_%s() { const long i = %s; const String s = %s, t = %s; const J v = tree(%d, i, s, t); good(v, v.ToString(%s)); }\n' % (k, nm, arb, i, s, t, k, a))
    o.append('void t_whole_c() { const long i = vp_s64("i"); const J v = tree(6, i, lits("x"), lits("y")); good(v, v.ToString(false)); }\n')
    for k, f in enumerate(["2.5f", "0.0f", "-0.0f", "1e10f", "-1e-7f", "HUGE_VALF", "-HUGE_VALF", "__builtin_nanf(\"\")", "16777216.0f", "3.40282e38f"]):
        for nm, a in modes[:2]:
            o.append('void t_float_%d_%s() { J v = Json::MakeArray(); J f; f.SetType(JsonClass::Floating); f.data_.floating_value = %s; v.Append(f); v.Append((Int64)1); good(v, v.ToString(%s)); }\n' % (k, nm, f, a))
    for x in range(10):
        for nm, a in modes[:2]:
            for w in ("true", "false"):
                o.append('void t_mixed_%d_%s_%s() { const J v = mixed(%s, %d); good(v, v.ToString(%s)); }\n' % (x, nm, w[0], w, x, a))
    # a character of two, three and four bytes
    for k, b in enumerate(["\\xC3\\xA9", "\\xE2\\x82\\xAC", "\\xF0\\x9F\\x98\\x80", "\\xC2\\x80"]):
        o.append('void t_wide_%d() { Char c; c.data_ = std::string("%s"); String s; s.PushBack(C(\'"\')); s.PushBack(c); s.PushBack(C(\'n\')); const J v = tree(11, 1, s, s); good(v, v.ToString(false)); }\n' % (k, b))
    # a document and its defaults
    o.append('void t_doc_c() { JsonDocument d; d["k"] = sv(str1(byte("s"))); d["l"] = (Int64)5; good(d.root_, d.ToString()); }\nvoid t_doc_m() { JsonDocument d; d["k"] = sv(str1(byte("s"))); d["l"] = Json::MakeObject(); good(d.root_, d.ToString(true)); }\nvoid t_doc_4() { JsonDocument d; d["k"] = sv(lits("s")); d["l"]["m"] = (Int64)5; good(d.root_, d.ToString(true, 4)); }\nvoid t_doc_none() { JsonDocument d; good(d.root_, d.ToString(true)); }\n')
    o.append('void t_default() { const J v = tree(9, 3, lits("x"), lits("y")); good(v, v.ToString()); }\n')
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    jsontree.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "writer", src(ctx.tier == "thorough"), cfg)
    drv.reached(ctx, res, 100)
