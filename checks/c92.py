"""C92: JSON documents survive a round trip."""
import drv, jsontree
from harness import *
LEVEL = "other"
EXPLANATION = ("Definite-result analysis (path-sensitive abstract interpretation of clang IR; strings, vectors, deques and the recursion of writer and reader from their own source) of serialising representative trees, compact and indented, and parsing the text: "
               "the result has to be the same tree and the whole text has to be read. Integers are arbitrary, as is one character of keys and strings; floating-point numbers are the extreme, integral and longest ones.")
ASSUMPTIONS = ["trees up to four levels and four elements stand for larger ones", "default locale", "insertion and strtod of known floating-point numbers round correctly"]
HEAD = jsontree.HEAD.rsplit('extern "C" {', 1)[0] + r'''
static void trip(const J& v, const String& out) { Json::__Detail::JsonParser p(out); J w = p.ParseValue(); vp_assert(!p.HasError(), "a serialised tree can be parsed"); vp_assert(p.position_ == out.size(), "a serialised tree is read to its end"); vp_assert(equal(v, w), "a serialised tree is read back as it was"); vp_reach("end"); }
extern "C" {
'''
FLOATS = ["2.5f", "0.0f", "2.0f", "-7.0f", "0.1f", "1.0f / 3", "16777216.0f", "3.14159274f", "8589973504.0f", "1e10f", "-1e-7f", "3.4028235e38f", "1.17549435e-38f", "1e-45f", "123456.789f", "1e-5f", "1000000.0f", "999999.5f", "33554434.0f", "0.0101622315f", "108.484825f"]


def src(thorough=False):
    o = [HEAD]
    modes = [("c", "false"), ("m2", "true, 2")] + ([("m0", "true, 0"), ("m3", "true, 3"), ("m1", "true, 1")] if thorough else [])
    for k in range(jsontree.TREES):
        for nm, a in modes:
            for arb in ("i", "s", "t"):
                if arb == "i" and k not in jsontree.USES_I | {1} and k in jsontree.USES_S:
                    continue
                if arb == "s" and k not in jsontree.USES_S or arb == "t" and k not in jsontree.USES_T:
                    continue
                if arb != "i" and (k == 17 or k == 16 and nm != "c") and not thorough:
                    continue
                i, s, t = "7", "lits(\"u\\\"\")", "lits(\"v\")"
                if arb == "i":
                    i = 'vp_s64("i")' if k in (1, 2) else 'small("i")'
                if arb == "s":
                    s = 'str1(byte("s"))'
                if arb == "t":
                    t = 'str1(byte("t"))'
                o.append('void t_%d_%s_%s() { const long i = %s; const String s = %s, t = %s; const J v = tree(%d, i, s, t); trip(v, v.ToString(%s)); }\n' % (k, nm, arb, i, s, t, k, a))
    for x in range(10):
        for nm, a in modes[:2]:
            for w in ("true", "false"):
                o.append('void t_mixed_%d_%s_%s() { const J v = mixed(%s, %d); trip(v, v.ToString(%s)); }\n' % (x, nm, w[0], w, x, a))
    for k, f in enumerate(FLOATS):
        o.append('void t_float_%d() { J v = Json::MakeArray(); J f; f.SetType(JsonClass::Floating); f.data_.floating_value = %s; v.Append(f); String t = v.ToString(); Json::__Detail::JsonParser p(t); J w = p.ParseValue(); vp_assert(!p.HasError() && w.type_ == JsonClass::Array && w.data_.array_value.size() == 1, "a floating-point number can be read back"); if (w.type_ == JsonClass::Array && w.data_.array_value.size() == 1) { J& x = *w.data_.array_value[0]; vp_assert(x.type_ == JsonClass::Floating, "a floating-point number is read back as one"); if (x.type_ == JsonClass::Floating) vp_assert(x.data_.floating_value == %s, "a floating-point number is read back as it was"); } vp_reach("end"); }\n' % (k, f, f))
    for k, b in enumerate(["\\xC3\\xA9", "\\xE2\\x82\\xAC", "\\xF0\\x9F\\x98\\x80", "\\xC2\\x80"]):
        o.append('void t_wide_%d() { Char c; c.data_ = std::string("%s"); String s; s.PushBack(C(\'"\')); s.PushBack(c); s.PushBack(C(\'n\')); const J v = tree(11, 1, s, s); trip(v, v.ToString(false)); }\n' % (k, b))
    doc = 'JsonDocument e(%s); vp_assert(!e.HasError(), "a serialised document can be parsed"); vp_assert(equal(d.root_, e.root_), "a serialised document is read back as it was"); vp_reach("end");'
    o.append('void t_doc_c() { JsonDocument d; d["k"] = sv(str1(byte("s"))); d["l"] = (Int64)5; %s }\nvoid t_doc_m() { JsonDocument d; d["k"] = Json::MakeNull(); d["l"]["m"] = vp_s64("i") > 3; %s }\nvoid t_doc_none() { JsonDocument d; %s }\n' % (doc % "d.ToString()", doc % "d.ToString(true, 4)", doc % "d.ToString(true)"))
    o.append('void t_doc_again() { JsonDocument d, e; d["k"] = (Int64)3; e["z"] = true; e.Parse(d.ToString()); vp_assert(!e.HasError() && equal(d.root_, e.root_), "parsing replaces what the document held"); vp_reach("end"); }\n')
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    jsontree.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "trip", src(ctx.tier == "thorough"), cfg)
    drv.reached(ctx, res, 70)
