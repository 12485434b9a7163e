"""C09: a JSON document is either parsed completely or reported as an error."""
import drv, jsontext
from jsontext import q
from harness import *
LEVEL = "other"
EXPLANATION = ("Definite-result analysis (path-sensitive abstract interpretation of clang IR, strings, vectors and containers from their own source, strtoll and strtod from a definition) of the parser: texts that cover every construct of the grammar with an arbitrary character at every place, with one inserted at or removed from every place; "
               "acceptance is compared with a recogniser of the grammar, and the state of the document afterwards, whatever it held before, is an obligation on every path.")
ASSUMPTIONS = ["texts that differ from a template in one character, and arbitrary short contents of every construct, stand for all texts", "strtoll and strtod accept what the standard says"]
T = ['{}', '{"a":1}', ' { "a" : [ 1 , 2 ] } ', '{"a":[true,false,null]}', '{"a":"b\\n\\u0041"}', '{"a":{"b":[]},"c":{}}', '{"a":-1.5e+3}', '{"a":[[],[{}]],"a":""}', '{"":12,"b":0.5}']
SHORT = ['{%}', '{%%}', '{"a":%}', '{"a":%%}', '{"a":[%]}', '{"a":[%%]}', '{"a":"%"}', '{"a":"\\%"}', '{"a":1%}', '{"a":-%}', '{"a":1%2}', '{"a":1.%}', '{"a":1e%}', '{"a":tru%}', '{"a":[1,%]}', '{"a":1,%}', '{%"a":1}', '{"a":1}%', '%{}', '{"a"%1}', '{"a":{%}}', '{"a":nul%}', '{"a":fals%}', '{"a":true%}', '{"a":[1%2]}', '%', '%%', '{"a":t%ue}', '{"%":1}', '{"a":"\\u004%"}', '{"a":"\\uD83D\\uDE0%"}', '{"a":"\\uD83D%uDE00"}', '{"a":"\\uD%00"}']
DOC = r'''
extern "C" void* vp_stream(const unsigned char* b, unsigned long n);
static std::istream& in(const Raw& r) { return *(std::istream*)vp_stream(r.b, r.n); }
static const std::ifstream& file(const Raw& r) { return *(std::ifstream*)vp_stream(r.b, r.n); }
// a document whose past is arbitrary: fresh, parsed, or in error
static void past(JsonDocument& d) { int k = (int)vp_u8("past"); if (k == 0) d.Parse("{\"z\":[1]}"); else if (k == 1) d.Parse("{\"z\":}"); else if (k == 2) d.Parse(""); }
static bool fits(const Raw& r) { Raw a = lit("{\"a\":9223372036854775808}"), b = lit("{\"a\":1e999}"); bool x = a.n == r.n, y = b.n == r.n; for (int i = 0; i < r.n; ++i) { if (x && a.b[i] != r.b[i]) x = false; if (y && b.b[i] != r.b[i]) y = false; } return !x && !y; }
#define PARSED(d, r) do { bool well = whole(r, false) && fits(r); vp_assert(!d.HasError() == well, "parsing succeeds exactly if the whole text is one object"); vp_assert(d.HasError() == (d.GetError() != Json::JsonError::NoError), "an error is reported as one"); if (d.HasError()) vp_assert(d.root_.type_ == JsonClass::Null, "a document with an error has a null root"); else vp_assert(d.root_.type_ == JsonClass::Object, "a parsed document is an object"); } while (0)
'''


def src():
    o = [jsontext.HEAD.rsplit('extern "C" {', 1)[0] + DOC + 'extern "C" {\n']
    for k, t in enumerate(T):
        o.append('void t_full_%d() { Raw r = lit(%s); JsonDocument d(txt(r)); vp_assert(!d.HasError(), "a well-formed document is accepted"); PARSED(d, r); vp_reach("end"); }\n' % (k, q(t)))
        for i in range(len(t)):
            o.append('void t_any_%d_%d() { Raw r = lit(%s); r.b[%d] = %s("x"); JsonDocument d; d.Parse(txt(r)); PARSED(d, r); vp_reach("end"); }\n' % (k, i, q(t), i, "hexcase" if 'u' in t[max(0, i - 4):i] and '\\' in t[max(0, i - 5):i] else "byte"))
            o.append('void t_cut_%d_%d() { Raw r = cut(lit(%s), %d); JsonDocument d; d = txt(r); PARSED(d, r); vp_reach("end"); }\n' % (k, i, q(t), i))
    for k, t in enumerate(SHORT):
        s, n = "lit(%s)" % q(t.replace("%", "~")), 0
        for i, c in enumerate(t):
            if c == "%":
                s = 'arb(%s, %d, "x%d")' % (s, i, n); n += 1
        o.append('void t_short_%d() { Raw r = %s; JsonDocument d; d.Parse(txt(r)); PARSED(d, r); vp_reach("end"); }\n' % (k, s))
    # every way to parse, whatever the document held before
    for k, t in enumerate(['{"a":[1]}', '{}', '{"a":[1}', '', ' ', '[]', '{"a":1}}', 'x{}', '{}x', '{"a":nul}', '{"a":1,}', '{"a":[1,]}', '{"a" 1}', '{"a":"\\q"}', '{"a":9223372036854775807}', '{"a":9223372036854775808}', '{"a":-9223372036854775808}', '{"a":1e999}']):
        for nm, op in (("parse", "d.Parse(txt(r));"), ("asg", "d = txt(r);"), ("file", "d.Parse(file(r));"), ("asgf", "d = file(r);"), ("strm", "in(r) >> d;")):
            o.append('void t_%s_%d() { Raw r = lit(%s); JsonDocument d; past(d); %s PARSED(d, r); vp_reach("end"); }\n' % (nm, k, q(t), op))
        o.append('void t_ctor_%d() { Raw r = lit(%s); JsonDocument d(txt(r)); PARSED(d, r); JsonDocument e(file(r)); PARSED(e, r); JsonDocument f = Json::MakeDocument(txt(r)); PARSED(f, r); JsonDocument g = Json::MakeDocument(file(r)); PARSED(g, r); vp_reach("end"); }\n' % (k, q(t)))
        o.append('void t_copy_%d() { Raw r = lit(%s); JsonDocument d(txt(r)); JsonDocument c(d); PARSED(c, r); JsonDocument a; past(a); a = d; PARSED(a, r); JsonDocument m(std::move(d)); PARSED(m, r); past(a); a = std::move(m); PARSED(a, r); vp_reach("end"); }\n' % (k, q(t)))
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    jsontext.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "parse", src(), cfg)
    drv.reached(ctx, res, 20)
