"""C08: JSON parsing never reads outside the text."""
import drv, jsontext
from jsontext import q
from harness import *
LEVEL = "other"
EXPLANATION = ("Bounds analysis (path-sensitive abstract interpretation of clang IR, strings and vectors from their own source) of the parser on every prefix of texts that cover every construct, with an arbitrary last character, entered as a value and as a whole document; "
               "the text occupies exactly its storage, so every access of a character is an obligation that fails on an access before the beginning or at or after the end; the position never passes the end after a successful parse.")
ASSUMPTIONS = ["prefixes of the templates with an arbitrary last character (thorough: two) stand for all texts"]
T = ['{"a":[1,true],"b":null}', '[false,{},[]]', '"ab\\n\\u00e9\\\\"', '"\\uD83D\\uDE00z"', '-12.5e+30', '+7', 'true', 'false', 'null', '{"k" : "v" , "l":{"m":0}}', ' [ 1 , "\\"" ] ', '"\\u12', '"\\uD800\\u', '"\\uDBFF\\']


def src(deep):
    o = [jsontext.HEAD]
    seen = set()
    def entry(name, s, doc):
        o.append('''void t_%s() { Raw r = %s; String s = txt(r); Json::__Detail::JsonParser p(s);
  J v = p.ParseValue(); vp_assert(p.HasError() || p.position_ <= s.size(), "a value that was accepted ends inside the text"); vp_assert(!p.HasError() || v.type_ == JsonClass::Null, "a rejected value is null"); vp_reach("end"); }
''' % (name, s))
    for k, t in enumerate(T):
        for n in range(len(t) + 1):
            p = t[:n]
            if p not in seen:
                seen.add(p)
                entry("pre_%d_%d" % (k, n), "lit(%s)" % q(p), False)
            if n and (p[:-1], "x") not in seen:
                seen.add((p[:-1], "x"))
                h = "hexcase" if "\\u" in p[-6:-1] else "byte"
                entry("any_%d_%d" % (k, n), "lit(%s); r.b[%d] = %s(\"x\")" % (q(p), n - 1, h), False)
                if deep:
                    entry("two_%d_%d" % (k, n), "lit(%s); r.b[%d] = %s(\"x\"); r.b[r.n++] = byte(\"y\")" % (q(p), n - 1, h), False)
                # the whole document has to end in a brace
                o.append('void t_doc_%d_%d() { Raw r = lit(%s); r.b[%d] = %s("x"); Json::__Detail::JsonParser p = Json::__Detail::JsonParser::Parse(txt(r)); vp_reach("end"); }\n'
                         % (k, n, q(('' if p.lstrip().startswith("{") else '{"q":') + p + "}"), (0 if p.lstrip().startswith("{") else 5) + n - 1, h))
    for n in range(3):
        o.append('void t_raw_%d() { Raw r; r.n = %d; for (int i = 0; i < %d; ++i) r.b[i] = byte(i ? "y" : "x"); Json::__Detail::JsonParser p = Json::__Detail::JsonParser::Parse(txt(r)); vp_assert(p.HasError() || %d == 2, "nothing shorter than a pair of braces is a document"); vp_reach("end"); }\n' % (n, n, n, n))
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    jsontext.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "parse", src(ctx.tier == "thorough"), cfg)
    drv.reached(ctx, res, 100)
