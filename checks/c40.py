"""C40: splitting, repeating and classifying text."""
import drv
import c17
from c17 import cfg
from harness import *
LEVEL = "other"
EXPLANATION = ("Path-sensitive abstract interpretation of clang IR (strings and vectors from their own source, string streams modelled as byte sequences) of the text helpers on texts of each length up to the bound whose bytes and delimiter are arbitrary. "
               "The pieces of a split text, the repeated text and the answers of the predicates are compared with their definition written out over the bytes.")
ASSUMPTIONS = ["operator new does not fail", "the standard string streams and std::getline behave as the standard specifies", "texts of up to 4 characters, split texts of up to 6 bytes (5 and 7 in the thorough tier), repetitions of up to 4"]


def gen(N):
    o = []
    for n in range(N + 3):
        o.append('''void t_split_%(n)d() { Raw r; r.n = %(n)d; %(init)s unsigned char d = vp_u8("d"); std::string t; t.reserve(20); for (int i = 0; i < %(n)d; ++i) t.push_back((char)r.b[i]);
    int cut[%(n)d + 1]; int k = 0; for (int i = 0; i < %(n)d; ++i) if (r.b[i] == d) cut[k++] = i;
    bool open = %(n)d > 0 && !(k > 0 && cut[k - 1] == %(n)d - 1);
    std::vector<std::string> v = Split(t, (char)d);
    vp_assert(v.size() == (unsigned long)(k + (open ? 1 : 0)), "there is one piece per delimiter and one for the text after the last delimiter if there is any");
    int from = 0; for (int j = 0; j < k + (open ? 1 : 0); ++j) { int to = j < k ? cut[j] : %(n)d; vp_assert(v[j].size() == (unsigned long)(to - from), "each piece is the text between two delimiters"); for (int i = from; i < to; ++i) vp_assert((unsigned char)v[j][i - from] == r.b[i], "each piece is the text between two delimiters"); from = to + 1; }
    vp_assert(t.size() == %(n)du, "splitting leaves the text alone"); vp_reach("end"); }
''' % {"n": n, "init": "".join('r.b[%d] = vp_u8("s%d"); ' % (i, i) for i in range(n))})
        if n <= N:
            o.append('''void t_number_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); bool e = %(n)d > 0; for (int i = 0; i < %(n)d; ++i) if (r.b[i] < '0' || r.b[i] > '9') e = false;
    vp_assert(IsNumber(s) == e, "a number is a non-empty text of digits only"); vp_reach("end"); }
''' % {"n": n, "init": "".join('r.b[%d] = vp_u8("s%d"); ' % (i, i) for i in range(n))})
        if n <= 3:
            for m in range(5):
                o.append('''void t_repeat_%(n)d_%(m)d() { std::string t; t.reserve(20); unsigned char b[4]; %(init)s for (int i = 0; i < %(n)d; ++i) t.push_back((char)b[i]);
    std::string v = Repeat(t, %(m)d); vp_assert(v.size() == %(n)du * %(m)du, "the repeated text is as long as all copies"); for (int i = 0; i < %(n)d * %(m)d; ++i) vp_assert((unsigned char)v[i] == b[i %% %(n1)d], "each copy is the text"); vp_reach("end"); }
''' % {"n": n, "m": m, "n1": max(n, 1), "init": "".join('b[%d] = vp_u8("s%d"); ' % (i, i) for i in range(n))})
            o.append('''void t_space_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); unsigned long f = FindFirstNonSpace(s), l = FindLastNonSpace(s); unsigned long ef = %(n)du, el = %(n)du;
    for (int i = %(n)d - 1; i >= 0; --i) if (!IsSpace((CodePoint)r.b[i])) ef = i;
    for (int i = 0; i < %(n)d; ++i) if (!IsSpace((CodePoint)r.b[i])) el = i;
    vp_assert(f == ef, "the first non-space is found"); vp_assert(l == el, "the last non-space is found"); vp_reach("end"); }
''' % {"n": n})
    # digits and spaces outside ASCII
    o.append('''void t_wide() { unsigned k = vp_u32("k"); vp_assume(k < 4); const char* t[] = {"\\u0661\\u0662", "1\\u0663", "\\u00b2", "\\uff11x"};
    String s(k == 0 ? t[0] : k == 1 ? t[1] : k == 2 ? t[2] : t[3]); bool e = true; for (const Char& c : s) if (!IsDigit(c.GetCodePoint())) e = false;
    vp_assert(IsNumber(s) == e, "a number consists of characters that are digits"); vp_reach("end"); }
''')
    return "".join(o) + "}\n"


def run(ctx):
    N = 5 if ctx.tier == "thorough" else 4
    mod, res = drv.settle(ctx, "texthelpers", c17.HEAD + gen(N), cfg)
    drv.reached(ctx, res, 2 * (N + 1) + 2 + 4 * 6)
