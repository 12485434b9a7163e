"""C18: a string may be an operand of its own modification."""
import drv, nstr, c17
from harness import *
LEVEL = "other"
EXPLANATION = ("Ownership and aliasing analysis (path-sensitive abstract interpretation of clang IR, strings and vectors from their own source) of every modification of a string whose operand is the string itself, one of its characters or the bytes of one of its characters, "
               "with storage that has to be replaced and storage that need not be. Use of replaced storage is a fault on an abstract path; the result is compared with that of a separate copy.")
ASSUMPTIONS = ["operator new does not fail", "strings of up to 4 characters stand for longer ones"]
HEAD = c17.HEAD.replace('extern "C" {\n', r'''
static String room(const Raw& r, int extra) { std::vector<Char> v; v.reserve(r.n + extra); for (int i = 0; i < r.n; ++i) v.push_back(C(r.b[i])); String s; s.data_.swap(v); return s; }
static Raw one(unsigned char b, int k) { Raw r; r.n = 0; while (r.n < k) r.b[r.n++] = b; return r; }
extern "C" {
''')

# name, statement, result, needs an index
OPS = [
    ("plus", "s += s;", "cat(r, r)", "appending the string to itself"),
    ("plusc", "s += String(std::vector<Char>(1, s[I]));", "cat(r, one(r.b[I], 1))", "appending a character of the string"),
    ("sum", "s = s + s;", "cat(r, r)", "the sum of the string with itself"),
    ("push", "s.PushBack(s[I]);", "cat(r, one(r.b[I], 1))", "appending a character of the string"),
    ("app", "s.Append(2ul, s[I]);", "cat(r, one(r.b[I], 2))", "appending a character of the string repeatedly"),
    ("apps", "s.Append(s[I].c_str());", "cat(r, one(r.b[I], 1))", "appending the bytes of a character of the string"),
    ("appn", "s.Append(3ul, s[I].c_str());", "cat(r, one(r.b[I], 3))", "appending the bytes of a character of the string repeatedly"),
    ("asg", "String& t = s; s = t;", "r", "assigning the string to itself"),
    ("mov", "String& t = s; s = std::move(t);", "r", "moving the string to itself"),
    ("asgs", "s = s[I].c_str();", "one(r.b[I], 1)", "assigning the bytes of a character of the string"),
    ("asgc", "s[I] = s[J];", "asg(r, I, r.b[J])", "assigning a character of the string to one of its places"),
    ("asgb", "s[I] = s[J].c_str();", "asg(r, I, r.b[J])", "assigning the bytes of a character of the string to one of its places"),
    ("mul", "s.Append(0ul, s[I]);", "r", "appending a character no times"),
]
for P in (0, 1, 2, 3):
    OPS += [("ins%d" % P, "s.Insert(%d, s);" % P, "ins(r, %d, r)" % P, "inserting the string into itself"),
            ("insc%d" % P, "s.Insert(%d, 2ul, s[I]);" % P, "ins(r, %d, one(r.b[I], 2))" % P, "inserting a character of the string"),
            ("inss%d" % P, "s.Insert(%d, s[I].c_str());" % P, "ins(r, %d, one(r.b[I], 1))" % P, "inserting the bytes of a character of the string")]


def src():
    o = [HEAD.replace('extern "C" {\n', 'static Raw asg(Raw r, int i, unsigned char b) { r.b[i] = b; return r; }\nextern "C" {\n')]
    for n in (1, 2, 3):
        for x in (0, 1, 6):
            for nm, op, want, what in OPS:
                if nm[-1].isdigit() and int(nm[-1]) > n:
                    continue
                ii = range(n) if "I" in op.replace("Insert", "") else (0,)
                for I in ii:
                    for J in (range(n) if "J" in op else (0,)):
                        sub = lambda t: t.replace("[I]", "[%d]" % I).replace("[J]", "[%d]" % J).replace(", I,", ", %d," % I)
                        o.append('void t_%s_%d_%d_%d_%d() { Raw r = RS(%d); String s = room(r, %d); %s same(s, %s, "%s has the effect of a separate copy"); vp_reach("end"); }\n'
                                 % (nm, n, x, I, J, n, x, sub(op), sub(want), what))
    # the copies are independent
    o.append('''void t_indep() { Raw r = RS(2); String s = mk(r); String t = s; String u; u = s; t[0] = s[1]; u.PushBack(s[0]); same(s, r, "changing a copy leaves the string alone"); s.Clear(); vp_assert(t.data_.size() == 2 && u.data_.size() == 3, "changing the string leaves a copy alone"); vp_reach("end"); }
void t_moved() { Raw r = RS(2); String s = mk(r); String t = std::move(s); same(t, r, "moving hands over the characters"); s = t; same(s, r, "a string moved from can be assigned to"); vp_reach("end"); }
}
''')
    return "".join(o)


def cfg(eng, run, entry):
    return c17.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "alias", src(), cfg)
    drv.reached(ctx, res, 300)
