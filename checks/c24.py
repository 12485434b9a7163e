"""C24: an assertion throws exactly when its condition is false."""
import re
import drv, text, cstr
from harness import *
from witness import assert_matrix
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of a function per assertion macro with arbitrary operands (integers, floating numbers, objects with their own operators, strings of arbitrary bytes): "
               "on every path an exception leaves the macro exactly when the relation in its name is false, each operand's operator is asked in operand order, and code after a macro runs exactly when it holds. "
               "Type-checked witnesses place every macro in the statement contexts a single statement is allowed in; the else branch that must belong to the user's own if is shown by interpretation.")
ASSUMPTIONS = ["strings up to three bytes stand for all strings in the string assertion"]
SRC = r'''
#include <Caitlyn/Testing>
#include <stdexcept>
using namespace Caitlyn;
extern "C" { bool vp_rel(const char*, int, int); }
// an operand type whose operators are arbitrary relations that record their operands
struct Op { int id; };
#define REL(op) static bool operator op(const Op& a, const Op& b) { return vp_rel(#op, a.id, b.id); }
REL(==) REL(!=) REL(<) REL(<=) REL(>) REL(>=)
static std::ostream& operator<<(std::ostream& os, const Op&) { return os; }
#define RUN(holds, what, ...) { bool threw = false, after = false; try { __VA_ARGS__; after = true; } catch (const std::exception&) { threw = true; } catch (...) { threw = true; } \
   vp_assert(threw == !(holds), what " throws exactly if its relation is false"); vp_assert(after == (holds), what " lets execution continue exactly if its relation holds"); }
extern "C" {
void t_true() { bool c = vp_bool("c"); RUN(c, "ASSERT_TRUE", ASSERT_TRUE(c)) vp_reach("end"); }
void t_false() { bool c = vp_bool("c"); RUN(!c, "ASSERT_FALSE", ASSERT_FALSE(c)) vp_reach("end"); }
void t_true_or() { bool c = vp_bool("c"), d = vp_bool("d"); RUN((c || d), "ASSERT_TRUE", ASSERT_TRUE(c || d)) vp_reach("end"); }
void t_false_or() { bool c = vp_bool("c"), d = vp_bool("d"); RUN(!(c || d), "ASSERT_FALSE", ASSERT_FALSE(c || d)) vp_reach("end"); }
void t_true_ptr() { int x = 0; int* p = vp_bool("c") ? &x : nullptr; RUN((p != nullptr), "ASSERT_TRUE", ASSERT_TRUE(p)) vp_reach("end"); }
void t_pass() { RUN(true, "PASS", PASS()) vp_reach("end"); }
void t_fail() { RUN(false, "FAIL", FAIL()) vp_reach("end"); }
'''
OPS = [("EQ", "=="), ("NE", "!="), ("LT", "<"), ("LE", "<="), ("GT", ">"), ("GE", ">="), ("EQ_PRINTABLE", "==")]


def src():
    s = SRC
    for n, op in OPS:
        m = "ASSERT_" + n
        k = n.lower()
        s += 'void t_%s_int() { int a = vp_int("a"), b = vp_int("b"); RUN((a %s b), "%s", %s(a, b)) vp_reach("end"); }\n' % (k, op, m, m)
        s += 'void t_%s_dbl() { double a = vp_f64("a"), b = vp_f64("b"); RUN((a %s b), "%s", %s(a, b)) vp_reach("end"); }\n' % (k, op, m, m)
        s += 'void t_%s_expr() { int a = vp_int("a"), b = vp_int("b"), d = vp_int("d"); RUN(((a < b) %s (d != 0)), "%s", %s(a < b, d != 0)) vp_reach("end"); }\n' % (k, op, m, m)
        s += 'void t_%s_op() { Op a{1}, b{2}; bool holds = vp_rel("%s", 1, 2); RUN(holds, "%s", %s(a, b)) vp_reach("end"); }\n' % (k, op, m, m)
        # a following else belongs to the user's if
        s += ('void t_%s_else() { int a = vp_int("a"), b = vp_int("b"); bool o = vp_bool("o"); int other = 0; bool threw = false; '
              'try { if (o) %s(a, b); else other = 1; } catch (const std::exception&) { threw = true; } '
              'vp_assert(other == (o ? 0 : 1), "an else after %s belongs to the if before it"); vp_assert(threw == (o && !(a %s b)), "%s throws exactly if it is executed and false"); vp_reach("end"); }\n') % (k, m, m, op, m)
    for n, neg in (("TRUE", ""), ("FALSE", "!")):
        m = "ASSERT_" + n
        s += ('void t_%s_else() { bool c = vp_bool("c"); bool o = vp_bool("o"); int other = 0; bool threw = false; '
              'try { if (o) %s(c); else other = 1; } catch (const std::exception&) { threw = true; } '
              'vp_assert(other == (o ? 0 : 1), "an else after %s belongs to the if before it"); vp_assert(threw == (o && !(%sc)), "%s throws exactly if it is executed and false"); vp_reach("end"); }\n') % (n.lower(), m, m, neg, m)
    s += ('void t_streq_else() { bool o = vp_bool("o"), same = vp_bool("same"); int other = 0; bool threw = false; try { if (o) ASSERT_STREQ("ab", same ? "ab" : "ac"); else other = 1; } catch (const std::exception&) { threw = true; } '
          'vp_assert(other == (o ? 0 : 1), "an else after ASSERT_STREQ belongs to the if before it"); vp_assert(threw == (o && !same), "ASSERT_STREQ throws exactly if it is executed and false"); vp_reach("end"); }\n')
    for i in range(-1, 4):
        for j in range(-1, 4):
            def decl(v, n, init):
                if n < 0:
                    return "const char* %s = nullptr; " % v
                t = "char %s_[%d]; " % (v, n + 1)
                for k in range(n):
                    t += '%s_[%d] = (char)vp_s8("%s%d"); vp_assume(%s_[%d] != 0); ' % (v, k, v, k, v, k)
                return t + "%s_[%d] = 0; const char* %s = %s_; " % (v, n, v, v)
            eq = "true" if i < 0 and j < 0 else "false" if i != j else " && ".join(["true"] + ["a_[%d] == b_[%d]" % (k, k) for k in range(i)])
            s += 'void t_streq_%s_%s() { %s%s RUN((%s), "ASSERT_STREQ", ASSERT_STREQ(a, b)) vp_reach("end"); }\n' % (i if i >= 0 else "null", j if j >= 0 else "null", decl("a", i, 0), decl("b", j, 0), eq)
    s += 'void t_streq_same() { char a_[2]; a_[0] = (char)vp_s8("a"); vp_assume(a_[0] != 0); a_[1] = 0; const char* a = a_; RUN(true, "ASSERT_STREQ", ASSERT_STREQ(a, a)) vp_reach("end"); }\n'
    for x in ("expected_str", "actual_str", "oss"):
        s += 'void t_streq_name1_%s() { bool c = vp_bool("c"); const char* %s = c ? "x" : "y"; RUN(c, "ASSERT_STREQ", ASSERT_STREQ(%s, "x")) vp_reach("end"); }\n' % (x, x, x)
        s += 'void t_streq_name2_%s() { bool c = vp_bool("c"); const char* %s = c ? "x" : "y"; RUN(c, "ASSERT_STREQ", ASSERT_STREQ("x", %s)) vp_reach("end"); }\n' % (x, x, x)
    s += 'void t_fail_message() { RUN(false, "FAIL_MESSAGE", FAIL_MESSAGE() << "text") vp_reach("end"); }\n'
    s += 'void t_fail_message_int() { RUN(false, "FAIL_MESSAGE", FAIL_MESSAGE() << 5 << "text") vp_reach("end"); }\n'
    s += 'void t_fail_message_else() { bool o = vp_bool("o"); int other = 0; bool threw = false; try { if (o) FAIL_MESSAGE() << "x"; else other = 1; } catch (const std::exception&) { threw = true; } vp_assert(other == (o ? 0 : 1), "an else after FAIL_MESSAGE belongs to the if before it"); vp_assert(threw == o, "FAIL_MESSAGE throws exactly if it is executed"); vp_reach("end"); }\n'
    return s + "}\n"


def cfg(eng, run, entry):
    text.install_all(eng)
    cstr.install(eng)
    # what a message says is not looked at; printing has no other effect
    def ins(e, st, a, inst, f):
        return drv.ret(st, a[0])
    import re
    eng.hooks.insert(0, (re.compile(r"^std::(__cxx11::)?(basic_ostream|basic_ostringstream)<char, std::char_traits<char> >::operator<<\("), ins))
    eng.hooks.insert(0, (re.compile(r"^std::basic_ostream<char, std::char_traits<char> >& std::operator<< ?<"), ins))

    def rel(e, st, a, inst, f):
        op = drv.cstr(e, st, a[0])
        return drv.ret(st, ("c", ("sb", ("rel", op, a[1][2], a[2][2]))))
    eng.rt["vp_rel"] = rel


WIT = r'''
#include <Caitlyn/Testing>
#include <sstream>
struct V { int v; }; inline bool operator==(const V& a, const V& b) { return a.v == b.v; } inline std::ostream& operator<<(std::ostream& o, const V& v) { return o << v.v; }
inline void other() {}
'''


def hygiene(ctx):
    """No variable of a macro captures an operand of the same name: the names the macros once declared are given to the user's operands."""
    names = ["oss", "expected_str", "actual_str"]
    pre = WIT
    items = []
    for n in names:
        for op, _ in OPS:
            items.append(("an operand of ASSERT_%s may be called %s" % (op, n), "inline void h%d(int %s) { ASSERT_%s(%s, 1); ASSERT_%s(1, %s); }" % (len(items), n, op, n, op, n)))
        items.append(("an operand of ASSERT_STREQ may be called %s" % n, 'inline void h%d(const char* %s) { ASSERT_STREQ(%s, "x"); ASSERT_STREQ("x", %s); }' % (len(items), n, n, n)))
        items.append(("an operand of ASSERT_TRUE may be called %s" % n, "inline void h%d(bool %s) { ASSERT_TRUE(%s); ASSERT_FALSE(%s); }" % (len(items), n, n, n)))
    assert_matrix(ctx, "hygiene", pre, items, compilers=("clang++", "g++"))


def run(ctx):
    items = []
    for m in ["ASSERT_TRUE(x == 1)", "ASSERT_FALSE(x == 2)", "PASS()", 'ASSERT_STREQ("a", "a")'] + ["ASSERT_%s(x, y)" % n for n, _ in OPS]:
        nm = m.split("(")[0]
        i = len(items)
        ctxs = ["if (x) %s; else other();", "if (x) other(); else %s;", "for (int i = 0; i < x; ++i) %s;", "do %s; while (x == 2);", "if (x) if (y) %s; else other(); else other();", "{ %s; %s; }", "switch (x) { case 1: %s; break; default: %s; }"]
        for k, c in enumerate(ctxs):
            items.append(("%s in context %d: %s" % (nm, k, c.replace("%s", nm + "()")), "inline void w%d_%d(int x, int y) { (void)y; %s }" % (i, k, c.replace("%s", m))))
    for n, op in OPS:
        items.append(("ASSERT_%s with expressions of low precedence" % n, "inline void e_%s(int x, int y, bool b) { ASSERT_%s(x & 1, y | 2); ASSERT_%s(b ? x : y, x, ) ; }" .replace(", x, )", ", x)") % (n, n, n)))
    assert_matrix(ctx, "statement", WIT, items)
    hygiene(ctx)
    mod, res = drv.settle(ctx, "assertion", src(), cfg)
    drv.reached(ctx, res, 70)
