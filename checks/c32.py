"""C32: the application object is initialised once and owns its arguments."""
import drv, text, cstr
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every order of the two entry points with arbitrary argument bytes: the second initialisation must throw and leave the reported arguments as they were, "
               "the arguments must be as many as passed, in order, complete, in storage of their own that is distinct from the caller's and from each other (the caller's arrays are overwritten and leave scope before they are compared).")
ASSUMPTIONS = ["up to three arguments of up to three bytes stand for all argument lists"]
SRC = r'''
#include <Caitlyn/Caitlyn>
#include <stdexcept>
using namespace Caitlyn;
#define THROWS(msg, ...) { bool threw = false; try { __VA_ARGS__; } catch (const std::exception&) { threw = true; } vp_assert(threw, msg); }
extern "C" {
void t_plain_plain() { auto* a = Application::Initialise(); vp_assert(a != nullptr, "initialisation yields the application"); THROWS("a second initialisation throws", Application::Initialise()) THROWS("a third initialisation throws", Application::Initialise())
  vp_assert(a->GetArgs().size() == 0, "without arguments none are reported"); vp_reach("end"); }
void t_plain_args() { auto* a = Application::Initialise(); char s[] = "x"; const char* v[] = {s, nullptr}; THROWS("a second initialisation by the other entry point throws", Application::Initialize(1, v))
  vp_assert(a->GetArgs().size() == 0, "a refused initialisation changes nothing"); THROWS("initialisation stays refused", Application::Initialise()) vp_reach("end"); }
void t_args_plain() { char s[] = "ab"; const char* v[] = {s, nullptr}; auto* a = Application::Initialize(1, v); THROWS("a second initialisation by the other entry point throws", Application::Initialise())
  vp_assert(a->GetArgs().size() == 1 && a->GetArgs()[0][0] == 'a' && a->GetArgs()[0][1] == 'b' && a->GetArgs()[0][2] == 0, "a refused initialisation changes nothing"); vp_reach("end"); }
void t_args_args() { char s[] = "ab"; const char* v[] = {s, nullptr}; auto* a = Application::Initialize(1, v); const char* p = a->GetArgs()[0]; char t[] = "cd"; const char* w[] = {t, s, nullptr};
  THROWS("a second initialisation throws", Application::Initialize(2, w))
  vp_assert(a->GetArgs().size() == 1 && a->GetArgs()[0] == p && p[0] == 'a' && p[1] == 'b' && p[2] == 0, "a refused initialisation changes nothing"); vp_reach("end"); }
void t_noargs() { auto* a = Application::Initialize(0, nullptr); vp_assert(a->GetArgs().size() == 0, "no arguments are reported if none were passed"); THROWS("a second initialisation throws", Application::Initialise()) THROWS("a second initialisation throws", Application::Initialize(0, nullptr)) vp_reach("end"); }
void t_same() { const char* v[] = {"p", nullptr}; auto* a = Application::Initialize(1, v); vp_assert(a->GetArgs().size() == 1, "as many arguments as were passed"); vp_assert(a->GetArgs()[0] != v[0], "an argument is a copy"); vp_reach("end"); }
void t_dup() { char s[] = "q"; const char* v[] = {s, s, nullptr}; auto* a = Application::Initialize(2, v); vp_assert(a->GetArgs().size() == 2, "as many arguments as were passed"); vp_assert(a->GetArgs()[0] != a->GetArgs()[1], "each argument is a copy of its own"); vp_reach("end"); }
'''


def src():
    s = SRC
    for lens in ([0], [1], [3], [1, 2], [2, 0], [1, 1, 1], [3, 1, 2], [0, 0, 0], [1, 1, 1, 1, 1]):
        n = len(lens)
        b = "const Application* a = nullptr; %s { " % " ".join("const char* p%d = nullptr;" % i for i in range(n))
        for i, k in enumerate(lens):
            b += "char s%d[%d]; " % (i, k + 1)
            for j in range(k):
                b += 's%d[%d] = (char)vp_u8("s%d_%d"); vp_assume(s%d[%d] != 0); ' % (i, j, i, j, i, j)
            b += "s%d[%d] = 0; " % (i, k)
        b += "const char* v[] = {%s, nullptr}; a = Application::Initialize(%d, v); " % (", ".join("s%d" % i for i in range(n)), n)
        for i in range(n):
            b += "vp_assert(v[%d] == s%d, \"the caller's argument list is unchanged\"); " % (i, i)
            for j in range(lens[i]):
                b += 'vp_assert(s%d[%d] == (char)vp_u8("s%d_%d"), "the caller\'s arguments are unchanged"); ' % (i, j, i, j)
                b += "s%d[%d] = '!'; " % (i, j)
            b += "s%d[%d] = '!'; p%d = s%d; " % (i, lens[i], i, i)
        b += "} "
        b += 'const auto& r = a->GetArgs(); vp_assert(r.size() == %d, "as many arguments as were passed"); ' % n
        for i, k in enumerate(lens):
            for j in range(n):
                b += 'vp_assert(r[%d] != p%d, "an argument is a copy"); ' % (i, j)
            for j in range(k):
                b += 'vp_assert(r[%d][%d] == (char)vp_u8("s%d_%d"), "an argument has the text that was passed, in its place"); ' % (i, j, i, j)
            b += 'vp_assert(r[%d][%d] == 0, "an argument ends where the passed text ends"); ' % (i, k)
            for j in range(i):
                b += 'vp_assert(r[%d] != r[%d], "each argument is a copy of its own"); ' % (i, j)
        s += 'void t_n%s() { %s vp_reach("end"); }\n' % ("_".join(map(str, lens)), b)
    return s + "}\n"


def cfg(eng, run, entry):
    cstr.install(eng)
    eng.hook(r"^std::ios_base::(sync_with_stdio|Init::)", lambda e, st, a, i, f: drv.ret(st, ("c", True) if "sync" in f.name else drv.U))


def run(ctx):
    mod, res = drv.settle(ctx, "application", src(), cfg)
    drv.reached(ctx, res, 16)
