"""C23: the test runner runs every test once and contains its failures."""
import drv, text, streams, cstr, rbtree
from harness import *
from interp import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of registration and of complete runs (one and two in a row) in which every test independently returns or throws a standard exception, a user exception, a number or a string: on every combination "
               "each registered test is entered exactly once per run, no exception leaves the runner, the returned status is zero exactly if none of that run's tests threw, and the text written after the last test names every test that threw; no line reports a test as failed that did not throw. "
               "The same is asked of tests registered through the test macros by way of the program's static initialisers.")
ASSUMPTIONS = ["registries of up to four tests in up to three suites, and of fourteen tests in one large and two small suites and in fourteen suites, stand for all registries", "the standard output does not fail", "names are literals"]
HEAD = r'''
#include <Caitlyn/Testing>
#include <Caitlyn/String>
#include <stdexcept>
#include <string>
using namespace Caitlyn;
using Caitlyn::Test::TestRegistry;
extern "C" { int vp_test(int); int vp_ran(int); bool vp_threw(); bool vp_named(int, const char*); bool vp_blamed(int, const char*); bool vp_told(int, const char*); bool vp_counted(int); void vp_newrun(); void vp_globals(); const char* vp_bytes(); }
struct User { int x; };
struct StdUser : std::exception { const char* what() const noexcept override { return "a \xff byte"; } };
static void body(int i) {
  switch (vp_test(i)) { case 1: throw std::runtime_error("boom"); case 2: throw 7; case 3: throw User{1}; case 4: throw "text"; case 5: throw StdUser(); default: return; }
}
static void f0() { body(0); } static void f1() { body(1); } static void f2() { body(2); } static void f3() { body(3); }
static void f4() { body(4); } static void f5() { body(5); } static void f6() { body(6); } static void f7() { body(7); } static void f8() { body(8); } static void f9() { body(9); } static void f10() { body(10); } static void f11() { body(11); } static void f12() { body(12); } static void f13() { body(13); }
static void (*const fs[])() = {f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13};
static const char* const many[] = {"Bb.t0", "Bb.t1", "Bb.t2", "Bb.t3", "Bb.t4", "Bb.t5", "Bb.t6", "Bb.t7", "Bb.t8", "Bb.t9", "Bb.ta", "Bb.tb", "Aa.tc", "Cc.td"};
static void register_many() { TestRegistry& r = TestRegistry::Instance(); for (int i = 0; i < 14; ++i) { char s[3] = {many[i][0], many[i][1], 0}; r.AddTest(s, many[i] + 3, fs[i]); } }
static void once(int n, const char* const* names) {
  vp_newrun();
  int rc = 0; bool escaped = false;
  try { rc = TestRegistry::Instance().RunAll(); } catch (...) { escaped = true; }
  vp_assert(!escaped, "no exception escapes the runner");
  if (escaped) return;
  for (int i = 0; i < n; ++i) vp_assert(vp_ran(i) == 1, "every registered test is called exactly once per run");
  vp_assert((rc == 0) == !vp_threw(), "the exit status is zero exactly if no test of the run failed");
  for (int i = 0; i < n; ++i) vp_assert(vp_named(i, names[i]), "each failed test is named in the summary");
  for (int i = 0; i < n; ++i) { bool dup = false; for (int j = 0; j < n; ++j) if (j != i && __builtin_strcmp(names[i], names[j]) == 0) dup = true; if (!dup) vp_assert(!vp_blamed(i, names[i]), "no test that passed is reported as failed"); }
  for (int i = 0; i < n; ++i) vp_assert(vp_told(i, names[i]), "each test is announced before it runs, and reported as passed after it exactly if it passed");
  vp_assert(vp_counted(n), "the report states how many tests there are, how many passed and how many failed");
}
extern "C" {
void t_none() { once(0, nullptr); vp_reach("end"); }
void t_one() { const char* const n[] = {"Aa.one"}; TestRegistry::Instance().AddTest("Aa", "one", f0); once(1, n); vp_reach("end"); }
void t_two_same() { const char* const n[] = {"Aa.one", "Aa.two"}; TestRegistry& r = TestRegistry::Instance(); r.AddTest("Aa", "one", f0); r.AddTest("Aa", "two", f1); once(2, n); vp_reach("end"); }
void t_two_suites() { const char* const n[] = {"Bb.one", "Aa.two"}; TestRegistry& r = TestRegistry::Instance(); r.AddTest("Bb", "one", f0); r.AddTest("Aa", "two", f1); once(2, n); vp_reach("end"); }
void t_three() { const char* const n[] = {"Aa.one", "Bb.two", "Aa.three"}; TestRegistry& r = TestRegistry::Instance(); r.AddTest("Aa", "one", f0); r.AddTest("Bb", "two", f1); r.AddTest("Aa", "three", f2); once(3, n); vp_reach("end"); }
void t_three_suites() { const char* const n[] = {"Bb.one", "Cc.two", "Aa.three"}; TestRegistry& r = TestRegistry::Instance(); r.AddTest("Bb", "one", f0); r.AddTest("Cc", "two", f1); r.AddTest("Aa", "three", f2); once(3, n); vp_reach("end"); }
void t_same_name() { const char* const n[] = {"Aa.one", "Aa.one"}; TestRegistry& r = TestRegistry::Instance(); r.AddTest("Aa", "one", f0); r.AddTest("Aa", "one", f1); once(2, n); vp_reach("end"); }
void t_same_function() { TestRegistry& r = TestRegistry::Instance(); r.AddTest("Aa", "one", f0); r.AddTest("Bb", "one", f0); vp_newrun(); bool escaped = false; try { r.RunAll(); } catch (...) { escaped = true; } vp_assert(!escaped, "no exception escapes the runner"); vp_assert(vp_ran(0) == 2, "a function registered twice is called twice"); vp_reach("end"); }
void t_rerun() { const char* const n[] = {"Aa.one", "Bb.two"}; TestRegistry& r = TestRegistry::Instance(); r.AddTest("Aa", "one", f0); r.AddTest("Bb", "two", f1); once(2, n); once(2, n); vp_reach("end"); }
void t_add_between() { const char* const n[] = {"Aa.one", "Aa.two"}; TestRegistry& r = TestRegistry::Instance(); r.AddTest("Aa", "one", f0); once(1, n); r.AddTest("Aa", "two", f1); once(2, n); vp_reach("end"); }
void t_many() { register_many(); vp_newrun(); once(14, many); vp_reach("end"); }
void t_many_all() { register_many(); once(14, many); vp_reach("end"); }
void t_many_suites() { static const char* const n[] = {"S0.t0", "S1.t1", "S2.t2", "S3.t3", "S4.t4", "S5.t5", "S6.t6", "S7.t7", "S8.t8", "S9.t9", "Sa.ta", "Sb.tb", "Sc.tc", "Sd.td"}; TestRegistry& r = TestRegistry::Instance();
  for (int i = 0; i < 14; ++i) { char s[3] = {n[i][0], n[i][1], 0}; r.AddTest(s, n[i] + 3, fs[i]); } once(14, n); vp_reach("end"); }
}
TEST(Mm, first) { body(0); }
TEST(Nn, second) { body(1); }
TEST(Mm, third) { body(2); }
struct Fix { int v = 5; static int live; Fix() { ++live; } ~Fix() { --live; } };
int Fix::live = 0;
TEST_F(Fix, fourth) { vp_assert(v == 5 && live == 1, "a fixture test runs on a fresh fixture"); body(3); }
extern "C" {
void t_macros() { vp_globals(); const char* const n[] = {"Mm.first", "Nn.second", "Mm.third", "Fix.fourth"}; once(4, n); vp_assert(Fix::live == 0, "the fixture is destroyed after its test"); vp_reach("end"); }
}
'''
SRC = HEAD


def cfg(eng, run, entry):
    text.install_all(eng)
    cstr.install(eng)
    rbtree.install(eng)
    streams.install_vocabulary(eng.streams, run)
    noop = lambda e, st, a, inst, f: ret(st)
    import re
    eng.hooks.insert(0, (re.compile(r"^std::ios_base::Init::"), noop))
    outcomes = 3 if entry in ("t_rerun", "t_add_between", "t_three", "t_three_suites", "t_macros", "t_many", "t_many_all", "t_many_suites") else 6

    def test(e, st, a, inst, f):
        i = a[0][2]
        some = entry.startswith("t_many") and not (entry != "t_many_all" and i in (0, 7, 11, 13))
        r = st.g.get("run", 0)
        st.g["runlog"] = st.g.get("runlog", ()) + (i,)
        st.g[("os", "cout", 0)] = st.g.get(("os", "cout", 0), ()) + (("ran", i),)
        n = sum(1 for x in st.g["runlog"] if x == i)
        out = []
        for k in (range(outcomes) if not some else (0,) if entry != "t_many_all" else (1 + i % 5,)):
            s = st.copy()
            kk = k if outcomes == 6 or some else (0, 1, 2 + (i + r) % 3)[k]
            if kk:
                s.g["threw"] = s.g.get("threw", ()) + ((i, len(s.g["runlog"])),)
            out += ret(s, N(32, kk))
        return out
    eng.rt["vp_test"] = test

    def newrun(e, st, a, inst, f):
        st.g["run"] = st.g.get("run", 0) + 1
        st.g["runlog"] = ()
        st.g["threw"] = ()
        st.g[("os", "cout", 0)] = ()
        return ret(st)
    eng.rt["vp_newrun"] = newrun
    eng.rt["vp_ran"] = lambda e, st, a, inst, f: ret(st, N(32, sum(1 for x in st.g.get("runlog", ()) if x == a[0][2])))
    eng.rt["vp_threw"] = lambda e, st, a, inst, f: ret(st, ("c", bool(st.g.get("threw"))))

    def named(e, st, a, inst, f):
        """A test that threw is named in what is written after the last test (or, the last one itself, twice after it)."""
        i = a[0][2]
        nm = drv.cstr(e, st, a[1])
        if not any(j == i for j, _ in st.g.get("threw", ())):
            return ret(st, ("c", True))
        last = st.g["runlog"][-1] == i
        ev = st.g.get(("os", "cout", 0), ())
        k = max(n for n, x in enumerate(ev) if x[0] == "ran")
        s = ""
        for x in ev[k:]:
            if x[0] == "out":
                for it in x[1]:
                    s += chr(it[1][2]) if it[0] == "e" and not it[1][3] else "\0"
        return ret(st, ("c", s.count(nm) >= (2 if last else 1)))
    eng.rt["vp_named"] = named

    def blamed(e, st, a, inst, f):
        i = a[0][2]
        nm = drv.cstr(e, st, a[1])
        if any(j == i for j, _ in st.g.get("threw", ())):
            return ret(st, ("c", False))
        s = ""
        for x in st.g.get(("os", "cout", 0), ()):
            if x[0] == "out":
                for it in x[1]:
                    s += chr(it[1][2]) if it[0] == "e" and not it[1][3] else "\0"
        return ret(st, ("c", any(nm in l and "FAIL" in l.upper() for l in s.split("\n"))))
    eng.rt["vp_blamed"] = blamed

    def written(st, frm, to):
        s = ""
        for x in st.g.get(("os", "cout", 0), ())[frm:to]:
            if x[0] == "out":
                for it in x[1]:
                    s += chr(it[1][2]) if it[0] == "e" and not it[1][3] else "\0"
        return s

    def told(e, st, a, inst, f):
        """Named between the previous test and this one; a line with its name and OK before the next one exactly if it passed."""
        i = a[0][2]
        nm = drv.cstr(e, st, a[1])
        ev = st.g.get(("os", "cout", 0), ())
        rans = [n for n, x in enumerate(ev) if x[0] == "ran"]
        k = next((j for j, n in enumerate(rans) if ev[n][1] == i), None)
        if k is None:
            return ret(st, ("c", False))
        before = written(st, rans[k - 1] if k else 0, rans[k])
        after = written(st, rans[k], rans[k + 1] if k + 1 < len(rans) else len(ev))
        threw = any(j == i for j, _ in st.g.get("threw", ()))
        good = any(nm in l and "OK" in l.split(nm)[0] for l in after.split("\n"))
        return ret(st, ("c", nm in before and good == (not threw)))
    eng.rt["vp_told"] = told

    def counted(e, st, a, inst, f):
        n = a[0][2]
        ev = st.g.get(("os", "cout", 0), ())
        rans = [k for k, x in enumerate(ev) if x[0] == "ran"]
        bad = len({j for j, _ in st.g.get("threw", ())})
        words = lambda s: re.split(r"[^0-9A-Za-z]+", s)
        head = written(st, 0, rans[0] if rans else len(ev))
        tail = written(st, rans[-1] if rans else 0, len(ev)).split("\n")
        ok = any(str(n) in words(l) for l in head.split("\n"))
        ok = ok and (n == bad or any("PASSED" in l.upper() and str(n - bad) in words(l) for l in tail))
        ok = ok and any("FAILED" in l.upper() and str(bad) in words(l) for l in tail)
        # and no line states another number of passed or failed tests
        ok = ok and not any("PASSED" in l.upper() and re.search(r"\d", l) and str(n - bad) not in words(l) for l in tail)
        ok = ok and not any(re.search(r"FAILED\W+\d+ test|\d+ FAILED", l, re.I) and str(bad) not in words(l) for l in tail)
        return ret(st, ("c", ok))
    eng.rt["vp_counted"] = counted

    def globals_(e, st, a, inst, f):
        outs = [("ret", U, st)]
        for n in sorted(e.mod.funcs):
            if n.startswith("_GLOBAL__sub_I"):
                nx = []
                for k, v, s in outs:
                    if k != "ret":
                        nx.append((k, v, s)); continue
                    nx += e.call_fn(e.mod.funcs[n], [], s, inst)
                outs = nx
        return outs
    eng.rt["vp_globals"] = globals_


def run(ctx):
    mod, res = drv.settle(ctx, "runner", SRC, cfg)
    drv.reached(ctx, res, 14)
