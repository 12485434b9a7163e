"""C21: everything written to a file reaches it or an exception is thrown."""
import drv, text, streams, cstr
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every write, append and line overload of the file class against a model of the standard file stream in which opening, flushing and closing may each fail: from every state the stream can be in (closed; open at any position with no bit, eof, eof and fail, or bad set) "
               "the call either returns with the content of the file being the old content followed by exactly the text, with nothing left in a buffer, or throws, and it throws exactly on the paths on which the model failed. Contents and texts are arbitrary; formatting is an arbitrary function of its arguments.")
ASSUMPTIONS = ["std::fstream behaves as the standard specifies; a failing device shows when the stream is opened, flushed or closed", "no other process changes the file", "positions count characters as bytes (only relevant where text would be written before the end)"]
HEAD = r'''
#include <Caitlyn/File>
#include <string>
using namespace Caitlyn;
''' + streams.VOC + r'''
static String nl() { return String("\n"); }
static String content() { String s; vp_file(&s); return s; }
struct Lower { std::string to_string() const { return stdtext("l"); } };
struct Strd { std::string str() const { return stdtext("d"); } };
struct Upper { String ToString() const { return text("u"); } };
static void state(File& f, int how) {
  if (how == 0) f.Close(); else vp_state(&f, sizeof f, how == 1 ? 0 : how == 2 ? 2 : how == 3 ? 6 : how == 4 ? 4 : 1);
}
#define GO(how, call, want) { try { File f(String("data")); bool ready = false; \
  try { state(f, how); ready = true; } catch (...) {} \
  if (ready) { const String before = content(); const int n = vp_iofail(); bool threw = false; try { f.call; } catch (...) { threw = true; } \
    vp_assert(threw == (vp_iofail() != n), "a write throws exactly if opening or writing the file failed"); \
    if (!threw) { same(content(), before + want, "the file holds its old content and then exactly the text, flushed"); vp_assert(vp_isopen(&f, sizeof f), "the file is open after a write"); } } \
  } catch (...) { vp_assert(vp_iofail() == 1, "opening throws only if it failed"); } vp_reach("end"); }
extern "C" {
'''
CASES = [
    ("string", "text(\"s\")", "text(\"s\")"),
    ("empty", "String()", "String()"),
    ("cstr", "vp_ctext(\"c\")", "String(vp_ctext(\"c\"))"),
    ("literal", "\"ab\"", "String(\"ab\")"),
    ("lower", "Lower{}", "String(stdtext(\"l\"))"),
    ("strd", "Strd{}", "String(stdtext(\"d\"))"),
    ("upper", "Upper{}", "text(\"u\")"),
    ("format1", "text(\"f\"), 5", "String::Format(text(\"f\"), 5)"),
    ("format2", "text(\"f\"), text(\"x\"), 1", "String::Format(text(\"f\"), text(\"x\"), 1)"),
]
STATES = ["closed", "good", "eof", "eoffail", "fail", "bad"]


def src():
    s = HEAD
    for op in ("Write", "WriteLine", "Append", "AppendLine"):
        for n, args, want in CASES:
            for i, stn in enumerate(STATES):
                s += "void t_%s_%s_%s() GO(%d, %s(%s), %s)\n" % (op.lower(), n, stn, i, op, args, want + (" + nl()" if "Line" in op else ""))
    s += r'''
void t_open_empty() { bool threw = false; try { File f{String()}; } catch (...) { threw = true; } vp_assert(threw, "a file without a name cannot be opened"); vp_reach("end"); }
void t_default_write() { bool threw = false; File f; try { f.Write(text("s")); } catch (...) { threw = true; } vp_assert(threw, "writing to a file without a name throws"); vp_reach("end"); }
void t_open() { bool threw = false; try { File f(String("data")); vp_assert(vp_isopen(&f, sizeof f), "a file is open after construction"); same(content(), text("content of the file"), "opening leaves the content alone"); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() > 0), "opening throws exactly if it failed"); vp_reach("end"); }
void t_open_format() { bool threw = false; try { File f(text("f"), 1); vp_assert(vp_isopen(&f, sizeof f), "a file is open after construction"); } catch (...) { threw = true; } vp_assert(threw || vp_iofail() == 0, "opening throws if it failed"); vp_reach("end"); }
void t_makefile() { bool threw = false; try { File f = MakeFile(String("data")); vp_assert(vp_isopen(&f, sizeof f), "MakeFile opens the file"); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() > 0), "MakeFile throws exactly if opening failed"); vp_reach("end"); }
void t_literal() { bool threw = false; try { File f = "data"_file; vp_assert(vp_isopen(&f, sizeof f), "the literal opens the file"); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() > 0), "the literal throws exactly if opening failed"); vp_reach("end"); }
void t_reopen() { try { File f(String("data")); f.Close(); vp_assert(!vp_isopen(&f, sizeof f), "a closed file is closed"); const int n = vp_iofail(); bool threw = false; try { f.Open(); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() != n), "Open throws exactly if it failed"); same(content(), text("content of the file"), "opening leaves the content alone"); } catch (...) {} vp_reach("end"); }
void t_close_twice() { try { File f(String("data")); f.Close(); f.Close(); } catch (...) { vp_assert(vp_iofail() > 0, "closing twice is harmless"); } vp_reach("end"); }
void t_copy() { try { File f(String("data")); File g(f); const String before = content(); const int n = vp_iofail(); bool threw = false; try { g.Write(text("s")); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() != n), "writing through a copy throws exactly if it failed"); if (!threw) same(content(), before + text("s"), "a copy writes to the same file"); } catch (...) { vp_assert(vp_iofail() > 0, "copying throws only if opening failed"); } vp_reach("end"); }
void t_erase() { try { File f(String("data")); const int n = vp_iofail(); bool threw = false; try { f.Erase(); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() != n), "erasing throws exactly if it failed"); if (!threw) { same(content(), String(), "an erased file is empty"); try { f.Write(text("s")); same(content(), text("s"), "writing after erasing"); } catch (...) { vp_assert(vp_iofail() != n, "writing after erasing throws only if it failed"); } } } catch (...) {} vp_reach("end"); }
void t_read_write() { try { File f(String("data")); const String before = content(); f.Read(); const int n = vp_iofail(); bool threw = false; try { f.Write(text("s")); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() != n), "writing after reading throws exactly if it failed"); if (!threw) same(content(), before + text("s"), "writing after reading appends"); } catch (...) { vp_assert(vp_iofail() > 0, "reading throws only if something failed"); } vp_reach("end"); }
void t_write_twice() { try { File f(String("data")); const String before = content(); f.Write(text("s")); f.AppendLine(text("t")); f.WriteLine(text("u")); same(content(), before + text("s") + text("t") + nl() + text("u") + nl(), "writes reach the file in their order"); } catch (...) { vp_assert(vp_iofail() > 0, "writing throws only if it failed"); } vp_reach("end"); }
void t_read_closed() { try { File f(String("data")); f.Close(); const int n = vp_iofail(); bool threw = false; try { f.Read(); } catch (...) { threw = true; } vp_assert(threw == (vp_iofail() != n), "reading a closed file throws exactly if it cannot be opened"); if (!threw) vp_assert(vp_isopen(&f, sizeof f), "reading opens a closed file"); } catch (...) {} vp_reach("end"); }
}
'''
    return s


def cfg(eng, run, entry):
    text.install_all(eng)
    cstr.install(eng)
    streams.install_vocabulary(eng.streams, run)


def run(ctx):
    mod, res = drv.settle(ctx, "file", src(), cfg)
    drv.reached(ctx, res, 225)
