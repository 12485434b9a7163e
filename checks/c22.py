"""C22: console streams write only where they should, completely and flushed."""
import drv, text, streams, cstr
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every write overload of the output, error and log streams and of every read of the input stream, with arbitrary texts and arguments: what each of the three standard streams received is compared with what was to be written "
               "(nothing for the other two), no text may be left after the last flush, and reads and flushes are ordered events, so a prompt that is not flushed before the read, or a read of anything but one line, is reported. "
               "The end of the input is a separate path. Formatting is an arbitrary function of its arguments.")
ASSUMPTIONS = ["the standard streams behave as the standard specifies and are not in an error state; the program may have untied cin and turned unit buffering off", "formatting is deterministic"]
HEAD = r'''
#include <Caitlyn/IO>
#include <string>
using namespace Caitlyn;
''' + streams.VOC + r'''
static String nl() { return String("\n"); }
struct Lower { std::string to_string() const { return stdtext("l"); } };
struct Strd { std::string str() const { return stdtext("d"); } };
struct Upper { String ToString() const { return text("u"); } };
static void only(const char* name, const String& want, const char* msg) {
  const char* all[] = {"cout", "cerr", "clog"};
  for (int i = 0; i < 3; ++i) { if (__builtin_strcmp(all[i], name) == 0) { same(os(all[i]), want, msg); } else { same(os(all[i]), String(), "nothing is written to the other standard streams"); } }
  vp_assert(vp_flushed(name), "everything written is flushed when the call returns");
  vp_assert(vp_cin("line") == 0, "writing reads nothing");
}
extern "C" bool vp_eof(); extern "C" bool vp_prompted();
static void reads(const String& prompt) {
  same(os("cout"), prompt, "exactly the prompt is written to the standard output");
  same(os("cerr"), String(), "nothing is written to the error stream"); same(os("clog"), String(), "nothing is written to the log stream");
  vp_assert(vp_cin("line") == 1, "reads exactly one line"); vp_assert(vp_cin("word") == 0 && vp_cin("ws") == 0 && vp_cin("line up to") == 0, "reads nothing but lines");
  vp_assert(vp_prompted(), "the prompt is flushed before the read");
}
static void isline(const String& r, int k) { if (vp_eof()) same(r, String(), "nothing is returned at the end of the input"); else same(r, text(k ? "cin line 1" : "cin line 0"), "the line read is returned"); }
static void ischar(const Char& c) {
  const String line = text("cin line 0");
  if (vp_eof() || line.IsEmpty()) vp_assert(c.IsEmpty(), "the empty character is returned for an empty line or at the end of the input");
  else vp_assert(c == line[0], "the first character of the line is returned");
}
extern "C" {
'''
CASES = [  # name, arguments, text
    ("string", "text(\"s\")", "text(\"s\")"),
    ("temp", "String(text(\"s\"))", "text(\"s\")"),
    ("empty", "String()", "String()"),
    ("literal", "\"ab\"", "String(\"ab\")"),
    ("lower", "Lower{}", "String(stdtext(\"l\"))"),
    ("strd", "Strd{}", "String(stdtext(\"d\"))"),
    ("upper", "Upper{}", "text(\"u\")"),
    ("builder", "StringBuilder(text(\"s\"))", "text(\"s\")"),
    ("format1", "text(\"f\"), 5", "String::Format(text(\"f\"), 5)"),
    ("format2", "text(\"f\"), text(\"x\"), 1", "String::Format(text(\"f\"), text(\"x\"), 1)"),
    ("format3", "text(\"f\"), 'c', 2.5, \"q\"", "String::Format(text(\"f\"), 'c', 2.5, \"q\")"),
]


def src():
    s = HEAD
    for cls, name in (("OutputStream", "cout"), ("ErrorStream", "cerr"), ("LogStream", "clog")):
        for n, args, want in CASES:
            s += 'void t_%s_%s() { %s::Write(%s); only("%s", %s, "Write inserts exactly the text"); vp_reach("end"); }\n' % (name, n, cls, args, name, want)
            s += 'void t_%s_line_%s() { %s::WriteLine(%s); only("%s", %s + nl(), "WriteLine inserts exactly the text and a line feed"); vp_reach("end"); }\n' % (name, n, cls, args, name, want)
        s += 'void t_%s_line() { %s::WriteLine(); only("%s", nl(), "WriteLine() inserts exactly a line feed"); vp_reach("end"); }\n' % (name, cls, name)
        s += 'void t_%s_seq() { %s::Write(text("a")); %s::WriteLine(text("b")); %s::Write(text("f"), 1); only("%s", text("a") + text("b") + nl() + String::Format(text("f"), 1), "texts appear in the order written"); vp_reach("end"); }\n' % (name, cls, cls, cls, name)
    # reading
    for n, args, want in [("none", "", "String()"), ("msg", "text(\"s\")", "text(\"s\")"), ("literal", "\"name? \"", "String(\"name? \")"), ("format1", "text(\"f\"), 5", "String::Format(text(\"f\"), 5)"), ("format2", "text(\"f\"), text(\"x\"), 1", "String::Format(text(\"f\"), text(\"x\"), 1)")]:
        s += 'void t_readline_%s() { String r = InputStream::ReadLine(%s); reads(%s); isline(r, 0); vp_reach("end"); }\n' % (n, args, want)
        s += 'void t_readchar_%s() { Char c = InputStream::ReadChar(%s); reads(%s); ischar(c); vp_reach("end"); }\n' % (n, args, want)
    s += 'void t_readline_twice() { String a = InputStream::ReadLine(); vp_assert(vp_cin("line") == 1, "reads exactly one line"); isline(a, 0); String b = InputStream::ReadLine(text("s")); vp_assert(vp_cin("line") <= 2, "reads exactly one line"); if (!vp_eof()) isline(b, 1); vp_reach("end"); }\n'
    return s + "}\n"


def cfg(eng, run, entry):
    text.install_all(eng)
    cstr.install(eng)
    streams.install_vocabulary(eng.streams, run)

    def eof(e, st, a, inst, f):
        return drv.ret(st, ("c", bool(st.g.get(("bits", "cin"), 0) & 2)))
    eng.rt["vp_eof"] = eof

    def prompted(e, st, a, inst, f):
        # at each read nothing written to cout may be unflushed
        pend = False
        for who, what in st.g.get("oslog", ()):
            if who == "cout":
                pend = what == "out"
            elif who == "cin" and pend:
                return drv.ret(st, ("c", False))
        return drv.ret(st, ("c", True))
    eng.rt["vp_prompted"] = prompted


def run(ctx):
    mod, res = drv.settle(ctx, "console", src(), cfg)
    drv.reached(ctx, res, 80)
