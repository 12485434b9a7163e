"""C38: reading a file returns exactly what it contains."""
import drv, text, streams, cstr
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the read operations of the file class against the model of the standard file stream. Read: from every stream state and position, the result is the whole (arbitrary) content. "
               "ReadLine: for contents of up to three arbitrary characters, successive calls return the pieces between the delimiters in order, then nothing, whether or not the file was closed, written or repositioned in between.")
ASSUMPTIONS = ["std::fstream behaves as the standard specifies", "no other process changes the file", "the content is ASCII", "ReadLine: contents of up to three characters (each arbitrary) stand for all contents"]
HEAD = r'''
#include <Caitlyn/File>
#include <string>
using namespace Caitlyn;
''' + streams.VOC + r'''
static String content() { String s; vp_file(&s); return s; }
static void state(File& f, int how) {
  if (how == 0) f.Close(); else vp_state(&f, sizeof f, how == 1 ? 0 : how == 2 ? 2 : how == 3 ? 6 : how == 4 ? 4 : 1);
}
#define READ(how) { File f(String("data")); state(f, how); String r = f.Read(); same(r, content(), "Read returns the whole content"); \
   same(content(), text("content of the file"), "reading leaves the file alone"); same(f.Read(), content(), "reading again returns the whole content again"); vp_reach("end"); }
static void fill(unsigned n, char* c) { char b[4]; for (unsigned i = 0; i < n; ++i) b[i] = c[i]; b[n] = 0; String nm("data"), s; vp_settext(&s, b, n); vp_setfile(&nm, &s); }
static Char ch(char c) { return Char(c); }
extern "C" {
'''


def src():
    s = HEAD
    for i, n in enumerate(["closed", "good", "eof", "eoffail", "fail", "bad"]):
        s += "void t_read_%s() READ(%d)\n" % (n, i)
    s += r'''
void t_read_after_write() { File f(String("data")); const String before = content(); f.Write(text("s")); same(f.Read(), before + text("s"), "Read returns what was written"); vp_reach("end"); }
void t_read_empty() { String nm("data"), e; vp_setfile(&nm, &e); File f(nm); same(f.Read(), String(), "an empty file reads as nothing"); f.Write(text("s")); same(f.Read(), text("s"), "Read returns what was written"); vp_reach("end"); }
void t_read_after_erase() { File f(String("data")); f.Erase(); same(f.Read(), String(), "an erased file reads as nothing"); vp_reach("end"); }
'''
    # lines: content of n characters of which a subset are delimiters
    for n in range(0, 4):
        for m in range(1 << n):
            isd = [bool(m >> k & 1) for k in range(n)]
            nm = "".join("N" if d else "x" for d in isd) or "empty"
            ent = "".join(' char c%d = %s;' % (k, "'\\n'" if isd[k] else '(char)vp_u8("c%d"); vp_assume(c%d != \'\\n\' && c%d > 0)' % (k, k, k)) for k in range(n))
            pieces, cur = [], []
            for k in range(n):
                if isd[k]:
                    pieces.append(cur); cur = []
                else:
                    cur.append(k)
            pieces.append(cur)
            ex = lambda p: " + ".join(["String()"] + ["String(1, ch(c%d))" % k for k in p])
            setup = '%s char cc[4] = {%s}; fill(%d, cc);' % (ent, ", ".join(["c%d" % k for k in range(n)] + ["0"] * (4 - n)), n)
            reads = "".join(' same(f.ReadLine(), %s, "ReadLine returns the lines in order");' % ex(p) for p in pieces)
            s += 'void t_lines_%s() {%s File f(String("data"));%s same(f.ReadLine(), String(), "after the last line there is nothing"); vp_reach("end"); }\n' % (nm, setup, reads)
            if pieces[0] != [] or len(pieces) > 1:
                s += 'void t_reread_%s() {%s File f(String("data")); f.ReadLine(); f.SetPosition(0);%s vp_reach("end"); }\n' % (nm, setup, reads)
            if len(pieces) > 1:
                s += 'void t_closedlines_%s() {%s File f(String("data"));%s vp_reach("end"); }\n' % (nm, setup, "".join(' f.Close(); same(f.ReadLine(), %s, "a file closed between lines continues with the next line");' % ex(p) for p in pieces))
                s += 'void t_writelines_%s() {%s File f(String("data")); same(f.ReadLine(), %s, "the first line"); f.Write(String("z")); %s vp_reach("end"); }\n' % (nm, setup, ex(pieces[0]), "".join(' same(f.ReadLine(), %s, "writing between lines does not disturb reading");' % (ex(p) + (' + String("z")' if p is pieces[-1] else "")) for p in pieces[1:]))
    s += r'''
void t_delim() { String nm("data"), c("ab;c"); vp_setfile(&nm, &c); File f(nm); same(f.ReadLine(';'), String("ab"), "a line ends at the delimiter asked for"); same(f.ReadLine(';'), String("c"), "the rest is the last line"); vp_reach("end"); }
void t_delim_lf() { String nm("data"), c("a\n;c"); vp_setfile(&nm, &c); File f(nm); same(f.ReadLine(';'), String("a\n"), "a line feed is an ordinary character for another delimiter"); vp_reach("end"); }
void t_position() { String nm("data"), c("abc"); vp_setfile(&nm, &c); File f(nm); f.SetPosition(1); same(f.ReadLine(), String("bc"), "reading starts at the position that was set"); vp_reach("end"); }
void t_position_read() { String nm("data"), c("abc"); vp_setfile(&nm, &c); File f(nm); f.SetPosition(1); same(f.Read(), String("abc"), "Read returns the whole content whatever the position"); vp_reach("end"); }
void t_position_eof() { String nm("data"), c("abc"); vp_setfile(&nm, &c); File f(nm); f.ReadLine(); f.SetPosition(2); same(f.ReadLine(), String("c"), "setting a position after the end was reached works"); vp_reach("end"); }
void t_eof() { String nm("data"), c("a\nb"); vp_setfile(&nm, &c); File f(nm); vp_assert(!f.IsEof(), "not at the end before the first line"); f.ReadLine(); vp_assert(!f.IsEof() && bool(f), "not at the end while a line is left"); f.ReadLine(); vp_assert(f.IsEof() && !bool(f), "at the end after the last line"); vp_reach("end"); }
}
'''
    return s


def cfg(eng, run, entry):
    text.install_all(eng)
    cstr.install(eng)
    streams.install_vocabulary(eng.streams, run)
    eng.streams.failures = False


def run(ctx):
    mod, res = drv.settle(ctx, "file", src(), cfg)
    drv.reached(ctx, res, 50)
