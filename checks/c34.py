"""C34: a string builder accumulates and copies faithfully."""
import drv, text, streams
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every constructor and append operation of the string builder with arbitrary texts: the text of the builder is compared, as a sequence of arbitrary pieces, with the concatenation of what it was given. "
               "Copies are followed by appends to either side, so a shared or misplaced write position shows as a difference of the two sequences. Formatting is an arbitrary function of its arguments.")
ASSUMPTIONS = ["the standard string stream behaves as the standard specifies", "position arithmetic inside a string stream counts characters as bytes (relevant only where a write position is not at the end)"]
SRC = r'''
#include <Caitlyn/String>
#include <string>
#include <utility>
using namespace Caitlyn;
''' + streams.VOC + r'''
static String nl() { return String("\n"); }
extern "C" {
void t_empty() { StringBuilder b; same(b.str(), String(), "a new builder is empty"); b.Append(text("a")); same(b.str(), text("a"), "appending to a new builder gives the text"); vp_reach("end"); }
void t_char() { StringBuilder b('x'); same(b.str(), String("x"), "constructed from a character"); b.Append(text("a")); same(b.str(), String("x") + text("a"), "appending after a character"); vp_reach("end"); }
void t_cstr() { const char* p = vp_ctext("c"); StringBuilder b(p); same(b.str(), String(p), "constructed from a C string"); b.Append(text("a")); same(b.str(), String(p) + text("a"), "appending after a C string"); vp_reach("end"); }
void t_string() { StringBuilder b(text("c")); same(b.str(), text("c"), "constructed from a string"); b.Append(text("a")); same(b.str(), text("c") + text("a"), "appending after a string"); vp_reach("end"); }
void t_format() { String f = text("f"), x = text("x"); StringBuilder b(f, x, 5); same(b.str(), String::Format(f, x, 5), "constructed from a format"); b.Append(text("a")); same(b.str(), String::Format(f, x, 5) + text("a"), "appending after a format"); vp_reach("end"); }
void t_append() { StringBuilder b; b.Append(text("a")); b.Append(text("b")); b.Append(text("c")); same(b.str(), text("a") + text("b") + text("c"), "appended texts in order"); vp_reach("end"); }
void t_append_cstr() { const char* p = vp_ctext("c"); StringBuilder b; b.Append(p); b.Append(text("a")); b.AppendLine(p); same(b.str(), String(p) + text("a") + String(p) + nl(), "appended C strings"); vp_reach("end"); }
void t_append_format() { String f = text("f"), x = text("x"); StringBuilder b(text("s")); b.Append(f, x); b.Append(f, 7); same(b.str(), text("s") + String::Format(f, x) + String::Format(f, 7), "appended formats in order"); vp_reach("end"); }
void t_line() { StringBuilder b; b.AppendLine(text("a")); b.AppendLine(text("b")); same(b.str(), text("a") + nl() + text("b") + nl(), "one line feed after each line"); vp_reach("end"); }
void t_line_format() { String f = text("f"), x = text("x"); StringBuilder b; b.AppendLine(f, x); b.AppendLine(f, x, 3); same(b.str(), String::Format(f, x) + nl() + String::Format(f, x, 3) + nl(), "one line feed after each formatted line"); vp_reach("end"); }
void t_line_empty() { StringBuilder b; b.AppendLine(String()); b.Append(String()); b.AppendLine(String()); same(b.str(), nl() + nl(), "empty lines are lines"); vp_reach("end"); }
void t_mixed() { StringBuilder b(text("s")); b.Append(text("a")); b.AppendLine(text("b")); b.Append(text("c")); b.AppendLine(text("d")); same(b.str(), text("s") + text("a") + text("b") + nl() + text("c") + text("d") + nl(), "appends and lines in order"); vp_reach("end"); }
void t_str_twice() { StringBuilder b(text("s")); same(b.str(), text("s"), "asking for the text"); same(b.str(), text("s"), "asking again gives the same text"); b.Append(text("a")); same(b.str(), text("s") + text("a"), "asking does not change where appends go"); vp_reach("end"); }
void t_copy() { StringBuilder b(text("s")); StringBuilder c(b); same(c.str(), text("s"), "a copy has the same text"); same(b.str(), text("s"), "copying leaves the original"); vp_reach("end"); }
void t_copy_append() { StringBuilder b(text("s")); b.Append(text("t")); StringBuilder c(b); c.Append(text("u")); same(c.str(), text("s") + text("t") + text("u"), "appends to a copy continue after its text"); same(b.str(), text("s") + text("t"), "appends to a copy do not reach the original"); vp_reach("end"); }
void t_copy_line() { StringBuilder b(text("s")); StringBuilder c(b); c.AppendLine(text("u")); c.Append(text("v")); same(c.str(), text("s") + text("u") + nl() + text("v"), "lines appended to a copy continue after its text"); vp_reach("end"); }
void t_copy_orig() { StringBuilder b(text("s")); StringBuilder c(b); b.Append(text("u")); same(b.str(), text("s") + text("u"), "appends to the original continue after its text"); same(c.str(), text("s"), "appends to the original do not reach the copy"); vp_reach("end"); }
void t_copy_format() { String f = text("f"); StringBuilder b(text("s")); StringBuilder c(b); c.Append(f, 1); c.AppendLine(f, 2); same(c.str(), text("s") + String::Format(f, 1) + String::Format(f, 2) + nl(), "formats appended to a copy continue after its text"); vp_reach("end"); }
void t_copy_copy() { StringBuilder b(text("s")); StringBuilder c(b); c.Append(text("u")); StringBuilder d(c); d.Append(text("v")); same(d.str(), text("s") + text("u") + text("v"), "appends to a copy of a copy"); same(c.str(), text("s") + text("u"), "the copy is left alone"); vp_reach("end"); }
void t_copy_const() { const StringBuilder b(text("s")); StringBuilder c(b); c.Append(text("u")); same(c.str(), text("s") + text("u"), "appends to a copy of a constant builder"); vp_reach("end"); }
void t_copy_empty() { StringBuilder b; StringBuilder c(b); c.Append(text("u")); same(c.str(), text("u"), "appends to a copy of an empty builder"); vp_reach("end"); }
void t_copy_dies() { StringBuilder b(text("s")); { StringBuilder c(b); c.Append(text("u")); } b.Append(text("v")); same(b.str(), text("s") + text("v"), "the original outlives its copy"); vp_reach("end"); }
void t_move() { StringBuilder b(text("s")); b.Append(text("t")); StringBuilder c(std::move(b)); same(c.str(), text("s") + text("t"), "moving keeps the text"); c.Append(text("u")); same(c.str(), text("s") + text("t") + text("u"), "appends after a move continue after the text"); vp_reach("end"); }
void t_move_copy() { StringBuilder b(text("s")); StringBuilder c(b); StringBuilder d(std::move(c)); d.Append(text("u")); same(d.str(), text("s") + text("u"), "appends to a moved copy continue after its text"); vp_reach("end"); }
static StringBuilder make() { StringBuilder b(text("s")); b.AppendLine(text("t")); return b; }
void t_return() { StringBuilder b = make(); b.Append(text("u")); same(b.str(), text("s") + text("t") + nl() + text("u"), "a returned builder continues after its text"); vp_reach("end"); }
void t_maketext() { StringBuilder b = MakeText(); b.Append(text("a")); same(b.str(), text("a"), "MakeText()"); vp_reach("end"); }
void t_maketext_char() { StringBuilder b = MakeText('x'); b.Append(text("a")); same(b.str(), String("x") + text("a"), "MakeText of a character"); vp_reach("end"); }
void t_maketext_string() { StringBuilder b = MakeText(text("s")); b.Append(text("a")); same(b.str(), text("s") + text("a"), "MakeText of a string"); vp_reach("end"); }
void t_maketext_format() { String f = text("f"); StringBuilder b = MakeText(f, 3, text("x")); b.Append(text("a")); same(b.str(), String::Format(f, 3, text("x")) + text("a"), "MakeText of a format"); vp_reach("end"); }
}
'''


def cfg(eng, run, entry):
    text.install_all(eng)
    streams.install_vocabulary(eng.streams, run)


def run(ctx):
    mod, res = drv.settle(ctx, "builder", SRC, cfg)
    drv.reached(ctx, res, 29)
