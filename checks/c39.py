"""C39: a string value is exactly the sequence of its characters."""
import drv
import c17
from c17 import cfg
from harness import *
LEVEL = "other"
EXPLANATION = ("Path-sensitive abstract interpretation of clang IR (strings and vectors from their own source, string streams modelled as byte sequences) of every way to build, copy, extend, walk and read a string: strings of each length up to the bound with arbitrary characters; "
               "texts in UTF-8 made of arbitrary characters of every encoded length. The characters that the string holds afterwards are compared with the sequence the operation stands for.")
ASSUMPTIONS = ["operator new does not fail", "the standard string streams and std::getline behave as the standard specifies", "strings of up to 4 characters (5 in the thorough tier), texts of up to 3 characters of every encoded length"]
HEAD = c17.HEAD + r'''
}
// A valid character of k bytes.
struct U { int k; unsigned char b[4]; };
static void uni(U& u, int k, const char* a, const char* b, const char* c, const char* d) {
    u.k = k; u.b[0] = vp_u8(a); if (k > 1) u.b[1] = vp_u8(b); if (k > 2) u.b[2] = vp_u8(c); if (k > 3) u.b[3] = vp_u8(d);
    if (k == 1) { vp_assume(u.b[0] >= 1 && u.b[0] < 0x80); return; }
    if (k == 2) vp_assume(u.b[0] >= 0xc2 && u.b[0] <= 0xdf);
    if (k == 3) { vp_assume(u.b[0] >= 0xe1 && u.b[0] <= 0xec); }
    if (k == 4) { vp_assume(u.b[0] >= 0xf1 && u.b[0] <= 0xf3); }
    for (int i = 1; i < k; ++i) vp_assume(u.b[i] >= 0x80 && u.b[i] <= 0xbf); }
static bool isu(const Char& c, const U& u) { std::string t = c.str(); if (t.size() != (unsigned long)u.k) return false; for (int i = 0; i < u.k; ++i) if ((unsigned char)t[i] != u.b[i]) return false; return true; }
static std::string native(const Raw& r) { std::string t; t.reserve(30); for (int i = 0; i < r.n; ++i) t.push_back((char)r.b[i]); return t; }
static bool text(const std::string& t, const Raw& r) { if (t.size() != (unsigned long)r.n) return false; for (int i = 0; i < r.n; ++i) if ((unsigned char)t[i] != r.b[i]) return false; return true; }
extern "C" {
'''


def gen(N, M):
    o = []
    for n in range(N + 1):
        o.append('''void t_fill_%(n)d() { unsigned char b = vp_u8("b"); vp_assume(b < 128); String s(%(n)dul, (char)b); vp_assert(s.size() == %(n)du, "a string of n equal characters has n characters"); for (int i = 0; i < %(n)d; ++i) vp_assert(is(s[i], b), "a string of n equal characters"); vp_reach("end"); }
void t_fillc_%(n)d() { unsigned char b = byte("b"); Char c = C(b); String s(%(n)dul, c); vp_assert(s.size() == %(n)du, "a string of n equal characters has n characters"); for (int i = 0; i < %(n)d; ++i) vp_assert(is(s[i], b), "a string of n equal characters"); vp_assert(is(c, b), "the character is left alone"); vp_reach("end"); }
void t_vec_%(n)d() { Raw r = RS(%(n)d); std::vector<Char> v; v.reserve(8); for (int i = 0; i < r.n; ++i) v.push_back(C(r.b[i])); String s(v); same(s, r, "a string of the characters given"); vp_assert(v.size() == %(n)du, "the characters given are left alone"); std::vector<Char> d = s.data(); vp_assert(d.size() == %(n)du, "data() yields all characters"); for (int i = 0; i < %(n)d; ++i) vp_assert(is(d[i], r.b[i]), "data() yields the characters in order"); vp_reach("end"); }
void t_range_%(n)d() { Raw r = RS(%(n)d); std::string t = native(r); String s(t.begin(), t.end()); same(s, r, "a string of a range of a text"); const char* p = t.c_str(); String q(p, p + %(n)d); same(q, r, "a string of a range of an array"); std::vector<char> v(t.begin(), t.end()); String w(v.begin(), v.end()); same(w, r, "a string of a range of a vector"); vp_reach("end"); }
void t_text_%(n)d() { Raw r = RS(%(n)d); std::string t = native(r); String s(t); same(s, r, "a string of a text"); String q(t.c_str()); same(q, r, "a string of a C string"); vp_assert(text(t, r), "the text is left alone"); vp_reach("end"); }
void t_nul_%(n)d() { std::string t; t.reserve(20); for (int i = 0; i < %(n)d; ++i) t.push_back('a'); t.push_back(0); t.push_back('b'); String s(t); vp_assert(s.size() == %(n)du + 2, "a NUL inside a text is a character"); vp_assert(is(s[%(n)d], 0) && is(s[%(n)d + 1], 'b'), "a NUL inside a text is a character"); vp_assert(s.str() == t, "the text of a string is the text it was made of"); vp_assert(s.ByteCount() == %(n)du + 2, "the byte count is the sum of the encoded lengths"); vp_reach("end"); }
void t_copy_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); String c(s); same(c, r, "a copy has the same characters"); same(s, r, "copying leaves the source alone"); c.PushBack(C('x')); same(s, r, "a copy is independent of its source"); String a = mk(cat(r, r)); a = s; same(a, r, "an assigned string has the same characters"); same(s, r, "assigning leaves the source alone"); String& self = a; a = self; same(a, r, "self-assignment changes nothing"); vp_reach("end"); }
void t_move_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); String c(std::move(s)); same(c, r, "a moved string keeps its characters"); String a = mk(cat(r, r)); a = std::move(c); same(a, r, "a move-assigned string has the characters"); String& self = a; a = std::move(self); same(a, r, "self-move-assignment changes nothing"); s = a; same(s, r, "a moved-from string can be assigned"); vp_reach("end"); }
void t_size_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); vp_assert(s.size() == %(n)du && s.Length() == %(n)du, "the length is the number of characters"); vp_assert(s.IsEmpty() == (%(n)d == 0) && s.NotEmpty() == (%(n)d != 0), "empty means no characters"); vp_assert(s.ByteCount() == %(n)du, "the byte count is the sum of the encoded lengths"); vp_assert(text(s.str(), r), "the text is the encoded characters in order"); same(s, r, "asking leaves the string alone"); s.Clear(); vp_assert(s.size() == 0 && s.IsEmpty(), "a cleared string is empty"); vp_assert(s.str().empty(), "a cleared string is empty"); s.PushBack(C('x')); vp_assert(s.size() == 1 && is(s[0], 'x'), "a cleared string can be extended"); vp_reach("end"); }
void t_push_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); unsigned char b = byte("b"); Char c = C(b); s.PushBack(c); Raw one; one.n = 1; one.b[0] = b; same(s, cat(r, one), "PushBack appends the character"); vp_assert(is(c, b), "the character is left alone"); vp_reach("end"); }
void t_iter_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); const String& k = s; int i = 0; for (const Char& c : k) { vp_assert(i < %(n)d && is(c, r.b[i]), "iteration visits the characters in order"); ++i; } vp_assert(i == %(n)d, "iteration visits every character");
    i = 0; for (auto it = s.begin(); it != s.end(); ++it) { vp_assert(i < %(n)d && is(*it, r.b[i]), "iteration visits the characters in order"); ++i; } vp_assert(i == %(n)d, "iteration visits every character");
    i = 0; for (auto it = s.cbegin(); it != s.cend(); ++it) { vp_assert(i < %(n)d && is(*it, r.b[i]), "iteration visits the characters in order"); ++i; } vp_assert(i == %(n)d, "iteration visits every character");
    i = %(n)d; for (auto it = s.rbegin(); it != s.rend(); ++it) { --i; vp_assert(i >= 0 && is(*it, r.b[i]), "reverse iteration visits the characters from the last one"); } vp_assert(i == 0, "reverse iteration visits every character");
    i = %(n)d; for (auto it = k.rbegin(); it != k.rend(); ++it) { --i; vp_assert(i >= 0 && is(*it, r.b[i]), "reverse iteration visits the characters from the last one"); } vp_assert(i == 0, "reverse iteration visits every character");
    i = %(n)d; for (auto it = s.crbegin(); it != s.crend(); ++it) { --i; vp_assert(i >= 0 && is(*it, r.b[i]), "reverse iteration visits the characters from the last one"); } vp_assert(i == 0, "reverse iteration visits every character");
    for (Char& c : s) c = C('y'); for (i = 0; i < %(n)d; ++i) vp_assert(is(s[i], 'y'), "characters can be replaced while iterating"); vp_reach("end"); }
void t_out_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); std::ostringstream o; o << s; vp_assert(text(o.str(), r), "the text of a string is written"); o << s; vp_assert(text(o.str(), cat(r, r)), "the text of a string is written after what was there"); same(s, r, "writing leaves the string alone"); vp_reach("end"); }
''' % {"n": n})
        if n <= 3:
            o.append('''void t_in_%(n)d() { Raw r; r.n = %(n)d; %(init)s std::string t = native(r); int cut = 0; while (cut < %(n)d && r.b[cut] != 10) ++cut; std::stringstream i(t); String s("old"); i >> s; same(s, sub(r, 0, cut), "one line is read"); vp_assert(i.eof() == (cut == %(n)d), "only the line feed after the line is taken"); std::string rest; if (i.good()) { std::getline(i, rest, (char)0xff); vp_assert(text(rest, sub(r, cut + 1, %(n)d - cut - 1)), "the text after the line stays"); } vp_reach("end"); }
void t_in2_%(n)d() { Raw r; r.n = %(n)d; %(init)s std::string t = native(r); t.push_back(10); t.push_back('z'); int cut = 0; while (cut < %(n)d && r.b[cut] != 10) ++cut; std::stringstream i(t); String s; i >> s; same(s, sub(r, 0, cut), "one line is read"); if (cut == %(n)d) { String q; i >> q; vp_assert(q.size() == 1 && is(q[0], 'z'), "the next line is read next"); } vp_reach("end"); }
void t_case_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); String u = s.ToUppercase(), l = s.ToLowercase(); vp_assert(u.size() == %(n)du && l.size() == %(n)du, "case conversion keeps the length");
    for (int i = 0; i < %(n)d; ++i) { unsigned char b = r.b[i]; vp_assert(is(u[i], b >= 'a' && b <= 'z' ? b - 32 : b), "each character is converted to upper case"); vp_assert(is(l[i], b >= 'A' && b <= 'Z' ? b + 32 : b), "each character is converted to lower case"); } same(s, r, "case conversion leaves the string alone"); vp_reach("end"); }
''' % {"n": n, "init": "".join('r.b[%d] = vp_u8("s%d"); vp_assume(r.b[%d] >= 1 && r.b[%d] < 128); ' % (i, i, i, i) for i in range(n))})
        for m in range(M + 1):
            o.append('''void t_add_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q); String a = s + t; same(a, cat(r, q), "the sum is the characters of both in order"); same(s, r, "adding leaves the operands alone"); same(t, q, "adding leaves the operands alone"); vp_reach("end"); }
void t_addto_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q); String& x = (s += t); same(s, cat(r, q), "the other string is appended"); vp_assert(&x == &s, "+= yields the string itself"); same(t, q, "appending leaves the other string alone"); s += t; same(s, cat(cat(r, q), q), "the other string is appended again"); vp_reach("end"); }
void t_append_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r); std::string t = native(q); s.Append(t.c_str()); same(s, cat(r, q), "Append appends the text"); vp_reach("end"); }
void t_appendn_%(n)d_%(m)d() { Raw r = RS(%(n)d); unsigned char b = byte("b"); Char c = C(b); Raw q; q.n = 0; while (q.n < %(m)d) q.b[q.n++] = b; String s = mk(r); s.Append(%(m)dul, c); same(s, cat(r, q), "Append appends the character so many times"); vp_assert(is(c, b), "the character is left alone"); char x[2] = {(char)b, 0}; String z = mk(r); z.Append(%(m)dul, (const char*)x); same(z, cat(r, q), "Append appends the character so many times"); vp_reach("end"); }
''' % {"n": n, "m": m})
    # characters of every encoded length
    names = ["a", "b", "c", "d"]
    K = 3 if M > 2 else 2

    def combos(k):
        return [[]] if k == 0 else [c + [x] for c in combos(k - 1) for x in (1, 2, 3, 4)]
    for k in range(1, K + 1):
        for c in combos(k):
            us = "".join('U u%d; uni(u%d, %d, "%da", "%db", "%dc", "%dd"); ' % (i, i, x, i, i, i, i) for i, x in enumerate(c))
            put = "".join("for (int i = 0; i < %d; ++i) t.push_back((char)u%d.b[i]); " % (x, i) for i, x in enumerate(c))
            chk = "".join('vp_assert(isu(%%s[%d], u%d), "each encoded character of a text is one character"); ' % (i, i) for i in range(k))
            o.append('void t_utf8_%s() { %sstd::string t; t.reserve(20); %sString s(t); vp_assert(s.size() == %du, "a text has as many characters as are encoded"); %sString p(t.c_str()); vp_assert(p.size() == %du, "a text has as many characters as are encoded"); %svp_assert(s.ByteCount() == %du, "the byte count is the sum of the encoded lengths"); vp_assert(s.str() == t, "the text of a string is the text it was made of"); String q; q.PushBack(C(\'x\')); q.Append(t.c_str()); vp_assert(q.size() == %du, "a text has as many characters as are encoded"); for (int i = 0; i < %d; ++i) vp_assert(q[i + 1] == s[i], "each encoded character of a text is one character"); std::ostringstream w; w << s; vp_assert(w.str() == t, "the text of a string is written"); vp_reach("end"); }\n'
                     % ("".join(map(str, c)), us, put, k, chk.replace("%s", "s"), k, chk.replace("%s", "p"), sum(c), k + 1, k))
    o.append(r'''
void t_partly() { unsigned char a = vp_u8("a"), b = byte("b"); vp_assume(a >= 0x80); char t[4] = {(char)b, 'y', (char)a, 0}; String k("keep"); bool threw = false;
    try { k.Append((const char*)t); } catch (const std::exception&) { threw = true; } vp_assert(threw && k == String("keep"), "a rejected text leaves the string as it was"); threw = false;
    try { k.Insert(1, (const char*)t); } catch (const std::exception&) { threw = true; } vp_assert(threw && k == String("keep"), "a rejected text leaves the string as it was"); threw = false;
    std::string q(t); try { k = q; } catch (const std::exception&) { threw = true; } vp_assert(threw && k == String("keep"), "a rejected text leaves the string as it was"); vp_reach("end"); }
void t_empty() { String s; vp_assert(s.size() == 0 && s.IsEmpty() && !s.NotEmpty() && s.ByteCount() == 0 && s.str().empty() && s.begin() == s.end(), "a new string is empty"); String e = String::Empty(); vp_assert(e.size() == 0 && e == s, "Empty() is the empty string"); String c(""); vp_assert(c.size() == 0, "the empty text gives the empty string"); vp_reach("end"); }
void t_literal() { String s = "a\xc3\xa4z"_str; vp_assert(s.size() == 3u && is(s[0], 'a') && is(s[2], 'z') && s[1].str() == "\xc3\xa4", "a literal is the string of its text"); vp_reach("end"); }
void t_casewide() { unsigned k = vp_u32("k"); vp_assume(k < 6); CodePoint c = k == 0 ? 0xe4 : k == 1 ? 0x101 : k == 2 ? 0x3b1 : k == 3 ? 0x416 : k == 4 ? 0x20ac : 0x1f600; String s; s.PushBack(C('a')); s.PushBack(Char{c}); s.PushBack(C('B')); String u = s.ToUppercase(), l = s.ToLowercase();
    vp_assert(u.size() == 3u && u[1] == Char{ToUppercase(c)}, "each character is converted to upper case"); vp_assert(l.size() == 3u && l[1] == Char{ToLowercase(c)}, "each character is converted to lower case"); vp_assert(is(u[0], 'A') && is(u[2], 'B') && is(l[0], 'a') && is(l[2], 'b'), "each character is converted"); vp_reach("end"); }
void t_valueof() { vp_assert(String(String::ValueOf(true)) == String("true") && String(String::ValueOf(false)) == String("false") && String(String::ValueOf(nullptr)) == String("null"), "the texts of the literals"); vp_reach("end"); }
void t_truncated() { unsigned char a = vp_u8("a"); vp_assume(a >= 0x80); char t[2] = {(char)a, 0}; bool threw = false; try { String s((const char*)t); } catch (const std::exception&) { threw = true; } vp_assert(threw, "an incomplete or invalid encoding is rejected"); vp_reach("end"); }
void t_truncated3() { unsigned char a = vp_u8("a"), b = vp_u8("b"); vp_assume(a >= 0xe0 && b >= 0x80 && b < 0xc0); char t[3] = {(char)a, (char)b, 0}; bool threw = false; try { String s((const char*)t); } catch (const std::exception&) { threw = true; } vp_assert(threw, "an incomplete or invalid encoding is rejected"); String k("keep"); threw = false; try { k.Append((const char*)t); } catch (const std::exception&) { threw = true; } vp_assert(threw && k == String("keep"), "a rejected text leaves the string as it was"); try { k.Insert(1, (const char*)t); vp_assert(false, "an incomplete or invalid encoding is rejected"); } catch (const std::exception&) { } vp_assert(k == String("keep"), "a rejected text leaves the string as it was"); vp_reach("end"); }
''')
    return "".join(o) + "}\n"


def run(ctx):
    N, M = (5, 4) if ctx.tier == "thorough" else (4, 3)
    mod, res = drv.settle(ctx, "value", HEAD + gen(N, M), cfg)
    drv.reached(ctx, res, 12 * (N + 1) + 12 + 4 * (N + 1) * (M + 1) + 20 + 5)
