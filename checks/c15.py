"""C15: named character constants denote the character of their name."""
import re, unicodedata
from harness import *
from witness import run_unit
LEVEL = "other"
EXPLANATION = ("Every constant of namespace Caitlyn::Def is listed from the clang syntax tree of the current headers; its name is resolved in the Unicode character database "
               "(names, and the aliases of control characters), and a static_assert per constant compares its bytes, to the terminating zero, with the UTF-8 encoding of that character, in both compilers and every standard.")
ASSUMPTIONS = ["names that the character database does not know (other than Empty) are listed as undecided"]
CONTROL = {"NULL": 0, "BELL": 7, "LINE FEED": 10, "FORM FEED": 12, "CARRIAGE RETURN": 13, "INFORMATION SEPARATOR FOUR": 28, "INFORMATION SEPARATOR THREE": 29,
           "INFORMATION SEPARATOR TWO": 30, "INFORMATION SEPARATOR ONE": 31, "DELETE": 127}


def norm(s):
    return re.sub(r"[^A-Z0-9]", "", s.upper())


def table():
    t = {}
    for cp in range(0x110000 - 1, 0x7F, -1):
        n = unicodedata.name(chr(cp), "")
        if n:
            t[norm(n)] = cp
    for cp in range(0x20, 0x7F):
        t[norm(unicodedata.name(chr(cp)))] = cp
    for a in ["START OF HEADING", "START OF TEXT", "END OF TEXT", "END OF TRANSMISSION", "ENQUIRY", "ACKNOWLEDGE", "BACKSPACE", "CHARACTER TABULATION", "LINE TABULATION",
              "SHIFT OUT", "SHIFT IN", "DATA LINK ESCAPE", "DEVICE CONTROL ONE", "DEVICE CONTROL TWO", "DEVICE CONTROL THREE", "DEVICE CONTROL FOUR", "NEGATIVE ACKNOWLEDGE",
              "SYNCHRONOUS IDLE", "END OF TRANSMISSION BLOCK", "CANCEL", "END OF MEDIUM", "SUBSTITUTE", "ESCAPE", "NEXT LINE"]:
        t[norm(a)] = ord(unicodedata.lookup(a))
    for a, cp in CONTROL.items():
        t[norm(a)] = cp
    return t


PRE = r'''
#include <Caitlyn/Char>
#include <Caitlyn/String>
namespace w { using namespace Caitlyn::Def; }
'''


def names():
    rc, out, err = sh(["clang++", "-w", "-std=c++11", "-I", INC, "-fsyntax-only", "-x", "c++", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=Caitlyn::Def", "-"], stdin=PRE.encode())
    if rc:
        raise Broken("the constants cannot be listed: " + first_error(err))
    return sorted(set(m.group(1) for m in re.finditer(r"^\|?[|` ]*-?VarDecl .*? (\w+) '[^']*'", out, re.M)))


def run(ctx):
    t = table()
    items = []
    for n in names():
        if n == "Empty":
            b = b""
        elif norm(n) in t:
            b = chr(t[norm(n)]).encode("utf-8")
        else:
            ctx.undecided("named character", n, "not a name of the character database")
            continue
        cond = " && ".join(["(unsigned char)Caitlyn::Def::%s[%d] == %d" % (n, i, c) for i, c in enumerate(b)] + ["Caitlyn::Def::%s[%d] == 0" % (n, len(b))])
        items.append(("Def::%s is %s" % (n, "U+%04X" % t[norm(n)] if n != "Empty" else "the empty string"), 'static_assert(%s, "bytes");' % cond))
    ctx.need(len(items), 100, "character constants")
    jobs = [(c, s) for c in COMPILERS for s in STDS]
    for (c, s), bad in zip(jobs, pmap(lambda j: run_unit(ctx, "named character", PRE, items, *j), jobs)):
        for i, (label, _) in enumerate(items):
            if i not in bad:
                (ctx.undecided("named character", label, "unit failed elsewhere") if None in bad else ctx.ok("named character", label))
            elif re.search(r"static.assert", bad[i]) and "constant" not in bad[i]:
                ctx.violation("named character", label, "its bytes are not those of the character it names (%s -std=%s)" % (c, s), key="named character|" + label)
            else:
                ctx.undecided("named character", label, bad[i])
