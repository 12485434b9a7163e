"""C42: the configuration describes the platform and the language being compiled for."""
import os, re
from harness import *
LEVEL = "other"
EXPLANATION = ("The library's configuration header is preprocessed by clang for twenty targets (operating system times architecture, with clang's own predefined macros, and with them reduced to those of GCC, MinGW, Visual C++ and the Intel compiler) and every language version, and by the installed g++; "
               "on each of them exactly the architecture, operating system and compiler macros of that target must be defined, with its name, word size and version text, and the language flags must be one exactly for the versions that are available. "
               "The fixed-width types are type-checked against the sizes of each target, and every public header is preprocessed with undefined macros in conditions reported: none may test a configuration macro that is never defined.")
ASSUMPTIONS = ["the predefined macros clang states for a target are those of that target's compilers", "an empty file stands for the Windows system header"]
CFG = "Caitlyn/__Caitlyn/Config.h"
# target: (architecture, bits, system, name, word size or None)
TARGETS = {
    "i386-linux-gnu": ("X86", 32, "LINUX", "Linux", 32), "i686-linux-gnu": ("X86", 32, "LINUX", "Linux", 32),
    "x86_64-linux-gnu": ("X86_64", 64, "LINUX", "Linux", 64), "x86_64-linux-musl": ("X86_64", 64, "LINUX", "Linux", 64),
    "x86_64-linux-gnux32": ("X86_64", 64, "LINUX", "Linux", 32),
    "arm-linux-gnueabihf": ("ARM", 32, "LINUX", "Linux", 32), "armv7-linux-gnueabi": ("ARM", 32, "LINUX", "Linux", 32), "thumbv7-linux-gnueabi": ("ARM", 32, "LINUX", "Linux", 32),
    "aarch64-linux-gnu": ("ARM64", 64, "LINUX", "Linux", 64),
    "x86_64-apple-darwin": ("X86_64", 64, "APPLE", "Apple", 64), "arm64-apple-darwin": ("ARM64", 64, "APPLE", "Apple", 64), "arm64-apple-ios": ("ARM64", 64, "APPLE", "Apple", 64),
    "i686-pc-windows-msvc": ("X86", 32, "WINDOWS", "Windows", None), "x86_64-pc-windows-msvc": ("X86_64", 64, "WINDOWS", "Windows", None), "aarch64-pc-windows-msvc": ("ARM64", 64, "WINDOWS", "Windows", None),
    "x86_64-w64-mingw32": ("X86_64", 64, "WINDOWS", "Windows", None), "i686-w64-mingw32": ("X86", 32, "WINDOWS", "Windows", None),
    "aarch64-linux-android21": ("ARM64", 64, "ANDROID", "Android", 64), "x86_64-linux-android21": ("X86_64", 64, "ANDROID", "Android", 64), "armv7-linux-androideabi21": ("ARM", 32, "ANDROID", "Android", 32),
}
STDS_ = ["c++11", "c++14", "c++17", "c++20", "c++23"]
ARCHS = ["X86", "X86_64", "ARM", "ARM64"]
SYS = ["LINUX", "APPLE", "WINDOWS", "ANDROID"]
COMP = ["CLANG", "GCC", "MSVC", "INTEL"]
VALUES = ["ARCH", "WORDSIZE", "OS_NAME", "COMPILER_VERSION", "VERSION"] + ["HAS_CXX%d" % n for n in (11, 14, 17, 20, 23)]
WORDS = {"CONSTEXPR11": ("constexpr", 11), "NOEXCEPT11": ("noexcept", 11), "CONSTEXPR14": ("constexpr", 14), "CONSTEXPR17": ("constexpr", 17), "INLINE17": ("inline", 17), "NODISCARD17": ("[[nodiscard]]", 17),
         "CONSTEXPR20": ("constexpr", 20), "CONSTEVAL20": ("consteval", 20), "CONSTINIT20": ("constinit", 20), "CONSTEXPR23": ("constexpr", 23)}
LANG = {11: 201103, 14: 201402, 17: 201703, 20: 202002, 23: 202300}
TYPES = '''
#include "Caitlyn/__Caitlyn/Types.h"
using namespace Caitlyn;
template <class T> struct sg { static const bool value = T(-1) < T(0); };
'''
SIZES = [("Int8", "1", 1), ("UInt8", "1", 0), ("SByte", "1", 1), ("Byte", "1", 0), ("Int16", "2", 1), ("UInt16", "2", 0), ("Int32", "4", 1), ("UInt32", "4", 0), ("Int64", "8", 1), ("UInt64", "8", 0),
         ("SizeType", "sizeof(sizeof(0))", 0), ("SSizeType", "sizeof(sizeof(0))", 1)]
for t, s, g in SIZES:
    TYPES += 'static_assert(sizeof(%s) == %s, "WIT %s has its size"); static_assert(sg<%s>::value == %s, "WIT %s has its signedness");\n' % (t, s, t, t, "true" if g else "false", t)
for t, g in (("IntMax", 1), ("UIntMax", 0)):
    TYPES += 'static_assert(sizeof(%s) == sizeof(long long), "WIT %s is the largest integer"); static_assert(sg<%s>::value == %s, "WIT %s has its signedness");\n' % (t, t, t, "true" if g else "false", t)
for t, g in (("IntPtr", 1), ("UIntPtr", 0)):
    TYPES += 'static_assert(sizeof(%s) >= sizeof(void*), "WIT %s holds a pointer"); static_assert(sg<%s>::value == %s, "WIT %s has its signedness");\n' % (t, t, t, "true" if g else "false", t)


def query(cmd):
    """Preprocesses the configuration: name -> expansion, or None if it is not defined."""
    names = VALUES + ["ARCH_" + a for a in ARCHS] + ["OS_" + a for a in SYS] + ["OS_UNIX"] + ["COMPILER_" + a for a in COMP] + ["COMPILER_MINGW"] + list(WORDS)
    t = '#include "%s"\n' % CFG
    for n in names:
        t += "#ifdef __CAITLYN_%s\n@%s@ __CAITLYN_%s\n#endif\n" % (n, n, n)
    t += "@LANG@ __CAITLYN_CXX_STANDARD\n@CPP@ __cplusplus\n"
    rc, out, err = sh(cmd + ["-E", "-P", "-x", "c++", "-"], stdin=t.encode())
    d = {}
    if rc == 0:
        for m in re.finditer(r"^@(\w+)@[ \t]*(.*)$", out, re.M):
            v = m.group(2).strip()
            s = re.findall(r'"((?:[^"\\]|\\.)*)"', v)
            d[m.group(1)] = "".join(s) if s else v
    return (d if rc == 0 else None), err


def judge(ctx, label, d, arch, bits, system, name, word, comp, version, lang, mingw=False):
    def need(what, ok, detail):
        if ok:
            ctx.ok("configuration", label + ": " + what)
        else:
            ctx.violation("configuration", label + ": " + what, "%s: %s" % (CFG, detail), key=what + "|" + label.split(" -std")[0])
    have = [a for a in ARCHS if "ARCH_" + a in d]
    need("architecture", have == [arch] and d.get("ARCH") == str(bits), "defines %s, ARCH %s" % (have, d.get("ARCH")))
    have = [a for a in SYS if "OS_" + a in d]
    need("operating system", have == [system] and d.get("OS_NAME") == name, "defines %s, named %s" % (have, d.get("OS_NAME")))
    need("Unix", ("OS_UNIX" in d) == (system != "WINDOWS"), "OS_UNIX %s" % ("defined" if "OS_UNIX" in d else "not defined"))
    if word is not None:
        need("word size", d.get("WORDSIZE") == str(word), "WORDSIZE %s, not %d" % (d.get("WORDSIZE"), word))
    have = [a for a in COMP if "COMPILER_" + a in d]
    need("compiler", have == [comp] and ("COMPILER_MINGW" in d) == mingw, "defines %s" % have)
    need("compiler version", d.get("COMPILER_VERSION") == version, "COMPILER_VERSION %s, not %s" % (d.get("COMPILER_VERSION"), version))
    need("library version", bool(re.match(r"Caitlyn \d+\.\d+\.\d+$", d.get("VERSION", ""))), "VERSION %s" % d.get("VERSION"))
    for n, v in LANG.items():
        need("C++%d flag" % n, d.get("HAS_CXX%d" % n) == ("1" if lang >= v else "0"), "HAS_CXX%d is %s when the language is %d" % (n, d.get("HAS_CXX%d" % n), lang))
    for w, (k, n) in WORDS.items():
        if w in d:
            need(w, d[w] == (k if lang >= LANG[n] else ""), "expands to '%s' when the language is %d" % (d[w], lang))


def number(s):
    m = re.match(r"(\d+)", s or "")
    return int(m.group(1)) if m else 0


def run(ctx):
    if not os.path.exists(os.path.join(INC, CFG)):
        ctx.undecided("configuration", CFG, "the configuration header has moved")
        return
    stub = os.path.join(ctx.scratch, "stub")
    os.makedirs(stub, exist_ok=True)
    open(os.path.join(stub, "windows.h"), "w").close()
    jobs = []
    for t, (arch, bits, system, name, word) in TARGETS.items():
        for s in STDS_:
            base = ["clang++", "-w", "--target=" + t, "-nostdinc", "-nostdinc++", "-I", INC, "-I", stub]
            jobs.append((t, s, base + ["-std=" + s], (arch, bits, system, name, word, "CLANG"), "clang"))
            if system != "APPLE":
                if "msvc" not in t:
                    mg = "mingw" in t
                    jobs.append((t + " as GCC", s, base + ["-std=" + s, "-U__clang__", "-U__GNUC__", "-U__GNUC_MINOR__", "-D__GNUC__=12", "-D__GNUC_MINOR__=3"], (arch, bits, system, name, word, "GCC"), "MinGW" if mg else "GCC"))
                else:
                    jobs.append((t + " as Visual C++", s, base + ["-std=" + s, "-U__clang__", "-U__GNUC__", "-U_MSC_VER", "-D_MSC_VER=1934"], (arch, bits, system, name, word, "MSVC"), "MSVC"))
                if "msvc" not in t and "mingw" not in t:
                    jobs.append((t + " as Intel", s, base + ["-std=" + s, "-U__clang__", "-U__GNUC__", "-U__GNUG__", "-D__INTEL_COMPILER=2021"], (arch, bits, system, name, word, "INTEL"), "Intel"))
    for s in STDS_:
        jobs.append(("this machine, g++", s, ["g++", "-w", "-I", INC, "-std=" + s], TARGETS["x86_64-linux-gnu"] + ("GCC",), "native"))
    cl = sh(["clang++", "-E", "-P", "-x", "c++", "-"], stdin=b"__clang_major__.__clang_minor__")[1].strip().replace(" ", "")
    gc = sh(["g++", "-E", "-P", "-x", "c++", "-"], stdin=b"__GNUC__.__GNUC_MINOR__")[1].strip().replace(" ", "")
    version = {"clang": "Clang " + cl, "GCC": "GCC 12.3", "MinGW": "MinGW 12.3", "MSVC": "MSVC 1934", "Intel": "Intel 2021", "native": "GCC " + gc}
    res = pmap(lambda j: query(j[2]), jobs)
    for (t, s, cmd, exp, kind), (d, err) in zip(jobs, res):
        label = "%s -std=%s" % (t, s)
        ctx.count("configurations")
        if d is None:
            ctx.violation("configuration", label, "cannot be preprocessed: " + first_error(err), key="pp|" + t)
            continue
        lang = number(d.get("CPP"))
        if "Visual" in t:
            # Visual C++ states the language in a macro of its own
            lang = number(d.get("LANG"))
        judge(ctx, label, d, exp[0], exp[1], exp[2], exp[3], exp[4], exp[5], version[kind], lang, mingw=kind == "MinGW")
    # the language is taken from where each compiler states it
    for v, l in (("201402L", 201402), ("201703L", 201703), ("202002L", 202002)):
        d, err = query(["clang++", "-w", "--target=x86_64-pc-windows-msvc", "-nostdinc", "-nostdinc++", "-I", INC, "-I", stub, "-std=c++20", "-U__clang__", "-U__GNUC__", "-U_MSC_VER", "-D_MSC_VER=1934", "-U_MSVC_LANG", "-D_MSVC_LANG=" + v, "-U__cplusplus", "-D__cplusplus=199711L"])
        if d is None:
            ctx.undecided("configuration", "Visual C++ language version", first_error(err))
        elif all(d.get("HAS_CXX%d" % n) == ("1" if l >= x else "0") for n, x in LANG.items()):
            ctx.ok("configuration", "Visual C++ with _MSVC_LANG " + v)
        else:
            ctx.violation("configuration", "Visual C++ with _MSVC_LANG " + v, "%s: language flags %s" % (CFG, {n: d.get("HAS_CXX%d" % n) for n in LANG}))
    # the types of each target
    tj = [(t, s) for t in TARGETS for s in STDS_]

    def types(j):
        rc, out, err = sh(["clang++", "-w", "--target=" + j[0], "-nostdinc", "-nostdinc++", "-I", INC, "-I", stub, "-std=" + j[1], "-fsyntax-only", "-ferror-limit=0", "-x", "c++", "-"], stdin=TYPES.encode())
        return rc, err
    for (t, s), (rc, err) in zip(tj, pmap(types, tj)):
        label = "%s -std=%s" % (t, s)
        bad = sorted(set(re.findall(r"WIT ([^'\"\n]*)", "\n".join(l for l in err.splitlines() if "error:" in l))))
        if rc == 0:
            for n, _, _ in SIZES:
                ctx.ok("types", label + ": " + n)
        elif bad:
            for b in bad:
                ctx.violation("types", label, "Caitlyn/__Caitlyn/Types.h: broken: " + b, key="types|%s|%s" % (t, b))
        elif "file not found" in err:
            ctx.undecided("types", label, first_error(err))
        else:
            ctx.violation("types", label, first_error(err), key="types|" + t)
    # no header tests a macro of the library that nothing defines
    hj = [(h, s, c) for h in public_headers() for s in STDS_ for c in ("clang++", "g++")]

    def undef(j):
        return sh([j[2], "-std=" + j[1], "-I", INC, "-Wundef", "-fsyntax-only", "-x", "c++", "-"], stdin=("#include <Caitlyn/%s>\n" % j[0]).encode())
    for (h, s, c), (rc, out, err) in zip(hj, pmap(undef, hj)):
        bad = sorted(set(re.findall(r"^(\S+?):\d+:\d+: warning: [\"']?(__[Cc]\w+|CAITLYN\w*|__caitlyn\w+)[\"']? is not defined", err, re.M)))
        if bad:
            for f, m in bad:
                ctx.violation("conditions", "%s -std=%s" % (h, s), "%s tests %s, which is not defined" % (os.path.relpath(f, INC), m), key="undef|%s|%s" % (os.path.basename(f), m))
        elif rc == 0:
            ctx.ok("conditions", "%s (%s -std=%s)" % (h, c, s))
        else:
            ctx.undecided("conditions", "%s (%s -std=%s)" % (h, c, s), first_error(err))
