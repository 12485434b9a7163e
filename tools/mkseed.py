#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py and confirms it:
   patch applies, builds, stable tests pass, demo 0 without / nonzero with.
   usage: mkseed.py [ids...]   (no check reads any of this)"""
import sys, os, subprocess, shutil, json, tempfile, re
V = "/verif"
sys.path.insert(0, V + "/tools")
import seeds
_b = json.load(open("/opt/vp/BASELINE.json"))
BASELINE = _b if isinstance(_b, list) else next(v for v in _b.values() if isinstance(v, list) and len(v) > 30)

DEMO = """#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -r -- "$t"' EXIT
${CXX:-g++} -std=c++11 -w %s -I include "$d"/*.cc -o "$t/demo" -pthread || exit %d
cd "$t" && timeout 60 ./demo %s
"""


def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_and_test(d):
    """in a private copy of the tree at path d (build.sh works on /repo only, so the tests are compiled here)"""
    return None


def main():
    ids = sys.argv[1:] or [s["id"] for s in seeds.SEEDS]
    for s in seeds.SEEDS:
        if s["id"] not in ids:
            continue
        out = "%s/seeded/%s" % (V, s["id"])
        w = tempfile.mkdtemp(dir="/tmp", prefix="seed")
        sh("cp -a /repo/include %s/ && cp -a /repo/.git %s/" % (w, w))
        for f, old, new in s["edits"]:
            p = w + "/include/Caitlyn/" + f
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s["id"], "EDIT MATCHES", n, "times in", f); break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh("git diff -- include", cwd=w).stdout
            # the changed lines must be lines of the original repository
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.cc", "w").write(s["demo"].lstrip("\n"))
            for fn, src in s.get("files", {}).items():
                open(out + "/" + fn, "w").write(src.lstrip("\n"))
            open(out + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), s.get("cfail", 3), s.get("redir", "")))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            if not s.get("notest"):
                sh("cp -a /repo/test /repo/CMakeLists.txt %s/ ; cp -a /repo/cmake %s/ 2>/dev/null" % (w, w))
                r = sh("env CC=gcc CXX=g++ cmake -S %s -B %s/_b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DDEVELOPMENT=ON '-DCMAKE_CXX_FLAGS=-include cstdint' >/dev/null && ninja -C %s/_b && cd %s/_b && ./test/CaitlynTest" % (w, w, w, w))
                bad = re.findall(r"\[     FAIL \] (\w+\.\w+)", r.stdout)
                stable = BASELINE
                okn = re.findall(r"\[       OK \] (\w+\.\w+)", r.stdout)
                miss = [x for x in stable if x not in okn]
                if miss:
                    print(s["id"], "TESTS FAIL", miss[:4], r.stdout[-400:] if not okn else "")
            a = sh(out + "/demo.sh", cwd="/repo")
            b = sh(out + "/demo.sh", cwd=w)
            fixed = orig_lines(diff)
            print("%-28s %s clean=%d patched=%d%s %s" % (s["id"], s["property"], a.returncode, b.returncode, " NOT-ORIGINAL " + fixed if fixed else "",
                                                        "" if a.returncode == 0 and b.returncode not in (0, 3, 124) else "BAD " + a.stdout[-600:] + b.stdout[-600:]))
        shutil.rmtree(w)


def orig_lines(diff):
    """removed lines that blame to something else than the first commit"""
    bad = []
    f = None
    first = sh("git rev-list --max-parents=0 HEAD", cwd="/repo").stdout.strip()[:8]
    cache = {}
    n = 0
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
            cache[f] = sh("git blame -s -l %s" % f, cwd="/repo").stdout.split("\n")
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = cache[f][n - 1]
            if first[:7] not in b[:9]:
                bad.append(l.strip())
            n += 1
        elif l.startswith(" "):
            n += 1
    return "; ".join(bad)[:200]


main()
