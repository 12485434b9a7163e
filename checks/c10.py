"""C10: every JSON error has its own message."""
import json, re, subprocess
import drv, text, streams, cstr
from harness import *
LEVEL = "other"
EXPLANATION = ("The enumerators of the error type are read from clang's syntax tree of the current headers. Abstract interpretation of the message function yields the text of every one of them; all of them are compared in pairs. "
               "The error text of a document is analysed for a document whose error is any enumerator, and on documents that parse one text per kind of error.")
ASSUMPTIONS = ["the error type is an enumeration named Json::JsonError"]
HEAD = r'''
#include <fstream>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <unordered_map>
#include <set>
#include <functional>
#include <memory>
#include <chrono>
#include <random>
#include <iomanip>
#include <sstream>
#include <deque>
#include <vector>
#include <string>
#include <cmath>
#include <algorithm>
#include <stdexcept>
#define private public
#define protected public
#include <Caitlyn/Serializing>
#undef private
#undef protected
using namespace Caitlyn;
''' + streams.VOC + r'''
static String msg(Json::JsonError e) { return String(Json::GetErrorString(e)); }
extern "C" {
'''
DOCS = ["{}", " ", "", "[]", "{\"a\":1}", "{a:1}", "{\"a\" 1}", "{\"a\":tru}", "{\"a\":\"\\q\"}", "{\"a\":\"b}", "{\"a\":[1}", "{\"a\":[1,]}", "{\"a\":1,}", "{\"a\":1}}", "{\"a\":-}", "{\"a\":nul}",
        "{\"a\":99999999999999999999999}", "{\"a\":1.e}", "{\"a\":{}"]


def enumerators():
    p = subprocess.run(["clang++", "-std=gnu++11", "-I", REPO + "/include", "-x", "c++", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=JsonError", "-"],
                       input="#include <Caitlyn/Serializing>\n", capture_output=True, text=True)
    dec, out, pos = json.JSONDecoder(), [], 0
    s = p.stdout
    while pos < len(s):
        while pos < len(s) and s[pos] != "{":
            pos += 1
        if pos >= len(s):
            break
        o, pos = dec.raw_decode(s, pos)
        if o.get("kind") == "EnumDecl":
            out += [x["name"] for x in o.get("inner", []) if x.get("kind") == "EnumConstantDecl"]
    return list(dict.fromkeys(out))


def src(es=None):
    es = es or enumerators()
    s = HEAD
    for i, a in enumerate(es):
        s += 'void t_msg_%s() { String m = msg(Json::JsonError::%s); vp_assert(m != String(), "every error has a message"); ' % (a, a)
        for b in es[i + 1:]:
            s += 'vp_assert(m != msg(Json::JsonError::%s), "%s and %s have different messages"); ' % (b, a, b)
        s += 'vp_reach("end"); }\n'
        s += 'void t_doc_%s() { JsonDocument d; d.error_ = Json::JsonError::%s; vp_assert(d.GetError() == Json::JsonError::%s, "the error of the document"); same(d.GetErrorString(), msg(Json::JsonError::%s), "the text is the message of the error"); vp_reach("end"); }\n' % (a, a, a, a)
    for i, d in enumerate(DOCS):
        s += 'void t_parse_%d() { JsonDocument d(String(%s)); same(d.GetErrorString(), msg(d.GetError()), "the text is the message of the error"); vp_reach("end"); }\n' % (i, json.dumps(d))
    return s + "}\n"


def cfg(eng, run, entry):
    text.install_all(eng)
    cstr.install(eng)
    streams.install_vocabulary(eng.streams, run)
    eng.streams.failures = False


def run(ctx):
    es = enumerators()
    ctx.need(len(es), 5, "enumerators of Json::JsonError")
    ctx.count("enumerators", len(es))
    mod, res = drv.settle(ctx, "msg", src(es), cfg)
    drv.reached(ctx, res, 2 * len(es) + len(DOCS))
