"""C06: a JSON value owns its tree."""
import drv, jsonsrc
from harness import *
LEVEL = "other"
EXPLANATION = ("Ownership typestate analysis (path-sensitive abstract interpretation of clang IR, containers analysed from their source) of the JSON value type: every pair of kinds, including nested arrays and objects with arbitrary contents, for construction, copy, move, assignment, "
               "change of kind, growth and removal of members, and every alias of source and target (the value itself, a part of it, the whole for a part). Use of destroyed storage, double destruction and leaks are faults on an abstract path; the content of target and source is compared.")
ASSUMPTIONS = ["operator new does not fail", "trees of up to five members per node and three levels stand for larger ones"]
K = (0, 2, 4, 7, 8, 10, 12)
SRC = jsonsrc.NATIVE
for k in range(14):
    SRC += '''void t_copy_%(k)d() { ARG { J a = mk(%(k)d, i, s); { J b(a); is(b, %(k)d, i, s); is(a, %(k)d, i, s); } is(a, %(k)d, i, s); } vp_reach("end"); }
void t_copy_source_dies_%(k)d() { ARG { J* a = new J(mk(%(k)d, i, s)); J b(*a); delete a; is(b, %(k)d, i, s); } vp_reach("end"); }
void t_move_%(k)d() { ARG { J a = mk(%(k)d, i, s); J b(std::move(a)); is(b, %(k)d, i, s); is(a, 0, i, s); a = (Int64)j; is(a, 2, j, t); a["x"] = true; vp_assert(a.Size() == 1, "the moved-from value is usable"); } vp_reach("end"); }
void t_self_copy_%(k)d() { ARG { J a = mk(%(k)d, i, s); J& r = a; a = r; is(a, %(k)d, i, s); } vp_reach("end"); }
void t_self_move_%(k)d() { ARG { J a = mk(%(k)d, i, s); J& r = a; a = std::move(r); is(a, %(k)d, i, s); } vp_reach("end"); }
void t_whole_to_member_%(k)d() { ARG { J a = mk(%(k)d, i, s); J k = a; a["n"] = J(a); } vp_reach("end"); }
void t_scalar_%(k)d() { ARG { J a = mk(%(k)d, i, s); a = (Int64)j; is(a, 2, j, t); } { J a = mk(%(k)d, i, s); a = (j > 0); is(a, 1, j, t); } { J a = mk(%(k)d, i, s); a = 2.5; is(a, 3, j, t); } { J a = mk(%(k)d, i, s); a = "xy"; is(a, 4, j, String("xy")); } vp_reach("end"); }
void t_key_%(k)d() { ARG { J a = mk(%(k)d, i, s); a["c"] = (Int64)j; vp_assert(a.IsObject(), "indexing by key makes an object"); is(a["c"], 2, j, t); is(a.At(String("c")), 2, j, t); a["c"] = mk(4, j, t); is(a["c"], 4, j, t); } vp_reach("end"); }
void t_index_%(k)d() { ARG { J a = mk(%(k)d, i, s); a[2] = (Int64)j; vp_assert(a.IsArray() && a.Size() == (%(k)d == 13 ? 5 : 3), "indexing by number makes an array"); is(a[2], 2, j, t); a[0] = mk(4, j, t); is(a.At(0), 4, j, t); } vp_reach("end"); }
void t_append_%(k)d() { ARG { J a = mk(%(k)d, i, s); a.Append((Int64)j, mk(4, j, t)); vp_assert(a.IsArray(), "appending makes an array"); is(a[a.Size() - 1], 4, j, t); is(a[a.Size() - 2], 2, j, t); } vp_reach("end"); }
void t_append_self_%(k)d() { ARG { J a = mk(%(k)d, i, s); a.Append(a); vp_assert(a.IsArray(), "appending makes an array"); is(a[a.Size() - 1], %(k)d, i, s); } vp_reach("end"); }
void t_settype_%(k)d() { ARG { J a = mk(%(k)d, i, s); a.SetType(JsonClass::Object); a.SetType(JsonClass::Array); vp_assert(a.IsArray(), "the kind is changed"); a.SetType(JsonClass::String); vp_assert(a.GetString().IsEmpty(), "the new content is empty"); a.SetType(JsonClass::Null); } vp_reach("end"); }
''' % dict(k=k)
for k in K:
    for l in K:
        SRC += '''void t_copyassign_%(k)d_%(l)d() { ARG { J a = mk(%(k)d, i, s); { J b = mk(%(l)d, j, t); J& r = (a = b); vp_assert(&r == &a, "assignment returns the target"); is(b, %(l)d, j, t); } is(a, %(l)d, j, t); } vp_reach("end"); }
void t_moveassign_%(k)d_%(l)d() { ARG { J a = mk(%(k)d, i, s); { J b = mk(%(l)d, j, t); J& r = (a = std::move(b)); vp_assert(&r == &a, "assignment returns the target"); is(b, 0, j, t); b = (Int64)i; is(b, 2, i, s); } is(a, %(l)d, j, t); } vp_reach("end"); }
''' % dict(k=k, l=l)
for k in range(14):
    SRC += '''void t_element_copy_%(k)d() { ARG { J a = Json::MakeArray(); a.Append(mk(%(k)d, i, s)); a.Append((Int64)j); a = a[0]; is(a, %(k)d, i, s); } vp_reach("end"); }
void t_element_move_%(k)d() { ARG { J a = Json::MakeArray(); a.Append(mk(%(k)d, i, s)); a.Append((Int64)j); a = std::move(a[0]); is(a, %(k)d, i, s); } vp_reach("end"); }
void t_member_copy_%(k)d() { ARG { J a; a["k"] = mk(%(k)d, i, s); a["l"] = true; a = a["k"]; is(a, %(k)d, i, s); } vp_reach("end"); }
void t_member_move_%(k)d() { ARG { J a; a["k"] = mk(%(k)d, i, s); a["l"] = true; a = std::move(a["k"]); is(a, %(k)d, i, s); } vp_reach("end"); }
void t_back_%(k)d() { ARG { J a; a["k"] = mk(%(k)d, i, s); a["k"] = a; vp_assert(a.IsObject() && a.Size() == 1 && a["k"].IsObject(), "the part becomes a copy of the whole"); is(a["k"]["k"], %(k)d, i, s); } vp_reach("end"); }
void t_sibling_%(k)d() { ARG { J a; a["k"] = mk(%(k)d, i, s); a["l"] = mk(7, j, t); a["l"] = a["k"]; is(a["k"], %(k)d, i, s); is(a["l"], %(k)d, i, s); a["k"] = std::move(a["l"]); is(a["k"], %(k)d, i, s); is(a["l"], 0, i, s); } vp_reach("end"); }
void t_doc_copy_%(k)d() { ARG { JsonDocument d; d.AddMember("k", mk(%(k)d, i, s)); { JsonDocument e(d); is(e["k"], %(k)d, i, s); JsonDocument f; f = e; is(f["k"], %(k)d, i, s); f = f; is(f["k"], %(k)d, i, s); JsonDocument g(std::move(f)); is(g["k"], %(k)d, i, s); vp_assert(f.GetType() == JsonClass::Null && !f.HasError(), "a moved-from document is empty"); e = std::move(g); is(e["k"], %(k)d, i, s); } is(d["k"], %(k)d, i, s); } vp_reach("end"); }
void t_doc_remove_%(k)d() { ARG { JsonDocument d; d.AddMember("j", (Int64)j); d.AddMember("k", mk(%(k)d, i, s)); d.AddMember("l", mk(4, j, t)); d.RemoveMember("k"); vp_assert(!d.HasMember("k") && d.Size() == 2 && d.HasMember("j") && d.HasMember("l"), "exactly the named member is removed"); is(d["l"], 4, j, t); d.RemoveMember("x"); d.RemoveMember("l"); d.RemoveMember("j"); vp_assert(d.Size() == 0, "all are removed"); } vp_reach("end"); }
void t_doc_replace_%(k)d() { ARG { JsonDocument d; d.AddMember("k", mk(%(k)d, i, s)); d.AddMember("k", mk(7, j, t)); vp_assert(d.Size() == 1, "a member is replaced"); is(d["k"], 7, j, t); d.AddMember("k", d["k"]); is(d["k"], 7, j, t); d.AddMember("m", d["k"]); is(d["m"], 7, j, t); } vp_reach("end"); }
''' % dict(k=k)
SRC += "}"


def cfg(eng, run, entry):
    jsonsrc.native(eng, run, entry)
    eng.MAXREC = 8
    return drv.leakcheck


def run(ctx):
    mod, res = drv.settle(ctx, "tree", SRC, cfg)
    drv.reached(ctx, res, 330)
