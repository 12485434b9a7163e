"""Models of the C++ standard library used by the interpreter (by demangled name)."""
import re
from interp import *


def install(eng):
    noop = lambda e, st, a, i, f: ret(st, a[0] if a else U)
    # standard exception classes: construction and destruction have no effect the checks look at
    def exc_ctor(e, st, a, i, f):
        return ret(st)
    eng.hook(r"std::(logic_error|runtime_error|invalid_argument|domain_error|length_error|out_of_range|range_error|overflow_error|underflow_error|exception|bad_alloc|bad_cast)::~?\w+\(", exc_ctor)

    def thrower(ti):
        return lambda e, st, a, i, f: [e.throw(st, ti)]
    for n, t in (("__throw_out_of_range", "_ZTISt12out_of_range"), ("__throw_out_of_range_fmt", "_ZTISt12out_of_range"), ("__throw_length_error", "_ZTISt12length_error"),
                 ("__throw_logic_error", "_ZTISt11logic_error"), ("__throw_invalid_argument", "_ZTISt16invalid_argument"), ("__throw_bad_alloc", "_ZTISt9bad_alloc"),
                 ("__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"), ("__throw_bad_cast", "_ZTISt8bad_cast"), ("__throw_bad_function_call", "_ZTISt17bad_function_call")):
        eng.hook(r"std::" + n + r"\(", thrower(t))
