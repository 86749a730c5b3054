"""units.py - the proof units of every property.

kind 'proof'   : every obligation holds for all inputs (loop free / operand-width loops fully unwound / loop contracts)
kind 'bounded' : same obligations, but for inputs up to the stated bound; never counted as proved
search N       : additionally evaluate the same contract at run time on the real compiled code for N seconds
"""
TRUSTED = ["ztv (ztv/ztv.py, ztv/ir.py): reader of LLVM IR, symbolic executor, obligation generator",
           "ztv/models.py and ztv/libc.c: models of malloc/calloc/realloc/free/memcpy/memmove/memset/memcmp, LLVM intrinsics and the str* functions",
           "z3 5.x and cvc5 1.1.2 (either answer is taken)",
           "clang 18 front end at -O0, LLVM passes sroa and simplifycfg",
           "CBMC 6.11 (goto-cc, goto-instrument --dfcc, SAT/SMT back ends), only for units whose back end is cbmc"]
ASSUMPTIONS = ["malloc/calloc/realloc do not fail (the library aborts on failure)",
               "built as shipped: NDEBUG defined unless the unit says otherwise",
               "single-threaded callers", "object sizes up to 2^40 bytes, loops cut by an invariant run fewer than 2^60 times"]
PROPS = {}
UNITS = []


def prop(pid, level="other", **k):
    PROPS[pid] = dict(level=level, **k)


def unit(prop, name, src, entry, kind, **k):
    UNITS.append(dict(prop=prop, name=name, src=src, entry=entry, kind=kind, **k))


import importlib, os, glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "u_*.py"))):
    exec(compile(open(f).read(), f, "exec"), dict(prop=prop, unit=unit))
