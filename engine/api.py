"""Units of verification, trusted library models, and helpers for writing contracts."""
import re, os, sys, time, traceback
import z3
from .irparse import *
from .sym import *
from . import exec as X
from .exec import Exec, Exc, Cand, Program, zx64, sx64, LoopCtx, fpcast


REPO = os.environ.get("VC_REPO", "/repo")
CXXFLAGS = ["-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-discard-value-names",
            "-DCATCH_CONFIG_NO_POSIX_SIGNALS"]


def build_ir(tu, outdir):
    """IR text of one translation unit of the current tree"""
    src = tu if tu.startswith("/") else "%s/src/%s.cpp" % (REPO, tu)
    base = os.path.join(outdir, os.path.basename(tu).replace(".cpp", ""))
    inc = ["-I%s/%s" % (REPO, d) for d in ("include", "src", "third_party/catch", "third_party/clara", "third_party/GSL")]
    p = subprocess.run(["clang++"] + CXXFLAGS + inc + ["-S", "-emit-llvm", src, "-o", base + ".ll"], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("clang failed on %s:\n%s" % (src, p.stderr[-3000:]))
    p = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=sroa,mem2reg", base + ".ll", "-o", base + ".opt.ll"],
                       capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("opt failed: " + p.stderr[-2000:])
    return base + ".opt.ll"


class Unit:
    """one verification unit: run(ctx) generates and discharges obligations about real functions"""

    def __init__(self, name, tus, run, functions=(), budget=400, bounded=None, thorough_only=False):
        self.name, self.tus, self.run, self.functions, self.budget = name, list(tus), run, list(functions), budget
        self.bounded = bounded
        self.thorough_only = thorough_only


class Ctx:
    def __init__(self, irs, tier):
        self.irs = irs
        self.tier = tier
        self.execs = []
        self._mods = None
        self.extra = []
        self.functions = {}

    def program(self):
        if self._mods is None:
            self._mods = [Module(open(f).read(), f) for f in self.irs]
        return Program(self._mods)

    def exec(self, under, rules=(), prog=None):
        ex = Exec(prog or self.program(), [BASE_RULES] + list(rules))
        ex.under = under
        ex.deadline = time.process_time() + self.budget
        self.execs.append(ex)
        return ex


def verify(ctx, ex, fn, setup, post, st=None, name=None):
    """Check function fn (demangled name / regex) against its contract.

    setup(ex, st) -> list of (st, args, info); post(ex, kind, st, ret, info) asserts the postcondition.
    """
    mg = ex.p.mangled(fn)
    d = ex.p.dem.get(mg, mg)
    ex.under = name or d
    ctx.functions.setdefault(d, 0)
    ctx.functions[d] += 1
    cases = setup(ex, st or State())
    nout = 0
    reach = False
    ex.terminated = []      # states in which a path ended inside a contract (longjmp, a loop that never ends)
    for s, args, info in cases:
        ground = list(s.pc)
        r, _ = z3check(ground + instantiate(ground, s.facts, 1), 10000)
        if r == z3.unsat:
            ex.obls.append({"name": "precondition is satisfiable", "fn": ex.under, "ok": False, "by": "z3", "t": 0, "reason": "vacuous",
                            "loc": None, "goal": "precondition", "model": None, "trace": []})
            continue
        STATS.add("cover")
        outs = ex.call(s, mg, args)
        for kind, so, val in outs:
            nout += 1
            if not reach and so.feasible(timeout=2000):
                reach = True
            post(ex, kind, so, val, info)
    for so in ex.terminated:
        nout += 1
        if not reach and so.feasible(timeout=2000):
            reach = True
    ok = nout > 0 and reach
    ex.obls.append({"name": "contract is not vacuous: an exit is reached and 'false' is refuted there", "fn": ex.under, "ok": ok, "by": "z3", "t": 0,
                    "reason": "" if ok else "no exit reached", "loc": None, "goal": "", "model": None, "trace": []})
    return nout


def fail(ex, name, reason):
    ex.obls.append({"name": name, "fn": ex.under, "ok": False, "by": "engine", "t": 0, "reason": reason, "loc": None, "goal": "",
                    "model": None, "trace": []})


def iv(name, w=32):
    return fresh(name, w)


# ------------------------------------------------------------------ libc models (trusted)
def rx(s):
    return re.compile(s)


def h_none(ex, st, args, ins):
    return None


def ret_fresh(w, name="ext"):
    return lambda ex, st, args, ins: fresh(name, w)


def h_vsnprintf(ex, st, args, ins):
    dst, n = args[0], zx64(args[1])
    if not dst.isnull():
        ex.range_access(st, dst, n, "store", ins.dbg)
        st.havoc(dst.r, dst.off, n)
    return fresh("vsnprintf", 32)


NUL = {}


def h_strlen(ex, st, args, ins):
    p = args[0]
    return strlen_of(ex, st, p, ins.dbg if ins else None)


def strlen_of(ex, st, p, loc=None):
    """length of the NUL-terminated string at p; the terminator must exist inside the object"""
    ex.access(st, p, 1, "load", loc)
    l = st.log(p.r)
    # constant strings
    if isinstance(l.base, Const) and l.e is None and isc(p.off):
        o = cval(p.off)
        while o < l.base.nbytes:
            if cval(const_byte(l.base, o)) == 0:
                return bv(o - cval(p.off))
            o += 1
    b0 = simp(st.rd(p.r, p.off, 1))
    if isc(b0) and cval(b0) == 0:
        return bv(0)
    key = ("strlen", id(l), p.r, p.off.get_id())
    if key in st.ghost:
        return st.ghost[key][0]
    h = p.r.tag.get("strlen")
    if h is not None:
        v = h(ex, st, p)
        if v is not None:
            return v
    n = fresh("strlen", 64)
    has = st.ghost.get(("nul", p.r))
    if has is None and p.r.size is not None:
        # unknown termination: require evidence from the spec
        ev_ = p.r.tag.get("nul_at")
        if ev_ is None:
            raise EngineError("strlen of %s without a termination fact" % p.r)
    mx = p.r.size if p.r.size is not None else bv(1 << 40)
    st.assume(z3.ULT(n, mx - p.off))
    st.assume(z3.ULT(n, bv(1 << 40)))
    st.assume(st.rd(p.r, add(p.off, n), 1) == 0)
    snap = st.log(p.r)
    st.assume(Forall([BV64], lambda i: z3.Implies(z3.ULT(i, n), st.load_log(snap, p.r, add(p.off, i), 1) != 0), [[("cstridx", 0)]], "strlen"))
    st.ghost[key] = (n, l, p.off)
    return n


def h_malloc(ex, st, args, ins):
    """fresh object or null"""
    n = zx64(args[0])
    r = Region("heap", n, kind="heap")
    s2 = st.fork()
    st.ghost.setdefault("heap", [])
    st.ghost["heap"] = st.ghost["heap"] + [r]
    return [(st, Ptr(r)), (s2, NULL)]


def h_new(ex, st, args, ins):
    r = Region("new", zx64(args[0]), kind="heap")
    return Ptr(r)


def h_free(ex, st, args, ins):
    p = args[0]
    if p.r.kind == "null":
        return None
    ex.assert_(st, p.off == 0, "free of the start of an allocation", ins.dbg)
    if p.r in st.freed:
        ex.assert_(st, z3.BoolVal(False), "no double free", ins.dbg)
    st.freed = st.freed | {p.r}
    return None


def h_memcpy(ex, st, args, ins):
    ex.memcopy(st, args[0], args[1], args[2], ins.dbg)
    return args[0]


def h_memset(ex, st, args, ins):
    ex.memset(st, args[0], z3.Extract(7, 0, args[1]), args[2], ins.dbg)
    return args[0]


def h_copy_n(ex, st, args, ins):
    """std::copy_n over raw bytes: the first n bytes, in order; returns the end of the destination"""
    s, n, d = args
    n = sx64(n) if "int" in str(n.sort()) else zx64(n)
    ex.memcopy(st, d, s, n, ins.dbg)
    return Ptr(d.r, add(d.off, n))


def h_throw(ex, st, args, ins):
    return Exc(args[1].r.tag.get("gname", "?"), args[0])


_vt = Region("vtable for std::exception", None)
_vt.ptr_hook = lambda st, off: Ptr(Region("fn:vc_exc_what", 0, kind="func", func="vc_exc_what"))


def exc_obj():
    """an object of a standard exception class"""
    r = Region("exc", None, kind="heap")
    r.ptr_hook = lambda st, off: Ptr(_vt)
    return r


def h_alloc_exc(ex, st, args, ins):
    return Ptr(exc_obj())


def h_begin_catch(ex, st, args, ins):
    st.ghost["caught"] = (st.ghost.get("caught") or []) + [st.ghost.get("excmap", {}).get(args[0].r)]
    return args[0]


def h_end_catch(ex, st, args, ins):
    st.ghost["caught"] = (st.ghost.get("caught") or [None])[:-1]
    return None


def h_rethrow(ex, st, args, ins):
    c = st.ghost.get("caught") or []
    if not c or c[-1] is None:
        raise EngineError("rethrow without a current exception")
    return c[-1]


def h_throw_std(ti):
    return lambda ex, st, args, ins: Exc(ti, Ptr(exc_obj()))


def h_terminate(ex, st, args, ins):
    ex.assert_(st, z3.BoolVal(False), "std::terminate is not reached", ins.dbg)
    return []


def h_what(ex, st, args, ins):
    r = Region("what", None)
    st.ghost[("nul", r)] = True
    return Ptr(r)


def h_memcmp(ex, st, args, ins):
    """<0,0,>0; zero iff all bytes equal"""
    a, b, n = args[0], args[1], zx64(args[2])
    ex.range_access(st, a, n, "load", ins.dbg)
    ex.range_access(st, b, n, "load", ins.dbg)
    r = fresh("memcmp", 32)
    la, lb = st.log(a.r), st.log(b.r)
    k = fresh("memcmp_w", 64)
    st.assume(z3.Implies(r != 0, z3.And(z3.ULT(k, n), st.load_log(la, a.r, add(a.off, k), 1) != st.load_log(lb, b.r, add(b.off, k), 1))))
    sx = st
    st.assume(Forall([BV64], lambda i: z3.Implies(z3.And(r == 0, z3.ULT(i, n)),
                     sx.load_log(la, a.r, add(a.off, i), 1) == sx.load_log(lb, b.r, add(b.off, i), 1)), [[("byteidx", 0)]], "memcmp"))
    st.ghost[("memcmp", r.get_id())] = (a, b, n, r)
    return r


def h_opaque_str(ex, st, args, ins):
    """text of a message: contents are not tracked"""
    return None


def h_opaque_cstr(ex, st, args, ins):
    r = Region("text", None)
    st.ghost[("nul", r)] = True
    return Ptr(r)


STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
BASE_RULES = [
    (rx(r"std::__cxx11::to_string\(.*\)"), h_opaque_str),
    (rx(re.escape(STR) + r" std::operator\+<char, .*"), h_opaque_str),
    (rx(re.escape(STR) + r"::~basic_string\(\)"), h_opaque_str),
    (rx(r"string_format\[abi:cxx11\]\(.*|string_format\(.*"), h_opaque_str),
    (rx(r"std::(range_error|overflow_error|system_error|underflow_error)::~?(range_error|overflow_error|system_error|underflow_error)\(.*\)"), h_opaque_str),
    (rx(r"std::allocator<char>::~?allocator\(\)"), h_opaque_str),
    (rx(r"std::_V2::(system|generic)_category\(\)"), h_opaque_cstr),
    (rx(r"vsnprintf|snprintf"), h_vsnprintf),
    ("strlen", h_strlen),
    ("vc_exc_what", h_what),
    (rx(r"malloc"), h_malloc),
    ("free", h_free),
    (rx(r"operator new(\[\])?\(unsigned long\)"), h_new),
    (rx(r"operator delete(\[\])?\(void\*(, unsigned long)?\)"), h_free),
    (rx(r"memcpy|memmove"), h_memcpy),
    ("memset", h_memset),
    ("memcmp", h_memcmp),
    (rx(r"char\* std::copy_n<(const )?char( const)?\*, (int|unsigned int|long|unsigned long|short|unsigned short), char\*>\(.*"), h_copy_n),
    (rx(r"__cxa_throw"), h_throw),
    (rx(r"__cxa_allocate_exception"), h_alloc_exc),
    (rx(r"__cxa_free_exception"), h_none),
    (rx(r"__cxa_begin_catch"), h_begin_catch),
    (rx(r"__cxa_end_catch"), h_end_catch),
    (rx(r"__cxa_rethrow"), h_rethrow),
    (rx(r"__clang_call_terminate|std::terminate\(\)|abort"), h_terminate),
    (rx(r"std::(exception|runtime_error|logic_error|bad_alloc)::what\(\) const"), h_what),
    (rx(r"std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|domain_error)::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|domain_error)\(.*\)"), h_none),
    (rx(r"std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception)::~.*"), h_none),
    (rx(r"std::__throw_out_of_range(_fmt)?\(.*"), h_throw_std("_ZTISt12out_of_range")),
    (rx(r"std::__throw_length_error\(.*"), h_throw_std("_ZTISt12length_error")),
    (rx(r"std::__throw_logic_error\(.*"), h_throw_std("_ZTISt11logic_error")),
    (rx(r"std::__throw_bad_alloc\(.*|std::__throw_bad_array_new_length\(.*"), h_throw_std("_ZTISt9bad_alloc")),
    (rx(r"std::__throw_invalid_argument\(.*"), h_throw_std("_ZTISt16invalid_argument")),
    (rx(r"std::__throw_bad_function_call\(.*"), h_throw_std("_ZTISt17bad_function_call")),
    (rx(r"std::__throw_system_error\(.*"), h_throw_std("_ZTISt12system_error")),
    (rx(r"__cxa_atexit"), h_none),
]
import subprocess
