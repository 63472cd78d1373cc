"""Reusable pieces of contracts: loop invariant templates, string objects, driver based replay."""
import os, re, subprocess, itertools
import z3
from .sym import *
from .exec import Cand
from . import api
from .api import rx

REPO = api.REPO
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ival(v):
    """64-bit value of an integer phi, or the offset of a pointer phi"""
    if isinstance(v, Ptr):
        return v.off
    if not z3.is_bv(v):
        return None
    w = v.size()
    if w == 64:
        return v
    if w < 64:
        return z3.ZeroExt(64 - w, v)
    return None


def sval(v):
    if isinstance(v, Ptr):
        return v.off
    if not z3.is_bv(v) or v.size() > 64:
        return None
    return v if v.size() == 64 else z3.SignExt(64 - v.size(), v)


def linrel_cands(ctx, ratios=((1, 1), (3, 4), (4, 3), (1, 3), (3, 1), (1, 4), (4, 1)), steps=(1, 2, 3, 4, 8)):
    """candidate linear relations between the loop's variables: p*(x-x0) == q*(y-y0)"""
    names = [k for k, v in ctx.phis.items() if ival(v) is not None and k != "#it"]
    e0 = {k: ival(ctx.phis[k]) for k in names}
    out = []
    for a, b in itertools.combinations(names, 2):
        for p, q in ratios:
            def f(st, phis, a=a, b=b, p=p, q=q):
                x, y = ival(phis[a]), ival(phis[b])
                return bv(p) * (x - e0[a]) == bv(q) * (y - e0[b])
            out.append(Cand("%d*d(%s)==%d*d(%s)" % (p, a, q, b), f))

        def fneg(st, phis, a=a, b=b):
            return ival(phis[a]) - e0[a] == e0[b] - ival(phis[b])
        out.append(Cand("d(%s)==-d(%s)" % (a, b), fneg))
    return out


def bound_cands(ctx, bounds, ge=True):
    """x <= B (unsigned and signed) and x >= x0 for every loop variable and every named bound"""
    out = []
    for k, v in ctx.phis.items():
        if ival(v) is None:
            continue
        x0 = ival(v)
        s0 = sval(v)
        for nm, b in bounds.items():
            out.append(Cand("%s<=%s" % (k, nm), lambda st, ph, k=k, b=b: z3.ULE(ival(ph[k]), b)))
            out.append(Cand("%s<=s%s" % (k, nm), lambda st, ph, k=k, b=b: sval(ph[k]) <= b))
        if ge:
            out.append(Cand("%s>=entry" % k, lambda st, ph, k=k, x0=x0: z3.UGE(ival(ph[k]), x0)))
            out.append(Cand("%s>=sentry" % k, lambda st, ph, k=k, s0=s0: sval(ph[k]) >= s0))
    return out


def mult_cands(ctx, ks=(2, 3, 4, 8)):
    """x - x0 is a multiple of k, stated with a quotient usable as block index"""
    out = []
    for k, v in ctx.phis.items():
        if ival(v) is None:
            continue
        x0 = ival(v)
        for m in ks:
            out.append(Cand("%s mult %d" % (k, m), lambda st, ph, k=k, m=m, x0=x0: z3.URem(ival(ph[k]) - x0, bv(m)) == 0))
    return out


def variant_cands(ctx, bounds):
    out = []
    for k, v in ctx.phis.items():
        if ival(v) is None:
            continue
        for nm, b in bounds.items():
            out.append(Cand("%s-%s" % (nm, k), lambda st, ph, k=k, b=b: b - ival(ph[k])))
        out.append(Cand("%s" % k, lambda st, ph, k=k: ival(ph[k])))
    return out


def cxx_driver(tmp, src, tus, args=(), timeout=120, asan=True, extra=(), libs=(), extra_tu={}):
    """compile replay/<src> with the current sources of /repo and run it; returns its report when it found a failing input"""
    exe = os.path.join(tmp, os.path.basename(src).replace(".cpp", ""))
    inc = ["-I%s/%s" % (REPO, d) for d in ("include", "src", "third_party/catch", "third_party/clara", "third_party/GSL")]
    cmd = ["g++", "-std=gnu++17", "-g", "-O1", "-w"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []) + inc + list(extra)
    cmd += [os.path.join(HERE, "replay", src)]
    objs = []
    procs = []
    for t in tus:
        o = os.path.join(tmp, "rp_" + t + ".o")
        procs.append((o, subprocess.Popen(["g++", "-std=gnu++17", "-g", "-O1", "-w"] + (["-fsanitize=address"] if asan else []) + inc + list(extra) + extra_tu.get(t, []) +
                                          ["-c", "%s/src/%s.cpp" % (REPO, t), "-o", o], stderr=subprocess.PIPE, text=True)))
    for o, p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError("replay build failed: " + err[-1500:])
        objs.append(o)
    p = subprocess.run(cmd + objs + ["-o", exe, "-ldl", "-lpthread", "-lstdc++fs"] + list(libs), capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("replay build failed: " + p.stderr[-1500:])
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", HOME=tmp, TMPDIR=tmp)
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=env, cwd=tmp, errors="replace")
    except subprocess.TimeoutExpired as e:
        return "replay driver %s did not terminate within %ds; output so far:\n%s" % (src, timeout, ((e.stdout or b"")[-3000:]).decode("utf8", "replace") if isinstance(e.stdout, bytes) else e.stdout)
    if r.returncode == 0:
        return None
    return "driver %s exit=%d\n%s\n%s" % (src, r.returncode, r.stdout[-4000:], r.stderr[-6000:])


def libtus():
    """translation units of libfuxedo in the current tree"""
    t = open("%s/Makefile.am" % REPO).read().replace("\\\n", " ")
    import re
    m = re.search(r"src_libfuxedo_la_SOURCES\s*=([^\n]*)", t)
    return [x[4:-4] for x in m.group(1).split() if x.startswith("src/") and x.endswith(".cpp")]


def driver(src, tus=None, **kw):
    """replay function of a specification module"""
    def replay(failed, tmp):
        return cxx_driver(tmp, src, libtus() if tus is None else tus, **kw)
    return replay


_layouts = {}


def layout(includes, exprs):
    """values of integral constant expressions (offsetof, sizeof, enumerators) in the current sources"""
    key = (tuple(includes), tuple(sorted(exprs.items())))
    if key in _layouts:
        return _layouts[key]
    import tempfile, re
    with tempfile.TemporaryDirectory() as d:
        src = "#include <stddef.h>\n#define STRIP_FLAG_HELP 1\n" + "".join('#include %s\n' % (i if i[0] in "<\"" else '"%s/%s"' % (REPO, i)) for i in includes)
        names = sorted(exprs)
        src += "".join('extern "C" { extern const long vc_l_%d; const long vc_l_%d = (long)(%s); }\n' % (i, i, exprs[n]) for i, n in enumerate(names))
        f = os.path.join(d, "layout.cpp")
        open(f, "w").write(src)
        inc = ["-I%s/%s" % (REPO, x) for x in ("include", "src", "third_party/catch", "third_party/clara", "third_party/GSL")]
        p = subprocess.run(["clang++", "-std=gnu++17", "-w", "-Wno-invalid-offsetof", "-fno-access-control", "-O0", "-S", "-emit-llvm"] + inc + [f, "-o", "-"],
                           capture_output=True, text=True)
        if p.returncode:
            raise EngineError("layout query failed: " + p.stderr[-800:])
        v = {int(m.group(1)): int(m.group(2)) for m in re.finditer(r"@vc_l_(\d+) = .*constant i64 (-?\d+)", p.stdout)}
    _layouts[key] = {n: v[i] for i, n in enumerate(names)}
    return _layouts[key]


def ptr_cells(st):
    """memory cells at constant offsets that hold pointers: (region, offset, pointer)"""
    out = []
    for r, l in st.mem.items():
        seen = set()
        while l is not None and l.e is not None:
            e = l.e
            if e[0] != "st" or not isc(e[1]):
                break
            o = cval(e[1])
            if o not in seen:
                seen.add(o)
                if e[2] == 8 and isinstance(e[3], Ptr):
                    out.append((r, o, e[3]))
            l = l.prev
    return out


def cell_cands(ctx, steps, regions=None):
    """pointer cells in memory that walk through an object with a fixed step per iteration, or do not move"""
    out = []
    for r, o, p in ptr_cells(ctx.entry):
        if r.kind not in ("stack", "heap", "obj") and r.kind is not None and r.kind != "":
            pass
        if p.r is NULLR or p.r.kind == "func" or (regions is not None and p.r not in regions):
            continue
        for k in (0,) + tuple(steps):
            def f(st, ph, r=r, o=o, p=p, k=k):
                q = st.rd(r, bv(o), 8, True)
                if not isinstance(q, Ptr) or q.r is not p.r:
                    return z3.BoolVal(False)
                return q.off == p.off + bv(k) * ph["#it"]
            out.append(Cand("%s+%d steps by %d" % (r.name, o, k), f))
    return out


def vec_rules(elem, esz):
    """std::vector<elem> for trivially copyable elem: the standard's sequence semantics (elements in one growing array)"""
    V = r"std::vector<%s, std::allocator<%s>>" % (re.escape(elem), re.escape(elem))

    def ctor(ex, st, args, ins):
        D = Region("vector<%s>" % elem, None, kind="heap")
        v = args[0]
        for o in (0, 8, 16):
            st.wr(v.r, v.off + o, 8, Ptr(D, bv(0)))
        return None

    def copy(ex, st, args, ins):
        v, s = args
        b, e = st.rd(s.r, s.off, 8, True), st.rd(s.r, s.off + 8, 8, True)
        D = Region("vector<%s>" % elem, None, kind="heap")
        n = simp(e.off - b.off)
        st.cp(D, bv(0), n, b.r, b.off)
        st.wr(v.r, v.off, 8, Ptr(D, bv(0)))
        st.wr(v.r, v.off + 8, 8, Ptr(D, n))
        st.wr(v.r, v.off + 16, 8, Ptr(D, n))
        return None

    def push(ex, st, args, ins):
        v, x = args
        e = st.rd(v.r, v.off + 8, 8, True)
        st.cp(e.r, e.off, bv(esz), x.r, simp(x.off))
        st.wr(v.r, v.off + 8, 8, Ptr(e.r, simp(e.off + esz)))
        return Ptr(e.r, e.off)
    return [(rx(V + r"::vector\(\)"), ctor), (rx(V + r"::vector\(" + V + r" const&\)"), copy),
            (rx(r"(%s& )?%s::(push_back|emplace_back<%s( const)?&?&?>)\(%s(&&| const&|&)\)" % (re.escape(elem), V, re.escape(elem), re.escape(elem))), push),
            (rx(V + r"::~vector\(\)"), lambda ex, st, a, i: None)]


def same_cells(ctx):
    """integer cells of local variables keep the value they have on entry to the loop"""
    out = []
    st0 = ctx.entry
    for r, l in list(st0.mem.items()):
        if r.kind != "stack":
            continue
        seen = set()
        while l is not None and l.e is not None:
            e = l.e
            if e[0] != "st" or not isc(e[1]):
                break
            o = cval(e[1])
            if o not in seen:
                seen.add(o)
                if not isinstance(e[3], Ptr) and isinstance(e[2], int) and e[2] <= 8:
                    out.append(Cand("%s+%d unchanged" % (r.name, o), lambda st, ph, r=r, o=o, n=e[2], v=e[3]: st.rd(r, bv(o), n) == v))
            l = l.prev
    return out
