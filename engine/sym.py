"""Symbolic memory, states and the proof interface of the verifier.

Machine arithmetic is exact (bit-vectors); memory is a per-region write log over uninterpreted
base contents, so block copies of symbolic length stay quantifier free.
"""
import time, itertools, subprocess, os, threading
import z3

BV64 = z3.BitVecSort(64)
_ctr = itertools.count()


def fresh(name, w):
    return z3.BitVec("%s!%d" % (name, next(_ctr)), w)


def freshb(name):
    return z3.Bool("%s!%d" % (name, next(_ctr)))


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def isc(t):
    return z3.is_bv_value(t)


def cval(t):
    return t.as_long()


def scval(t):
    return t.as_signed_long()


_simp = {}


def simp(t):
    k = t.get_id()
    r = _simp.get(k)
    if r is None:
        r = (t, z3.simplify(t))
        _simp[k] = r
    return r[1]


def add(a, b):
    if isc(b) and cval(b) == 0:
        return a
    if isc(a) and cval(a) == 0:
        return b
    return simp(a + b)


def sub(a, b):
    return simp(a - b)


def mk_and(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            ys += list(x)
        else:
            ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    return ys[0] if len(ys) == 1 else z3.And(*ys)


class EngineError(Exception):
    """the engine cannot treat a construct; the function's obligations are then not established"""


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ regions
class Region:
    _n = itertools.count()

    def __init__(self, name, size=None, kind="mem", align=16, func=None):
        self.id = next(Region._n)
        self.name = name
        self.size = bv(size) if isinstance(size, int) else size
        self.kind = kind            # mem | func | null | stack | global | opaque
        self.func = func
        self.uid = "%s#%d" % (name, self.id)
        self.base = z3.BitVec("addr_" + self.uid, 64) if kind != "null" else bv(0)
        self.align = align
        self.ptr_hook = None        # (ex, st, off) -> Ptr, for pointers stored in initial contents
        self.readonly = False
        self.tag = {}
        self.ufs = {}

    def bytewise(self):
        """loads of different widths from the initial contents are related"""
        b = Base(self.name)
        b.bytes = True
        self.tag["init"] = b
        return self

    def basefacts(self):
        if self.kind == "null":
            return []
        r = [self.base != 0, z3.ULT(self.base, bv(1 << 47))]
        if self.align > 1:
            r.append(self.base & bv(self.align - 1) == 0)
        return r

    def __repr__(self):
        return "<%s>" % self.uid


NULLR = Region("null", 0, kind="null")


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off=0):
        self.r = r
        self.off = bv(off) if isinstance(off, int) else off

    def __add__(self, d):
        if isinstance(d, int):
            d = bv(d)
        return Ptr(self.r, add(self.off, d))

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.r, self.off)

    def isnull(self):
        return self.r is NULLR and isc(self.off) and cval(self.off) == 0


NULL = Ptr(NULLR, 0)


class Base:
    """uninterpreted initial/havocked contents of a region"""
    _n = itertools.count()

    def __init__(self, name):
        self.name = "%s@%d" % (name, next(Base._n))
        self.ufs = {}
        self.bytes = False          # wide loads are concatenations of byte loads

    def ld(self, n, off):
        if self.bytes and n > 1:
            return simp(z3.Concat(*[self.ld(1, add(off, bv(i))) for i in reversed(range(n))]))
        if n not in self.ufs:
            self.ufs[n] = z3.Function("ld%d_%s" % (n * 8, self.name), BV64, z3.BitVecSort(8 * n))
        return self.ufs[n](off)


class Const:
    """known contents (bytes / nested cells) used for global initialisers"""

    def __init__(self, cells, nbytes):
        self.cells = cells          # off -> (n, value)
        self.nbytes = nbytes


class Log:
    """immutable write log"""
    __slots__ = ("prev", "e", "base", "depth", "_cache")

    def __init__(self, prev, e, base):
        self.prev, self.e, self.base = prev, e, base
        self.depth = 0 if prev is None else prev.depth + 1
        self._cache = None

    def push(self, e):
        return Log(self, e, self.base)


def forced_diff(a, b):
    d = sub(a, b)
    return scval(d) if isc(d) else None


# ------------------------------------------------------------------ quantified facts
class Forall:
    """forall vars. body(vars). trig: per variable a list of (decl name prefix or None, arg index)"""

    def __init__(self, sorts, body, trig, name="", split=None):
        self.sorts, self.body, self.trig, self.name = sorts, body, trig, name
        self.cache = {}
        self.split = split      # a term: prove the instance at this term and all other instances separately

    def inst(self, args):
        k = tuple(a.get_id() for a in args)
        if k not in self.cache:
            r = self.body(*args)
            self.cache[k] = (r, args)
        return self.cache[k][0]

    def skolem(self):
        vs = []
        for i, s in enumerate(self.sorts):
            vs.append(z3.Const("sk_%s%d!%d" % (self.name, i, next(_ctr)), s))
        return vs, self.body(*vs)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.obl = []           # dicts
        self.backend = {}

    def add(self, b):
        self.backend[b] = self.backend.get(b, 0) + 1


STATS = Stats()
TIMEOUT = int(os.environ.get("VC_TIMEOUT_MS", "20000"))


_apps_cache = {}


def apps_of(t):
    """set of (declname, args) of uninterpreted applications with arity>0 inside t"""
    k = t.get_id()
    c = _apps_cache.get(k)
    if c is not None:
        return c[1]
    out = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            n = x.num_args()
            if n:
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    out[i] = (d.name(), [x.arg(j) for j in range(n)])
                for j in range(n):
                    stack.append(x.arg(j))
    r = list(out.values())
    _apps_cache[k] = (t, r)
    return r


def instantiate(ground, facts, rounds=2, limit=6000):
    """ground trigger-based instantiation; returns list of extra ground facts"""
    out = []
    done = set()
    pool = {}
    poolids = {}
    new = list(ground)
    for rnd in range(rounds):
        for t in new:
            for d, args in apps_of(t):
                for j, a in enumerate(args):
                    key = (d, j)
                    ids = poolids.setdefault(key, set())
                    if a.get_id() not in ids:
                        ids.add(a.get_id())
                        pool.setdefault(key, []).append(a)
        new = []
        for f in facts:
            cands = []
            for i, trs in enumerate(f.trig):
                cs, ids = [], set()
                for tr in trs:
                    if callable(tr):
                        lst = tr(pool)
                    elif isinstance(tr, z3.ExprRef):
                        lst = [tr]
                    else:
                        lst = pool.get(tr, [])
                    for a in lst:
                        if a.sort() == f.sorts[i] and a.get_id() not in ids:
                            ids.add(a.get_id())
                            cs.append(a)
                cands.append(cs)
            for combo in itertools.product(*cands):
                key = (id(f), tuple(a.get_id() for a in combo))
                if key in done:
                    continue
                done.add(key)
                g = f.inst(combo)
                if g is None:
                    continue
                if isinstance(g, (list, tuple)):
                    g = mk_and(*g)
                g2 = simp(g)
                if z3.is_true(g2):
                    continue
                new.append(g2)
                if len(out) + len(new) > limit:
                    return out + new
        out += new
        if not new:
            break
    return out


class Watch:
    """limits solver runs by processor time, so that a busy machine does not change results; wall time is limited to five times that"""
    def __init__(self):
        self.limit = self.thread = None
        self.fired = False

    def loop(self):
        while True:
            time.sleep(0.05)
            l = self.limit
            if l is not None and time.process_time() > l:
                self.limit = None
                self.fired = True
                z3.main_ctx().interrupt()

    def start(self, ms):
        if self.thread is None or self.pid != os.getpid():
            self.pid = os.getpid()
            self.thread = threading.Thread(target=self.loop, daemon=True)
            self.thread.start()
        self.fired = False
        self.limit = time.process_time() + ms / 1000

    def stop(self):
        self.limit = None


WATCH = Watch()


def z3check(assertions, timeout=None, seed=None):
    s = z3.Solver()
    ms = timeout or TIMEOUT
    s.set("timeout", ms * 5)
    if seed is not None:
        s.set("random_seed", seed)
    for a in assertions:
        s.add(a)
    t = time.time()
    for attempt in range(2):
        WATCH.start(ms)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        WATCH.stop()
        if r != z3.unknown or WATCH.fired or not any(x in s.reason_unknown() for x in ("cancel", "interrupt")):
            break          # otherwise: a late interrupt meant for an earlier query
    STATS.queries += 1
    STATS.time += time.time() - t
    return r, s


def cvc5check(assertions, timeout=60000):
    """second back end, through SMT-LIB text"""
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    t = time.time()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "-"], input=txt, text=True, capture_output=True,
                           timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split("\n")[-1]
    except Exception:
        out = "unknown"
    STATS.queries += 1
    STATS.time += time.time() - t
    return out


class State:
    def __init__(self):
        self.pc = []
        self.facts = []
        self.mem = {}
        self.frames = []
        self.ghost = {}
        self.freed = frozenset()
        self.trace = []
        self.exc = None
        self.dead = False
        self.known = {}      # entailment cache: ast id -> bool (monotone: only proved facts stay)
        self.writes = None
        self.jump = None

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.ghost = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in self.ghost.items()}
        s.freed = self.freed
        s.trace = list(self.trace)
        s.exc = self.exc
        s.known = dict(self.known)
        s.writes = None if self.writes is None else list(self.writes)
        s.jump = self.jump
        return s

    # ---------------------------------------------------------- logic
    def assume(self, c):
        if isinstance(c, Forall):
            self.facts.append(c)
            return
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)

    def feasible(self, c=None, timeout=5000):
        a = list(self.pc)
        if c is not None:
            c = simp(c)
            if z3.is_false(c):
                return False
            a.append(c)
        r, s = z3check(a, timeout)
        return r != z3.unsat

    def entails(self, c, timeout=4000, inst=False):
        """cheap entailment from the ground path condition"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        v = self.known.get(k)
        if v is not None and (v[0] or v[1] == len(self.pc)):
            return v[0]
        a = list(self.pc) + [z3.Not(c)]
        if inst and self.facts:
            a += instantiate(a, self.facts, 2)
        r, s = z3check(a, timeout)
        ok = r == z3.unsat
        self.known[k] = (ok, len(self.pc), c)
        return ok

    # ---------------------------------------------------------- memory
    def log(self, r):
        l = self.mem.get(r)
        if l is None:
            l = Log(None, None, r.tag.get("init") or Base(r.name))
            if not isinstance(l.base, Base) and isinstance(l.base, Const):
                pass
            self.mem[r] = l
            r.tag.setdefault("init", l.base)
        return l

    def note_write(self, r, off, n):
        if self.writes is not None:
            self.writes.append((r, off, n))

    def rd(self, r, off, n, ptr=False):
        if isinstance(off, int):
            off = bv(off)
        elif not isc(off):
            off = simp(off)
        return self.load_log(self.log(r), r, off, n, ptr)

    def wr(self, r, off, n, v):
        if isinstance(off, int):
            off = bv(off)
        elif not isc(off):
            off = simp(off)
        l = self.log(r)
        # drop directly overwritten constant-offset cells to keep logs short
        if isc(off):
            l = _compact(l, off, n)
        self.mem[r] = l.push(("st", off, n, v))
        self.note_write(r, off, n)

    def cp(self, r, off, ln, sr, soff):
        self.mem[r] = self.log(r).push(("cp", off, ln, self.log(sr), sr, soff))
        self.note_write(r, off, ln)

    def memset(self, r, off, ln, byte):
        if isc(ln) and cval(ln) == 0:
            return
        self.mem[r] = self.log(r).push(("set", off, ln, byte))
        self.note_write(r, off, ln)

    def havoc(self, r, off=None, ln=None):
        b = Base(r.name + "_h")
        if off is None:
            self.mem[r] = Log(None, None, b)
        else:
            if isinstance(off, int):
                off = bv(off)
            if isinstance(ln, int):
                ln = bv(ln)
            self.mem[r] = self.log(r).push(("hv", off, ln, b))
        self.note_write(r, off, ln)
        return b

    def load_log(self, l, r, off, n, ptr=False, spec=False):
        """read n bytes"""
        while True:
            e = l.e
            if e is None:
                return self.load_base(l.base, r, off, n, ptr)
            k = e[0]
            eo = e[1]
            el = e[2] if k != "st" else bv(e[2])
            d = forced_diff(off, eo)        # off - eo
            elc = cval(el) if isc(el) else None
            rel = None
            if d is not None and elc is not None:
                if d >= 0 and d + n <= elc:
                    rel = "in"
                elif d >= elc or d + n <= 0:
                    rel = "out"
                else:
                    rel = "part"
            elif elc == 0:
                rel = "out"
            if rel is None:
                rel = self.relation(off, n, eo, el)
            if rel == "out":
                l = l.prev
                continue
            if rel == "in":
                v = self.entry_value(e, r, off, n, ptr, d)
                return v
            if rel == "part":
                if ptr:
                    raise EngineError("pointer load partially overlaps a store in %s" % r)
                return self.bytewise(l, r, off, n)
            # undecided: value split
            if ptr:
                raise AmbiguousPtr(off, n, eo, el)
            inside = z3.And(z3.ULE(off - eo, el - bv(n)), z3.UGE(el, bv(n)))
            if k == "st" and e[2] == n:
                inside = off == eo
            outside = z3.And(z3.UGE(off - eo, el), z3.ULE(off - eo, bv(0) - bv(n)))
            v1 = self.entry_value(e, r, off, n, False, None)
            v2 = self.load_log(l.prev, r, off, n, False)
            if n == 1:
                return z3.If(simp(inside), v1, v2)
            if self.entails(z3.Or(inside, outside), 1500):
                return z3.If(simp(inside), v1, v2)
            if n in (2, 4, 8):
                v3 = self.bytewise(l, r, off, n)
            return z3.If(simp(inside), v1, z3.If(simp(outside), v2, v3))

    def bytewise(self, l, r, off, n):
        bs = [self.load_log(l, r, add(off, bv(i)), 1) for i in range(n)]
        return simp(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def relation(self, off, n, eo, el):
        d = sub(off, eo)
        # out: d >= el (unsigned) and no wrap of the access into the entry
        out = z3.And(z3.UGE(d, el), z3.ULE(d, bv(0) - bv(n)))
        if self.entails(out):
            return "out"
        inn = z3.And(z3.UGE(el, bv(n)), z3.ULE(d, el - bv(n)))
        if self.entails(inn):
            return "in"
        return None

    def entry_value(self, e, r, off, n, ptr, d):
        k = e[0]
        if k == "st":
            v = e[3]
            if d == 0 and e[2] == n:
                if ptr and not isinstance(v, Ptr):
                    return int_to_ptr(self, v)
                if isinstance(v, Ptr) and not ptr:
                    return ptr_to_int(self, v)
                return v
            if isinstance(v, Ptr):
                v = ptr_to_int(self, v)
            if ptr:
                raise EngineError("pointer load from the middle of a store")
            if n > e[2]:
                return fresh("undef", 8 * n)
            if d is not None:
                return simp(z3.Extract(8 * (d + n) - 1, 8 * d, v))
            w = e[2] * 8
            if w == 8 * n:
                return v
            sh = off - e[1]
            sh = z3.Extract(w - 1, 0, sh) if w < 64 else (z3.ZeroExt(w - 64, sh) if w > 64 else sh)
            return z3.Extract(8 * n - 1, 0, z3.LShR(v, sh * 8))
        if k == "cp":
            return self.load_log(e[3], e[4], add(e[5], sub(off, e[1])), n, ptr)
        if k == "set":
            b = e[3]
            return b if n == 1 else simp(z3.Concat(*[b] * n))
        if k == "hv":
            return self.load_base(e[3], r, off, n, ptr)
        if k == "fn":
            return e[3](self, off, n, ptr)
        raise EngineError(k)

    def load_base(self, b, r, off, n, ptr):
        if isinstance(b, Const):
            if isc(off):
                o = cval(off)
                c = b.cells.get(o)
                if c and c[0] == n:
                    v = c[1]
                    if isinstance(v, Ptr) and not ptr:
                        return ptr_to_int(self, v)
                    if ptr and not isinstance(v, Ptr):
                        return int_to_ptr(self, v)
                    return v
                if o + n > b.nbytes:
                    return fresh("oob", 8 * n)
                if ptr:
                    if all((o + i) in b.cells and isc(b.cells[o + i][1]) and cval(b.cells[o + i][1]) == 0 for i in range(n)):
                        return NULL
                    raise EngineError("pointer load from constant bytes of %s" % r)
                bs = []
                for i in range(n):
                    bs.append(const_byte(b, o + i))
                return simp(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
            if ptr:
                raise AmbiguousPtr(off, n, None, None)
            # symbolic index in a small constant table
            if n == 1 and b.nbytes <= 512:
                return table_byte(b, off)
            cs = [(o, c) for o, c in sorted(b.cells.items()) if c[0] == n and not isinstance(c[1], Ptr)]
            t = fresh("oob", 8 * n)
            for o, c in cs:
                t = z3.If(off == o, c[1], t)
            return t
        if ptr:
            if r.ptr_hook:
                p = r.ptr_hook(self, off)
                if p is not None:
                    return p
            raise EngineError("pointer of unknown provenance loaded from %s+%s" % (r, off))
        return b.ld(n, off)


def table_byte(b, off):
    """byte of a constant table at a symbolic offset, as an if-then-else over its maximal constant / consecutive runs"""
    if not hasattr(b, "runs"):
        vals = [const_byte(b, o) for o in range(b.nbytes)]
        if all(isc(v) for v in vals):
            vals = [cval(v) for v in vals]
            runs, i = [], 0
            while i < len(vals):
                best = None
                for k in (0, 1):
                    j = i
                    while j + 1 < len(vals) and vals[j + 1] == ((vals[j] + k) & 255):
                        j += 1
                    if best is None or j > best[0]:
                        best = (j, k)
                runs.append((i, best[0], vals[i], best[1]))
                i = best[0] + 1
            b.runs = runs
        else:
            b.runs = [(o, o, v, 0) for o, v in enumerate(vals)]
    t = None
    for lo, hi, v, k in reversed(b.runs):
        v = bv(v, 8) if isinstance(v, int) else v
        val = v + z3.Extract(7, 0, off - lo) if k else v
        t = val if t is None else z3.If(off == lo if lo == hi else z3.And(z3.UGE(off, lo), z3.ULE(off, hi)), val, t)
    return t


def const_byte(b, o):
    c = b.cells.get(o)
    if c and c[0] == 1:
        return c[1]
    for s in (2, 4, 8, 16):
        for k in range(s):
            c = b.cells.get(o - k)
            if c and c[0] > k and not isinstance(c[1], Ptr):
                return simp(z3.Extract(8 * k + 7, 8 * k, c[1]))
    return bv(0, 8)


def _compact(l, off, n):
    # remove a directly previous identical cell
    if l.e is not None and l.e[0] == "st" and l.e[2] == n and isc(l.e[1]) and cval(l.e[1]) == cval(off):
        return l.prev
    # walk over const cells only
    chain = []
    x = l
    c = 0
    while x.e is not None and x.e[0] == "st" and isc(x.e[1]) and c < 40:
        if x.e[2] == n and cval(x.e[1]) == cval(off):
            y = x.prev
            for e in reversed(chain):
                y = y.push(e)
            return y
        chain.append(x.e)
        x = x.prev
        c += 1
    return l


class AmbiguousPtr(EngineError):
    def __init__(self, off, n, eo, el):
        super().__init__("ambiguous pointer load")
        self.off, self.n, self.eo, self.el = off, n, eo, el


_p2i = {}


def ptr_to_int(st, p):
    if p.r is NULLR:
        return p.off
    for f in p.r.basefacts():
        if not any(f.eq(x) for x in st.pc):
            st.pc.append(f)
    _p2i[str(p.r.base)] = p.r
    return add(p.r.base, p.off)


def int_to_ptr(st, v):
    v = simp(v)
    if isc(v):
        return Ptr(NULLR, v)
    # look for a single region base inside a sum
    stack = [v]
    while stack:
        x = stack.pop()
        s = str(x) if x.num_args() == 0 else None
        if s in _p2i:
            return Ptr(_p2i[s], sub(v, x))
        if x.num_args() and x.decl().kind() == z3.Z3_OP_BADD:
            stack += x.children()
    raise EngineError("integer to pointer cast of unknown provenance: %s" % v)
