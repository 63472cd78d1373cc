"""Path-based symbolic execution of LLVM IR with contracts at calls and invariants at loops."""
import os
import re, struct, subprocess, time, itertools
import z3
from .irparse import *
from .sym import *


class Frame:
    _n = itertools.count()
    __slots__ = ("fn", "block", "prev", "idx", "env", "call", "id", "va", "allocs", "unr")

    def __init__(self, fn):
        self.fn, self.block, self.prev, self.idx = fn, fn.order[0], None, 0
        self.env = {}
        self.call = None
        self.id = next(Frame._n)
        self.va = []
        self.allocs = []
        self.unr = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.idx, f.call, f.id, f.va = self.fn, self.block, self.prev, self.idx, self.call, self.id, self.va
        f.env = dict(self.env)
        f.allocs = list(self.allocs)
        f.unr = dict(self.unr)
        return f


class Exc:
    def __init__(self, ty, ptr=None, info=""):
        self.ty, self.ptr, self.info = ty, ptr, info

    def __repr__(self):
        return "exception " + str(self.ty)


def demangle(names):
    p = subprocess.run(["llvm-cxxfilt-18" if False else "/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), text=True, capture_output=True)
    return dict(zip(names, p.stdout.split("\n")))


class NoBody(EngineError):
    def __init__(self, msg, sym):
        super().__init__(msg)
        self.sym = sym


class Program:
    def __init__(self, mods):
        self.mods = mods
        names = set()
        for m in mods:
            names |= set(m.fdefs) | set(m.fdecl)
            names |= {g for g in m.globals if g.startswith("_Z")}
        names = sorted(names)
        self.dem = demangle(names)
        self.bydem = {}
        for n in names:
            self.bydem.setdefault(self.dem[n], n)
        self._regions = {}
        self._fregions = {}
        self._ti = {}

    def find(self, name):
        for m in self.mods:
            if name in m.fdefs:
                return m.func(name)
        for m in self.mods:
            if name in m.globals:
                g = m.global_info(name)
                if g[4] == "alias":
                    return self.find(g[2].v)
        return None

    def mangled(self, dem):
        """mangled name of the single defined function whose demangled name matches exactly / by regex"""
        if dem in self.bydem:
            return self.bydem[dem]
        c = [n for d, n in self.bydem.items() if re.fullmatch(dem, d) and any(n in m.fdefs for m in self.mods)]
        if len(c) != 1:
            raise EngineError("function %r: %d candidates %s" % (dem, len(c), c[:4]))
        return c[0]

    def typeinfo_bases(self, ti):
        """direct bases of an RTTI object"""
        if ti in self._ti:
            return self._ti[ti]
        r = []
        for m in self.mods:
            if ti in m.globals:
                g = m.global_info(ti)
                if g[2] is not None and g[2].k == "agg":
                    for v in g[2].v[2:]:
                        if v.k == "global" and v.v.startswith("_ZTI"):
                            r.append(v.v)
                    break
        self._ti[ti] = r
        return r


STDEXC = {"_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
          "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
          "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
          "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12system_error": ["_ZTISt13runtime_error"],
          "_ZTISt11range_error": ["_ZTISt13runtime_error"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
          "_ZTISt8bad_cast": ["_ZTISt9exception"], "_ZTISt17bad_function_call": ["_ZTISt9exception"]}


def loops_of(fn):
    if fn.loops is not None:
        return fn.loops
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1]
        if t.op == "br":
            succ[b] = list(t.x)
        elif t.op == "switch":
            succ[b] = [t.x[0]] + [l for _, l in t.x[1]]
        elif t.op == "invoke":
            succ[b] = [t.x[1], t.x[2]]
        else:
            succ[b] = []
    pred = {b: [] for b in fn.order}
    for b, ss in succ.items():
        for s in ss:
            pred[s].append(b)
    # reverse postorder
    seen, order = set(), []
    stack = [(fn.order[0], iter(succ[fn.order[0]]))]
    seen.add(fn.order[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom.get(b, b) == b:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [p for p in pred[x] if p in idx]
    fn.loops = loops
    return loops


LOOPDBG = os.environ.get('VC_LOOP')
RETRY_UNTIL = 250      # processor seconds of a unit after which undecided obligations are not tried again


class Contract:
    """base class of function contracts / trusted models"""


class Cand:
    def __init__(self, name, fn, must=False):
        self.name, self.fn, self.must = name, fn, must


class LoopCtx:
    def __init__(self, ex, fn, dem, header, entry, phis):
        self.ex, self.fn, self.dem, self.header, self.entry, self.phis = ex, fn, dem, header, entry, phis


class Exec:
    def __init__(self, prog, handlers=None):
        self.p = prog
        self.handlers = {}       # resolved: mangled -> fn
        self.rules = []          # (regex or str, fn)
        self.trusted_used = {}
        self.contract_used = {}
        self.inlined = {}
        self.mute = 0
        self.obls = []           # results
        self.fail_fast = False
        self.under = ""          # function under verification
        self.loop_spec = None    # fn(LoopCtx) -> (cands, variants) or None for auto
        self.unroll_limit = 64
        self.global_hooks = {}
        self.mul_hook = None
        self.on_store = None         # (st, pointer, size, atomic, location): observer of stores
        self.check_mem = True
        self.typeids = {}
        self.max_paths = 4000
        self.npaths = 0
        self.deadline = None
        self.rounds = 2
        self.quick_timeout = 5000
        self.no_inline = set()
        for h in handlers or []:
            self.rules += h

    # ---------------------------------------------------------- handlers
    def handler(self, name):
        if name in self.handlers:
            return self.handlers[name]
        d = self.p.dem.get(name, name)
        r = None
        for pat, fn in reversed(self.rules):
            if isinstance(pat, str):
                if pat == d or pat == name:
                    r = fn
                    break
            elif pat.fullmatch(d):
                r = fn
                break
        self.handlers[name] = r
        return r

    # ---------------------------------------------------------- obligations
    def assert_(self, st, goal, name, loc=None, assume=True):
        """prove goal in st; record the obligation; afterwards assume it"""
        goals = goal if isinstance(goal, (list, tuple)) else [goal]
        ok_all = True
        for g in goals:
            if self.mute:
                ok = True
            else:
                ok = self.prove(st, g, name, loc)
            ok_all &= ok
            if assume:
                st.assume(g)
        return ok_all

    def prove(self, st, g, name, loc=None, record=True, quick=False):
        t0 = time.time()
        extra = []
        raw = g
        if isinstance(g, Forall):
            if g.split is not None:
                f0 = g
                at = g.body(g.split)
                if not self.prove(st, mk_and(*at) if isinstance(at, (list, tuple)) else at, name, loc, record, quick):
                    return False
                g = Forall(f0.sorts, lambda q: z3.Implies(q != f0.split, mk_and(*f0.body(q)) if isinstance(f0.body(q), (list, tuple)) else f0.body(q)),
                           f0.trig, f0.name)
            vs, g = g.skolem()
            if isinstance(g, (list, tuple)):
                g = mk_and(*g)
        if g is True:
            g = z3.BoolVal(True)
        if g is False:
            g = z3.BoolVal(False)
        g = simp(g)
        rec = {"name": name, "fn": self.under, "loc": loc, "ok": True, "by": "trivial", "t": 0.0}
        if not z3.is_true(g):
            ground = list(st.pc) + [z3.Not(g)]
            ok = False
            by = "z3"
            model = None
            reason = ""
            rs = [0] + ([self.rounds] if not quick else [self.rounds]) if st.facts else [0]
            if st.facts and not quick:
                rs.append(self.rounds + 1)
            for rd in rs:
                a = ground + (instantiate(ground, st.facts, rd) if rd else [])
                r, s = z3check(a, TIMEOUT if not quick else min(TIMEOUT, self.quick_timeout))
                if r == z3.unsat:
                    ok = True
                    break
                reason = "sat" if r == z3.sat else s.reason_unknown()
                model = s.model() if r == z3.sat else None
            if not ok and not quick and model is None:
                r = cvc5check(a)
                if r == "unsat":
                    ok, by = True, "cvc5"
                elif record and time.process_time() < RETRY_UNTIL:
                    r, s = z3check(a, 3 * TIMEOUT, seed=11)
                    ok = r == z3.unsat
                    if r == z3.sat:
                        reason, model = "sat", s.model()
            self.last_reason = reason
            if LOOPDBG == "2" and not record and reason == "sat":
                self.last_reason += str(self.model_text(model))
            rec["ok"], rec["by"] = ok, by
            if not ok:
                rec["reason"] = reason
                if record:
                    rec["goal"] = str(g)[:3000]
                    rec["model"] = self.model_text(model)
                    rec["trace"] = list(st.trace[-60:])
        rec["t"] = time.time() - t0
        if record:
            self.obls.append(rec)
            STATS.add(rec["by"] if rec["ok"] else "failed")
        return rec["ok"]

    def model_text(self, m):
        if m is None:
            return None
        out = {}
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith("addr_"):
                out[d.name()] = str(m[d])
        return out

    # ---------------------------------------------------------- globals
    def func_ptr(self, name):
        if name not in self.p._fregions:
            r = Region("fn:" + name, 0, kind="func", func=name)
            self.p._fregions[name] = r
        return Ptr(self.p._fregions[name])

    def global_ptr(self, name):
        if name in self.p._regions:
            return Ptr(self.p._regions[name])
        if any(name in m.fdefs for m in self.p.mods) or (any(name in m.fdecl for m in self.p.mods)):
            return self.func_ptr(name)
        for m in self.p.mods:
            if name in m.globals and m.global_info(name)[2] is not None:
                break
        else:
            for m in self.p.mods:
                if name in m.globals:
                    break
            else:
                raise EngineError("unknown global " + name)
        const, ty, init, tl, kind = m.global_info(name)
        if kind == "alias":
            return self.global_ptr(init.v)
        try:
            size = m.sizeof(ty)
        except KeyError:
            size = None
        r = Region("@" + self.p.dem.get(name, name), size, kind="global")
        r.readonly = const
        r.tag["gname"] = name
        self.p._regions[name] = r
        if (const or name in self.global_hooks.get("use_init", ())) and init is not None:
            cells = {}
            self.init_cells(m, ty, init, 0, cells)
            r.tag["init"] = Const(cells, size)
        h = self.global_hooks.get(name) or self.global_hooks.get(self.p.dem.get(name, name))
        if h:
            h(self, r)
        elif name in ("stderr", "stdout", "stdin"):
            r.ptr_hook = lambda st, off, f=Region("FILE", None): Ptr(f)
        return Ptr(r)

    def init_cells(self, m, ty, v, off, cells):
        ty = m.resolve(ty)
        if v.k == "cstr":
            for i, b in enumerate(v.v):
                cells[off + i] = (1, bv(b, 8))
        elif v.k in ("zero", "undef"):
            if ty.k in ("int", "ptr", "float", "double"):
                n = m.sizeof(ty)
                cells[off] = (n, NULL if ty.k == "ptr" else bv(0, 8 * n))
            elif ty.k == "array":
                s = m.sizeof(ty.elems[0])
                if ty.n * s <= 4096:
                    for i in range(ty.n):
                        self.init_cells(m, ty.elems[0], Val("zero", None, ty.elems[0]), off + i * s, cells)
                else:
                    pass
            elif ty.k == "struct":
                for i, e in enumerate(ty.elems):
                    o, _ = m.field_off(ty, i)
                    self.init_cells(m, e, Val("zero", None, e), off + o, cells)
        elif v.k == "agg":
            for i, e in enumerate(v.v):
                o, et = m.field_off(ty, i)
                self.init_cells(m, et, e, off + o, cells)
        else:
            n = m.sizeof(ty)
            x = self.const(m, v)
            if isinstance(x, z3.BoolRef):
                x = z3.If(x, bv(1, 8), bv(0, 8))
            cells[off] = (n, x)

    # ---------------------------------------------------------- operand evaluation
    def const(self, m, v):
        k = v.k
        if k == "int":
            if v.ty.n == 1:
                return z3.BoolVal(bool(v.v & 1))
            return bv(v.v, v.ty.n)
        if k == "null":
            return NULL
        if k == "global":
            return self.global_ptr(v.v)
        if k == "fp":
            return fpconst(v.v, v.ty)
        if k == "undef":
            return self.undef(m, v.ty)
        if k == "zero":
            t = m.resolve(v.ty)
            if t.k == "int":
                return bv(0, t.n) if t.n > 1 else z3.BoolVal(False)
            if t.k == "ptr":
                return NULL
            if t.k in ("float", "double"):
                return bv(0, 32 if t.k == "float" else 64)
            if t.k in ("struct", "array"):
                n = len(t.elems) if t.k == "struct" else t.n
                return tuple(self.const(m, Val("zero", None, m.field_off(t, i)[1])) for i in range(n))
            raise EngineError("zero of %r" % t)
        if k == "agg":
            return tuple(self.const(m, e) for e in v.v)
        if k == "cstr":
            return tuple(bv(b, 8) for b in v.v)
        if k == "expr":
            op = v.v[0]
            if op == "gep":
                args = [self.const(m, a) for a in v.v[2]]
                return self.gep(m, v.v[1], args)
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                return self.const(m, v.v[1])
            raise EngineError("const expr " + op)
        if k == "meta":
            return None
        raise EngineError("operand " + k)

    def undef(self, m, ty):
        ty = m.resolve(ty)
        if ty.k == "int":
            return fresh("undef", ty.n) if ty.n > 1 else freshb("undef")
        if ty.k == "float":
            return fresh("undef", 32)
        if ty.k == "double":
            return fresh("undef", 64)
        if ty.k == "ptr":
            return NULL
        if ty.k == "struct":
            return tuple(self.undef(m, e) for e in ty.elems)
        if ty.k == "array":
            return tuple(self.undef(m, ty.elems[0]) for _ in range(ty.n))
        raise EngineError("undef %r" % ty)

    def ev(self, st, fr, v):
        if v.k == "local":
            return fr.env[v.v]
        return self.const(fr.fn.mod, v)

    def gep(self, m, ty, args):
        p = args[0]
        if not isinstance(p, Ptr):
            raise EngineError("gep base")
        off = p.off
        idx = args[1]
        off = add(off, mulc(sx64(idx), m.sizeof(ty)))
        cur = ty
        for i in args[2:]:
            cur = m.resolve(cur)
            if cur.k == "struct":
                o, cur = m.field_off(cur, cval(i))
                off = add(off, bv(o))
            else:
                e = cur.elems[0]
                off = add(off, mulc(sx64(i), m.sizeof(e)))
                cur = e
        return Ptr(p.r, off)

    # ---------------------------------------------------------- typed memory access
    def access(self, st, p, n, what, loc):
        if not isinstance(p, Ptr):
            raise EngineError("access through non-pointer")
        if p.r.kind == "null":
            self.assert_(st, z3.BoolVal(False), "no null dereference (%s)" % what, loc)
            raise PathEnd()
        if p.r in st.freed:
            self.assert_(st, z3.BoolVal(False), "no access to released memory (%s)" % what, loc)
            raise PathEnd()
        if what == "store" and p.r.readonly:
            self.assert_(st, z3.BoolVal(False), "no write to constant memory", loc)
        if self.check_mem and p.r.size is not None:
            if isinstance(n, int):
                n = bv(n)
            g = z3.And(z3.ULE(n, p.r.size), z3.ULE(p.off, p.r.size - n))
            g = simp(g)
            if not z3.is_true(g):
                self.assert_(st, g, "memory access in bounds (%s of %s)" % (what, p.r.name), loc)

    def load(self, st, m, ty, p, loc=None):
        ty = m.resolve(ty)
        if ty.k in ("struct", "array"):
            n = len(ty.elems) if ty.k == "struct" else ty.n
            out = []
            for i in range(n):
                o, e = m.field_off(ty, i)
                out.append(self.load(st, m, e, p + o, loc))
            return tuple(out)
        n = m.sizeof(ty)
        if isinstance(p, Ptr) and p.r.kind == "func":
            raise EngineError("load from function")
        self.access(st, p, n, "load", loc)
        v = st.rd(p.r, p.off, n, ty.k == "ptr")
        if ty.k == "int" and ty.n == 1:
            return z3.Extract(0, 0, v) == 1
        if ty.k == "int" and ty.n < 8 * n:
            return simp(z3.Extract(ty.n - 1, 0, v))
        return v

    def store(self, st, m, ty, p, v, loc=None, atomic=False):
        ty = m.resolve(ty)
        if ty.k in ("struct", "array"):
            n = len(ty.elems) if ty.k == "struct" else ty.n
            for i in range(n):
                o, e = m.field_off(ty, i)
                self.store(st, m, e, p + o, v[i], loc)
            return
        n = m.sizeof(ty)
        self.access(st, p, n, "store", loc)
        if self.on_store:
            self.on_store(st, p, n, atomic, loc)
        if ty.k == "int" and ty.n == 1:
            v = z3.If(v, bv(1, 8), bv(0, 8)) if z3.is_bool(v) else v
        elif ty.k == "int" and ty.n < 8 * n:
            v = z3.ZeroExt(8 * n - ty.n, v)
        st.wr(p.r, p.off, n, v)

    # ---------------------------------------------------------- running
    def call(self, st, name, args):
        """run function `name` from state st to completion; list of (kind, st, value)"""
        fn = self.p.find(name)
        if fn is None:
            raise NoBody("no definition of " + name, name)
        base = len(st.frames)
        self.push(st, fn, args, None)
        return self.run([st], base + 1)

    def push(self, st, fn, args, callins):
        for f in st.frames:
            if f.fn is fn and callins is not None:
                if sum(1 for g in st.frames if g.fn is fn) > 3:
                    raise EngineError("unbounded recursion through %s" % self.p.dem.get(fn.name, fn.name))
        f = Frame(fn)
        f.call = callins
        for (t, n), a in zip(fn.params, args):
            f.env[n] = a
        f.va = list(args[len(fn.params):])
        st.frames.append(f)
        self.inlined[fn.name] = self.inlined.get(fn.name, 0) + 1

    def run(self, states, base, loop=None):
        """loop = (depth, header, blocks, frameid); outcomes ret / exc / back / exit"""
        work = list(states)
        out = []
        while work:
            st = work.pop()
            if self.deadline and time.process_time() > self.deadline:
                raise EngineError("time budget exhausted")
            try:
                if isinstance(st, Done):
                    r = st.o
                elif isinstance(st, Pending):
                    s = st.s
                    r = self.apply1(s, st.v, base, loop, work)
                    if r is None:
                        r = self.step_path(s, base, loop, work)
                    elif r == "stop":
                        r = None
                else:
                    r = self.step_path(st, base, loop, work)
            except PathEnd:
                continue
            if r is not None:
                out.append(r)
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise EngineError("path limit")
        return out

    def step_path(self, st, base, loop, work):
        """execute st until it forks (alternatives pushed on work), ends or leaves the loop"""
        while True:
            if loop is not None and len(st.frames) < loop[0]:
                return ("exit", st, None)
            if len(st.frames) < base:
                raise EngineError("frame underflow")
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            op = ins.op
            try:
                r = self.step(st, fr, ins, base, loop, work)
            except AmbiguousPtr as e:
                alts = self.split_ambiguous(st, e)
                if not alts:
                    raise
                work += alts
                return None
            if r is None:
                continue
            if r == "stop":
                return None
            return r

    def split_ambiguous(self, st, e):
        if e.eo is None:
            return None
        eq = e.off == e.eo
        disj = z3.And(z3.UGE(e.off - e.eo, e.el), z3.ULE(e.off - e.eo, bv(0) - bv(e.n)))
        out = []
        if not st.entails(z3.Or(eq, disj)):
            return None
        for c in (eq, disj):
            if st.feasible(c):
                s = st.fork()
                s.assume(c)
                out.append(s)
        return out

    def goto(self, st, fr, target, base, loop, work):
        """transfer control; returns None to continue, or an outcome"""
        prev = fr.block
        ls = loops_of(fr.fn)
        depth = len(st.frames)
        if loop is not None and depth == loop[0] and fr.id == loop[3]:
            if target == loop[1]:
                fr.prev, fr.block, fr.idx = prev, target, 0
                return ("back", st, None)
            if target not in loop[2]:
                st.jump = target
                return ("exit", st, None)
        if target in ls and prev not in ls[target]:
            fr.prev = prev
            outs = self.do_loop(st, fr, target, ls[target], base, loop, work)
            if outs is None:
                return None
            for o in outs:
                work.append(o)
            return "stop"
        if target in ls:
            fr.unr[target] = fr.unr.get(target, 0) + 1
            if fr.unr[target] > self.unroll_limit:
                raise EngineError("loop unrolling limit in %s" % self.p.dem.get(fr.fn.name, fr.fn.name))
        self.enter(st, fr, prev, target)
        return None

    def enter(self, st, fr, prev, target):
        fr.prev, fr.block = prev, target
        blk = fr.fn.blocks[target]
        i = 0
        new = {}
        while blk[i].op == "phi":
            for v, b in blk[i].x:
                if b == prev:
                    new[blk[i].dst] = self.ev(st, fr, v)
                    break
            else:
                raise EngineError("phi without incoming")
            i += 1
        fr.env.update(new)
        fr.idx = i

    # ---------------------------------------------------------- loops
    def phi_in(self, st, fr, header, prev):
        out = {}
        for ins in fr.fn.blocks[header]:
            if ins.op != "phi":
                break
            for v, b in ins.x:
                if b == prev:
                    out[ins.dst] = self.ev(st, fr, v)
        return out

    def do_loop(self, st, fr, header, blocks, base, outer, work):
        dem = self.p.dem.get(fr.fn.name, fr.fn.name)
        phis = self.phi_in(st, fr, header, fr.block)
        phis["#it"] = bv(0)
        ctx = LoopCtx(self, fr.fn, dem, header, st, phis)
        spec = self.loop_spec(ctx) if self.loop_spec else None
        mode = "auto"
        if spec == "unroll":
            mode = "unroll"
        elif spec is not None:
            mode = "cut"
        if mode != "cut":
            if mode == "unroll" or self.const_trip(st, fr, header, blocks, base):
                fr.unr[header] = 0
                self.enter(st, fr, fr.block, header)
                return None
            if spec is None:
                # try a complete unrolling with feasibility pruning, else a cut with no invariants
                fr.unr[header] = 0
                self.enter(st, fr, fr.block, header)
                return None
        return self.cut_loop(st, fr, header, blocks, base, outer, ctx, spec)

    def const_trip(self, st, fr, header, blocks, base):
        return False

    def cut_loop(self, st, fr, header, blocks, base, outer, ctx, spec):
        cands, variants = spec.get("cands", []), spec.get("variants", [])
        opts = spec
        depth = len(st.frames)
        entry_prev = fr.block
        entry = st
        phin = [i for i in fr.fn.blocks[header] if i.op == "phi"]
        ctx.phis.setdefault("#it", bv(0))
        phis0 = dict(ctx.phis)
        aff = None               # phi -> constant step per iteration
        # alternatives for pointer phis: set of regions
        alts = {i.dst: [phis0[i.dst].r] for i in phin if i.ty.k == "ptr"}
        written = {}
        cellptr = {}
        loc = "%s loop" % ctx.dem
        # candidates on entry
        live = []
        for c in cands:
            f = c.fn(entry, phis0)
            ok = f is None or self.quick_prove(entry, f)
            if c.must and not ok:
                self.assert_(entry, f, "loop invariant '%s' holds on entry" % c.name, loc)
                ok = True
            if ok:
                live.append(c)
        ghostw = opts.get("ghosts", [])

        def header_states(live):
            res = []
            keys = list(alts)
            for combo in itertools.product(*[alts[k] for k in keys]):
                s = entry.fork()
                f = s.frames[-1]
                hv = {"#it": fresh("h_it", 64)}
                for i in phin:
                    if aff and i.dst in aff:
                        p0, k = phis0[i.dst], hv["#it"]
                        if i.ty.k == "ptr":
                            hv[i.dst] = Ptr(p0.r, simp(p0.off + bv(aff[i.dst]) * k))
                        else:
                            kk = k if i.ty.n == 64 else z3.Extract(i.ty.n - 1, 0, k) if i.ty.n < 64 else z3.ZeroExt(i.ty.n - 64, k)
                            hv[i.dst] = simp(p0 + bv(aff[i.dst], i.ty.n) * kk)
                    elif i.ty.k == "ptr":
                        r = combo[keys.index(i.dst)]
                        hv[i.dst] = NULL if r is NULLR else Ptr(r, fresh("h_" + i.dst, 64))
                    elif i.ty.k == "int" and i.ty.n == 1:
                        hv[i.dst] = freshb("h_" + i.dst)
                    elif i.ty.k == "int":
                        hv[i.dst] = fresh("h_" + i.dst, i.ty.n)
                    elif i.ty.k in ("float", "double"):
                        hv[i.dst] = fresh("h_" + i.dst, 32 if i.ty.k == "float" else 64)
                    else:
                        raise EngineError("phi type")
                for (r, key), (off, n) in written.items():
                    if key is None:
                        if opts.get("havoc_region"):
                            opts["havoc_region"](self, s, r)
                        else:
                            s.havoc(r)
                    else:
                        if (r, key, n) in cellptr:
                            tgt = cellptr[(r, key, n)]
                            s.wr(r, bv(key), n, NULL if tgt is NULLR else Ptr(tgt, fresh("h_cell", 64)))
                        else:
                            s.wr(r, bv(key), n, fresh("h_cell", 8 * n))
                for g in ghostw:
                    g(self, s)
                for k2, fnh in opts.get("havoc_ghost", {}).items():
                    s.ghost[k2] = fnh(self, s)
                f.env.update({k: v for k, v in hv.items() if k != "#it"})
                f.prev, f.block, f.idx = None, header, len(phin)
                for c in live:
                    x = c.fn(s, hv)
                    if x is not None:
                        s.assume(x)
                for h in opts.get("hints", []):
                    s.assume(h(s, hv))      # uninterpreted marker terms only
                s.writes = []
                if s.feasible():
                    res.append((s, hv))
            return res

        def body(hs):
            outs = []
            for s, hv in hs:
                s2 = s.fork()
                s2.writes = []
                lp = (depth, header, blocks, s2.frames[-1].id)
                for o in self.run([s2], min(base, depth), lp):
                    outs.append((o, hv, s))
            return outs

        def affine(outs):
            steps = {}
            for (kind, s, _), hv, h in outs:
                if kind != "back":
                    continue
                pv = self.phi_in(s, s.frames[-1], header, s.frames[-1].prev)
                for i in phin:
                    a, b = hv[i.dst], pv[i.dst]
                    c = None
                    if i.ty.k == "ptr":
                        if a.r is b.r and a.r is not NULLR and len(alts[i.dst]) == 1:
                            c = simp(b.off - a.off)
                    elif i.ty.k == "int" and i.ty.n > 1:
                        c = simp(b - a)
                    c = cval(c) if c is not None and isc(c) else None
                    if i.dst in steps and steps[i.dst] != c:
                        c = None
                    steps[i.dst] = c
            return {k: c for k, c in steps.items() if c is not None and (aff is None or k in aff)}

        rid0 = next(Region._n)
        self.mute += 1
        try:
            # write set and pointer alternatives to a fixpoint (no invariants dropped yet: use weakest = none)
            for it in range(12):
                changed = False
                outs = body(header_states(live))
                for (kind, s, _), hv, h in outs:
                    if kind != "back":
                        continue
                    for (r, off, n) in s.writes or []:
                        if r.kind in ("stack", "heap") and r.id > rid0:
                            continue
                        if off is not None and isc(off) and isinstance(n, int):
                            key = (r, cval(off))
                        else:
                            key = (r, None)
                        if key not in written and (r, None) not in written:
                            if key[1] is None:
                                for k2 in [k for k in written if k[0] is r]:
                                    del written[k2]
                                written[key] = (None, None)
                            else:
                                written[key] = (off, n)
                                try:
                                    v0 = entry.rd(r, off, n, False) if not self.is_ptr_cell(entry, r, off, n) else None
                                except EngineError:
                                    v0 = 0
                                if v0 is None:
                                    cellptr[(r, cval(off), n)] = entry.rd(r, off, n, True).r
                            changed = True
                        elif key in written and key[1] is not None and isinstance(n, int) and written[key][1] < n:
                            written[key] = (off, n)
                            changed = True
                    if kind == "back":
                        pv = self.phi_in(s, s.frames[-1], header, s.frames[-1].prev)
                        for i in phin:
                            if i.ty.k == "ptr":
                                r = pv[i.dst].r
                                if r not in alts[i.dst]:
                                    alts[i.dst].append(r)
                                    changed = True
                        for (r, key, n) in list(cellptr):
                            p = s.rd(r, bv(key), n, True)
                            if p.r is not cellptr[(r, key, n)]:
                                raise EngineError("pointer cell changes region in loop (%s)" % r)
                # affine induction variables: the same constant step on every back edge
                na = affine(outs)
                if na != aff:
                    aff = na
                    changed = True
                    continue
                # Houdini step
                drop = set()
                for (kind, s, _), hv, h in outs:
                    if kind != "back":
                        continue
                    pv = self.phi_in(s, s.frames[-1], header, s.frames[-1].prev)
                    pv["#it"] = simp(hv["#it"] + 1)
                    for c in live:
                        if c.name in drop or c.must:
                            continue
                        f = c.fn(s, pv)
                        if f is not None and not self.quick_prove(s, f):
                            drop.add(c.name)
                            if LOOPDBG:
                                print("drop it%d %s: %s (%.1fs)" % (it, loc, c.name, 0), self.last_reason, flush=True)
                if drop:
                    live = [c for c in live if c.name not in drop]
                    changed = True
                if not changed:
                    break
            else:
                raise EngineError("loop analysis does not converge")
        finally:
            self.mute -= 1
        # final pass: obligations are recorded
        hs = header_states(live)
        outs = body(hs)
        res = []
        fin = []
        vlive = list(variants)
        nback = 0
        if affine(outs) != aff:
            raise EngineError("induction variables of a loop are not stable")
        for (kind, s, val), hv, h in outs:
            if kind == "back":
                nback += 1
                pv = self.phi_in(s, s.frames[-1], header, s.frames[-1].prev)
                pv["#it"] = simp(hv["#it"] + 1)
                for c in live:
                    f = c.fn(s, pv)
                    if f is not None:
                        self.assert_(s, f, "loop invariant '%s' preserved" % c.name, loc, assume=False)
                if variants:
                    keep = []
                    for v in vlive:
                        a, b = v.fn(h, hv), v.fn(s, pv)
                        if a is not None and b is not None and self.quick_prove(s, z3.ULT(b, a)):
                            keep.append(v)
                    vlive = keep
            elif kind == "exit":
                res.append(s)
            else:
                fin.append(Done((kind, s, val)))
        if variants and nback:
            if not self.mute:
                self.obls.append({"name": "loop terminates (a variant decreases)", "fn": self.under, "loc": loc, "ok": bool(vlive),
                                  "by": "z3", "t": 0.0, "reason": "" if vlive else "no candidate variant decreases",
                                  "goal": ",".join(v.name for v in variants), "model": None, "trace": []})
                STATS.add("z3" if vlive else "failed")
        for s in res + [d.o[1] for d in fin]:
            # restore enclosing write tracking
            if entry.writes is not None:
                w = list(entry.writes)
                for (r, key), (off, n) in written.items():
                    w.append((r, bv(key) if key is not None else None, n))
                s.writes = w + (s.writes or [])
            else:
                s.writes = None
        # continue exits in the caller's worklist (they were positioned inside run's loop context)
        return res + fin

    def is_ptr_cell(self, st, r, off, n):
        if n != 8:
            return False
        l = st.log(r)
        while l.e is not None:
            e = l.e
            if e[0] == "st" and isc(e[1]) and cval(e[1]) == cval(off) and e[2] == n:
                return isinstance(e[3], Ptr)
            if e[0] != "st":
                return False
            l = l.prev
        return False

    def quick_prove(self, st, f):
        fs = f if isinstance(f, (list, tuple)) else [f]
        return all(self.prove(st, x, "cand", record=False, quick=True) for x in fs)

    # ---------------------------------------------------------- exceptions
    def unwind(self, st, exc, base, loop, work):
        """called with the throwing call's frame on top; walks frames"""
        while True:
            if len(st.frames) < base:
                return ("exc", st, exc)
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            if ins.op == "invoke":
                lp = fr.fn.blocks[ins.x[2]]
                i = 0
                while lp[i].op == "phi":
                    i += 1
                cleanup, clauses = lp[i].x
                sel = None
                for kind, v in clauses:
                    if kind == "catch":
                        if v.k == "null":
                            sel = self.typeid(None)
                            break
                        if self.exc_matches(exc, v.v):
                            sel = self.typeid(v.v)
                            break
                    else:
                        raise EngineError("exception filter")
                if sel is None and cleanup:
                    sel = 0
                if sel is not None:
                    st.ghost["exc_sel"] = sel
                    st.ghost["exc_cur"] = exc
                    r = self.goto(st, fr, ins.x[2], base, loop, work)
                    return r
            # pop frame
            self.pop(st)
            if len(st.frames) < base:
                return ("exc", st, exc)
            if loop is not None and len(st.frames) < loop[0]:
                # leave the loop with a pending exception
                st.exc = exc
                return ("exit", st, None)

    def pop(self, st):
        f = st.frames.pop()
        for r in f.allocs:
            st.mem.pop(r, None)

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def exc_matches(self, exc, ti):
        seen = set()
        todo = [exc.ty]
        while todo:
            t = todo.pop()
            if t == ti:
                return True
            if t in seen:
                continue
            seen.add(t)
            todo += STDEXC.get(t, []) + self.p.typeinfo_bases(t)
        return False

    # ---------------------------------------------------------- instructions
    def step(self, st, fr, ins, base, loop, work):
        if st.exc is not None:
            e, st.exc = st.exc, None
            return self.unwind(st, e, base, loop, work)
        if st.jump is not None:
            t, st.jump = st.jump, None
            return self.goto(st, fr, t, base, loop, work)
        op = ins.op
        m = fr.fn.mod
        ev = lambda v: self.ev(st, fr, v)
        if op in BINOPS:
            fr.env[ins.dst] = self.binop(op, ev(ins.a[0]), ev(ins.a[1]), st)
        elif op == "icmp":
            fr.env[ins.dst] = self.icmp(st, ins.x, ev(ins.a[0]), ev(ins.a[1]))
        elif op == "load":
            fr.env[ins.dst] = self.load(st, m, ins.ty, ev(ins.a[0]), ins.dbg)
        elif op == "store":
            self.store(st, m, ins.ty, ev(ins.a[1]), ev(ins.a[0]), ins.dbg)
        elif op == "gep":
            fr.env[ins.dst] = self.gep(m, ins.ty, [ev(a) for a in ins.a])
        elif op == "alloca":
            n = m.sizeof(ins.ty)
            if ins.a:
                c = ev(ins.a[0])
                sz = simp(zx64(c) * n)
            else:
                sz = n
            r = Region("%s.%s" % (self.p.dem.get(fr.fn.name, fr.fn.name).split("(")[0][-40:], ins.dst), sz, kind="stack")
            fr.allocs.append(r)
            fr.env[ins.dst] = Ptr(r)
        elif op in ("zext", "sext", "trunc"):
            fr.env[ins.dst] = self.cast(op, ev(ins.a[0]), ins.ty)
        elif op == "ptrtoint":
            p = ev(ins.a[0])
            v = ptr_to_int(st, p)
            fr.env[ins.dst] = v if ins.ty.n == 64 else z3.Extract(ins.ty.n - 1, 0, v)
        elif op == "inttoptr":
            fr.env[ins.dst] = int_to_ptr(st, ev(ins.a[0]))
        elif op in ("bitcast", "freeze", "addrspacecast"):
            fr.env[ins.dst] = ev(ins.a[0])
        elif op == "select":
            c = ev(ins.a[0])
            a, b = ev(ins.a[1]), ev(ins.a[2])
            c = simp(c)
            if z3.is_true(c):
                fr.env[ins.dst] = a
            elif z3.is_false(c):
                fr.env[ins.dst] = b
            elif isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, tuple):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                    fr.env[ins.dst] = Ptr(a.r, simp(z3.If(c, a.off, b.off)))
                else:
                    s2 = st.fork()
                    s2.assume(z3.Not(c))
                    s2.frames[-1].env[ins.dst] = b
                    s2.frames[-1].idx += 1
                    if s2.feasible():
                        work.append(s2)
                    st.assume(c)
                    fr.env[ins.dst] = a
                    if not st.feasible():
                        raise PathEnd()
            else:
                fr.env[ins.dst] = simp(z3.If(c, a, b))
        elif op == "br":
            if not ins.a:
                return self.goto(st, fr, ins.x[0], base, loop, work)
            c = simp(ev(ins.a[0]))
            if z3.is_true(c):
                return self.goto(st, fr, ins.x[0], base, loop, work)
            if z3.is_false(c):
                return self.goto(st, fr, ins.x[1], base, loop, work)
            return self.branch(st, fr, [(c, ins.x[0]), (z3.Not(c), ins.x[1])], base, loop, work, ins)
        elif op == "switch":
            v = ev(ins.a[0])
            d, cases = ins.x
            if isc(v):
                for cv, l in cases:
                    if cval(self.const(m, cv)) == cval(v):
                        return self.goto(st, fr, l, base, loop, work)
                return self.goto(st, fr, d, base, loop, work)
            bl = {}
            rest = []
            for cv, l in cases:
                c = v == self.const(m, cv)
                bl.setdefault(l, []).append(c)
                rest.append(z3.Not(c))
            alts = [(z3.Or(*cs) if len(cs) > 1 else cs[0], l) for l, cs in bl.items() if l != d]
            dc = [z3.And(*rest)] if d not in bl else [z3.Or(z3.And(*rest), *bl[d])]
            alts.append((dc[0], d))
            return self.branch(st, fr, alts, base, loop, work, ins)
        elif op == "ret":
            v = ev(ins.a[0]) if ins.a else None
            self.pop(st)
            if len(st.frames) < base:
                return ("ret", st, v)
            self.ret_to(st, v)
            cf = st.frames[-1]
            ci = cf.fn.blocks[cf.block][cf.idx]
            if loop is not None and len(st.frames) < loop[0]:
                # returned out of the function that contains the loop: finish the call transfer first
                if ci.op == "invoke":
                    self.finish_call_simple(st)
                else:
                    cf.idx += 1
                return ("exit", st, None)
            return self.finish_call(st, base, loop, work)
        elif op in ("call", "invoke"):
            return self.do_call(st, fr, ins, base, loop, work)
        elif op == "landingpad":
            exc = st.ghost.get("exc_cur")
            fr.env[ins.dst] = (exc.ptr or Ptr(Region("exc", None)), bv(st.ghost["exc_sel"], 32))
            st.ghost["lp_exc"] = exc
            st.ghost.setdefault("excmap", {})
            st.ghost["excmap"] = dict(st.ghost["excmap"])
            st.ghost["excmap"][fr.env[ins.dst][0].r] = exc
        elif op == "resume":
            v = ev(ins.a[0])
            exc = st.ghost.get("excmap", {}).get(v[0].r)
            if exc is None:
                raise EngineError("resume of unknown exception")
            self.pop(st)
            if len(st.frames) < base:
                return ("exc", st, exc)
            if loop is not None and len(st.frames) < loop[0]:
                st.exc = exc
                return ("exit", st, None)
            return self.unwind(st, exc, base, loop, work)
        elif op == "extractvalue":
            v = ev(ins.a[0])
            for i in ins.x:
                v = v[i]
            fr.env[ins.dst] = v
        elif op == "insertvalue":
            v = ev(ins.a[0])
            fr.env[ins.dst] = tins(v, ins.x, ev(ins.a[1]))
        elif op == "unreachable":
            self.assert_(st, z3.BoolVal(False), "unreachable code is not reached", ins.dbg)
            raise PathEnd()
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            w = 32 if ins.ty.k == "float" else 64
            fr.env[ins.dst] = fpop(op + str(w), w, ev(ins.a[0]), ev(ins.a[1]))
        elif op == "fneg":
            w = 32 if ins.ty.k == "float" else 64
            fr.env[ins.dst] = ev(ins.a[0]) ^ bv(1 << (w - 1), w)
        elif op == "fcmp":
            w = 32 if ins.ty.k == "float" else 64
            fr.env[ins.dst] = fpcmp(ins.x, w, ev(ins.a[0]), ev(ins.a[1]))
        elif op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            fr.env[ins.dst] = fpcast(op, ev(ins.a[0]), ins.a[0].ty, ins.ty)
        elif op == "atomicrmw":
            p = ev(ins.a[0])
            v = ev(ins.a[1])
            o = self.load(st, m, ins.ty, p, ins.dbg)
            n = {"add": lambda: o + v, "sub": lambda: o - v, "xchg": lambda: v, "or": lambda: o | v, "and": lambda: o & v}[ins.x]()
            self.store(st, m, ins.ty, p, n, ins.dbg, True)
            fr.env[ins.dst] = o
        elif op == "cmpxchg":
            p, c, v = (ev(a) for a in ins.a)
            o = self.load(st, m, ins.a[1].ty, p, ins.dbg)
            eq = o == c
            self.store(st, m, ins.a[1].ty, p, z3.If(eq, v, o), ins.dbg, True)
            fr.env[ins.dst] = (o, eq)
        else:
            raise EngineError("instruction " + op + str(ins.x))
        fr.idx += 1
        return None

    def branch(self, st, fr, alts, base, loop, work, ins):
        feas = []
        for c, l in alts:
            c = simp(c)
            if z3.is_false(c):
                continue
            if st.feasible(c):
                feas.append((c, l))
        if not feas:
            raise PathEnd()
        res = None
        states = [st] + [st.fork() for _ in feas[1:]]
        outs = []
        for s, (c, l) in zip(states, feas):
            s.assume(c)
            if len(feas) > 1:
                s.trace.append("%s:%s %s" % (self.p.dem.get(fr.fn.name, fr.fn.name).split("(")[0][-40:], ins.dbg, str(c)[:100].replace("\n", " ")))
        if len(feas) == 1:
            return self.goto(st, st.frames[-1], feas[0][1], base, loop, work)
        for s, (c, l) in zip(states, feas):
            r = self.goto(s, s.frames[-1], l, base, loop, work)
            if r is None:
                work.append(s)
            elif r == "stop":
                pass
            else:
                outs.append(r)
        for o in outs:
            # hand outcomes back through a one-shot queue
            work.append(Done(o))
        return "stop"

    def ret_to(self, st, v):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        if ins.dst is not None:
            fr.env[ins.dst] = v

    def finish_call_simple(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        st.jump = ins.x[1]

    def finish_call(self, st, base, loop, work):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        if ins.op == "invoke":
            return self.goto(st, fr, ins.x[1], base, loop, work)
        fr.idx += 1
        return None

    # ---------------------------------------------------------- calls
    def do_call(self, st, fr, ins, base, loop, work):
        callee = ins.x[0]
        args = []
        for a in ins.a:
            args.append(self.ev(st, fr, a))
        if callee.k == "global":
            name = callee.v
        elif callee.k == "asm":
            raise EngineError("inline asm")
        else:
            p = self.ev(st, fr, callee)
            if isinstance(p, Ptr) and p.r.kind == "func":
                name = p.r.func
            elif isinstance(p, Ptr) and p.r.tag.get("callable"):
                return self.apply(st, ins, p.r.tag["callable"](self, st, args, ins), base, loop, work)
            else:
                if isinstance(p, Ptr) and p.isnull():
                    self.assert_(st, z3.BoolVal(False), "no call through null function pointer", ins.dbg)
                    raise PathEnd()
                raise EngineError("indirect call through %s" % (p,))
        if name.startswith("llvm."):
            h = self.intrinsic
            res = self.intrinsic(st, fr, name, args, ins)
            return self.apply(st, ins, res, base, loop, work)
        h = self.handler(name)
        if h is not None:
            d = self.p.dem.get(name, name)
            res = h(self, st, args, ins)
            if res is not NotImplemented:
                if getattr(h, "is_contract", False):
                    self.contract_used[d] = self.contract_used.get(d, 0) + 1
                else:
                    self.trusted_used[d] = self.trusted_used.get(d, 0) + 1
                return self.apply(st, ins, res, base, loop, work)
        fn = self.p.find(name)
        if fn is None:
            raise NoBody("no contract or body for %s" % self.p.dem.get(name, name), name)
        self.push(st, fn, args, ins)
        return None

    def apply(self, st, ins, res, base, loop, work):
        """res: value | list of (state, value or Exc)"""
        if not (isinstance(res, list) and res and isinstance(res[0], tuple) and isinstance(res[0][0], State)):
            if isinstance(res, list) and not res:
                raise PathEnd()
            res = [(st, res)]
        mine = None
        for s, v in res:
            if s is st:
                mine = (v,)
            else:
                work.append(Pending(s, v))
        if mine is None:
            return "stop"
        return self.apply1(st, mine[0], base, loop, work)

    def apply1(self, st, v, base, loop, work):
        if isinstance(v, Exc):
            return self.unwind(st, v, base, loop, work)
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        if ins.dst is not None:
            fr.env[ins.dst] = v
        return self.finish_call(st, base, loop, work)

    def intrinsic(self, st, fr, name, args, ins):
        b = name.split(".")[1]
        if b in ("lifetime", "dbg", "assume", "donothing", "stacksave", "stackrestore", "va_end", "invariant", "experimental", "prefetch", "trap"):
            if b == "trap":
                self.assert_(st, z3.BoolVal(False), "trap not reached", ins.dbg)
                raise PathEnd()
            if b == "stacksave":
                return NULL
            return None
        if b in ("memcpy", "memmove"):
            self.memcopy(st, args[0], args[1], args[2], ins.dbg, b == "memcpy")
            return None
        if b == "memset":
            self.memset(st, args[0], args[1], args[2], ins.dbg)
            return None
        if b == "threadlocal":
            return args[0]
        if b == "is":           # is.constant: decided at compile time, false without optimisation
            return z3.BoolVal(False)
        if b == "va_start":
            p = args[0]
            st.ghost[("va", p.r)] = list(fr.va)
            return None
        if b == "va_copy":
            st.ghost[("va", args[0].r)] = st.ghost.get(("va", args[1].r), [])
            return None
        if b in ("umax", "umin", "smax", "smin"):
            x, y = args
            c = {"umax": z3.UGE, "umin": z3.ULE, "smax": lambda a, b: a >= b, "smin": lambda a, b: a <= b}[b](x, y)
            return simp(z3.If(c, x, y))
        if b == "abs":
            return simp(z3.If(args[0] < 0, -args[0], args[0]))
        if b == "eh":
            g = args[0]
            return bv(self.typeid(g.r.tag.get("gname")), 32)
        if b == "expect":
            return args[0]
        if b in ("uadd", "sadd", "usub", "umul", "smul", "ssub"):
            w = args[0].size()
            x, y = args
            if b == "uadd":
                return (simp(x + y), z3.Not(z3.BVAddNoOverflow(x, y, False)))
            if b == "usub":
                return (simp(x - y), z3.ULT(x, y))
            if b == "umul":
                return (simp(x * y), z3.Not(z3.BVMulNoOverflow(x, y, False)))
            if b == "sadd":
                return (simp(x + y), z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))))
        if b == "fabs":
            w = args[0].size()
            return args[0] & bv((1 << (w - 1)) - 1, w)
        if b == "is" or b == "objectsize":
            if b == "objectsize":
                return bv(-1, ins.ty.n)
        raise EngineError("intrinsic " + name)

    def memcopy(self, st, d, s, n, loc=None, disjoint=False):
        n = zx64(n)
        n = simp(n)
        if isc(n) and cval(n) == 0:
            return
        if not isc(n):
            # a zero length copy touches nothing
            if st.entails(n == 0):
                return
        self.range_access(st, d, n, "store", loc)
        self.range_access(st, s, n, "load", loc)
        if d.r.kind == "null" or s.r.kind == "null":
            return
        if disjoint and d.r is s.r and not (isc(d.off) and isc(s.off) and cval(d.off) == cval(s.off)):
            self.assert_(st, z3.Or(n == 0, z3.UGE(sub(d.off, s.off), n), z3.UGE(sub(s.off, d.off), n)), "memcpy ranges do not overlap", loc)
        if isc(n) and cval(n) <= 8 and cval(n) in (1, 2, 4, 8):
            k = cval(n)
            try:
                if k == 8 and self.is_ptr_src(st, s):
                    v = st.rd(s.r, s.off, 8, True)
                else:
                    v = st.rd(s.r, s.off, k)
                st.wr(d.r, d.off, k, v)
                return
            except AmbiguousPtr:
                pass
        st.cp(d.r, d.off, n, s.r, s.off)

    def is_ptr_src(self, st, s):
        if not isc(s.off):
            return False
        if s.r.ptr_hook is not None and s.r.tag.get("ptroffs") and cval(s.off) in s.r.tag["ptroffs"]:
            return True
        return self.is_ptr_cell(st, s.r, s.off, 8)

    def memset(self, st, d, b, n, loc=None):
        n = simp(zx64(n))
        if isc(n) and cval(n) == 0:
            return
        self.range_access(st, d, n, "store", loc)
        if d.r.kind == "null":
            return
        if isc(n) and cval(n) <= 64 and isc(b) and isc(d.off):
            k = cval(n)
            o = 0
            while k - o >= 8:
                st.wr(d.r, d.off + o if False else add(d.off, bv(o)), 8, simp(z3.Concat(*[b] * 8)))
                o += 8
            for w in (4, 2, 1):
                while k - o >= w:
                    st.wr(d.r, add(d.off, bv(o)), w, simp(z3.Concat(*[b] * w)) if w > 1 else b)
                    o += w
            return
        st.memset(d.r, d.off, n, b)

    def range_access(self, st, p, n, what, loc):
        if p.r.kind == "null":
            self.assert_(st, n == 0, "no null dereference (block %s)" % what, loc)
            return
        if p.r in st.freed:
            self.assert_(st, n == 0, "no access to released memory", loc)
            return
        if what == "store" and p.r.readonly:
            self.assert_(st, n == 0, "no write to constant memory", loc)
        if self.check_mem and p.r.size is not None:
            g = z3.Or(n == 0, z3.And(z3.ULE(n, p.r.size), z3.ULE(p.off, p.r.size - n)))
            g = simp(g)
            if not z3.is_true(g):
                self.assert_(st, g, "memory access in bounds (block %s of %s)" % (what, p.r.name), loc)

    # ---------------------------------------------------------- arithmetic
    def binop(self, op, a, b, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise EngineError("pointer arithmetic in " + op)
        if z3.is_bool(a):
            if op == "and":
                return simp(z3.And(a, b))
            if op == "or":
                return simp(z3.Or(a, b))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(a, b))
            raise EngineError("i1 " + op)
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = self.mul_hook(a, b, st) if self.mul_hook else None
            if r is None:
                r = a * b
        elif op == "and":
            r = a & b
        elif op == "or":
            r = a | b
        elif op == "xor":
            r = a ^ b
        elif op == "shl":
            r = a << b
        elif op == "lshr":
            r = z3.LShR(a, b)
        elif op == "ashr":
            r = a >> b
        else:
            self.assert_(st, b != 0, "no division by zero", None)
            if op in ("sdiv", "srem"):
                w = a.size()
                self.assert_(st, z3.Not(z3.And(a == bv(1 << (w - 1), w), b == bv(-1, w))), "no division overflow", None)
            r = {"udiv": z3.UDiv, "sdiv": lambda x, y: x / y, "urem": z3.URem, "srem": z3.SRem}[op](a, b)
            # exact pointer difference: (p - q) / 2^k of a multiple
        return simp(r)

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = int_to_ptr(st, a)
            if not isinstance(b, Ptr):
                b = int_to_ptr(st, b)
            if a.r is b.r:
                x, y = a.off, b.off
            elif pred in ("eq", "ne"):
                # distinct objects have distinct addresses (one-past-the-end aliasing excluded)
                return z3.BoolVal(pred == "ne")
            else:
                x, y = ptr_to_int(st, a), ptr_to_int(st, b)
        else:
            x, y = a, b
            if z3.is_bool(x):
                if pred == "eq":
                    return simp(x == y)
                if pred == "ne":
                    return simp(z3.Xor(x, y))
                raise EngineError("i1 icmp")
        f = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
        return simp(f)

    def cast(self, op, v, ty):
        if z3.is_bool(v):
            if op == "zext":
                return simp(z3.If(v, bv(1, ty.n), bv(0, ty.n)))
            if op == "sext":
                return simp(z3.If(v, bv(-1, ty.n), bv(0, ty.n)))
            return v
        w = v.size()
        if op == "trunc":
            if ty.n == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(ty.n - 1, 0, v))
        if op == "zext":
            return simp(z3.ZeroExt(ty.n - w, v))
        return simp(z3.SignExt(ty.n - w, v))


class Done:
    def __init__(self, o):
        self.o = o


class Pending:
    def __init__(self, s, v):
        self.s, self.v = s, v


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}


def sx64(v):
    return v if v.size() == 64 else simp(z3.SignExt(64 - v.size(), v))


def zx64(v):
    return v if v.size() == 64 else simp(z3.ZeroExt(64 - v.size(), v))


def mulc(v, c):
    if c == 1:
        return v
    return simp(v * bv(c))


def tins(v, idx, e):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = tins(v[idx[0]], idx[1:], e)
    return tuple(v)


def fpconst(s, ty):
    if s.startswith("0x"):
        if s[2] in "KLMHR":
            raise EngineError("fp constant " + s)
        b = int(s, 16)
        d = struct.unpack("<d", struct.pack("<Q", b))[0]
    else:
        d = float(s)
    if ty.k == "float":
        return bv(struct.unpack("<I", struct.pack("<f", d))[0], 32)
    return bv(struct.unpack("<Q", struct.pack("<d", d))[0], 64)


def fpop(name, w, *a):
    S = z3.BitVecSort(w)
    return z3.Function(name, *([S] * len(a)), S)(*a)


def fpcmp(pred, w, a, b):
    S = z3.FPSort(8, 24) if w == 32 else z3.FPSort(11, 53)
    x, y = z3.fpBVToFP(a, S), z3.fpBVToFP(b, S)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
    if pred == "ord":
        return z3.Not(un)
    if pred == "uno":
        return un
    if pred == "true":
        return z3.BoolVal(True)
    if pred == "false":
        return z3.BoolVal(False)
    if pred[1:] == "ne":
        r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
    else:
        r = base[pred[1:]](x, y)
    return r if pred[0] == "o" else z3.Or(un, r)


def fpcast(op, v, t1, t2):
    """conversions are uninterpreted functions of the source bits, one per (operation, types)"""
    w1 = v.size()
    w2 = {"float": 32, "double": 64}.get(t2.k) or t2.n
    return z3.Function("%s_%d_%d" % (op, w1, w2), z3.BitVecSort(w1), z3.BitVecSort(w2))(v)
