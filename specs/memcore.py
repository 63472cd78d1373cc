"""Typed buffers: layout, well formed buffers, models of the C library and contracts of fielded buffers"""
from engine.api import *
from engine.lib import *
from specs.common import *
from specs.T05 import errno_rules

LIM = 1 << 48


def lay():
    return layout(["src/mem.cpp"], {"hdr": "sizeof(fux::mem::tpmem)", "size": "offsetof(fux::mem::tpmem,size)", "owner": "offsetof(fux::mem::tpmem,owner)",
                                    "type": "offsetof(fux::mem::tpmem,type)", "sub": "offsetof(fux::mem::tpmem,subtype)", "data": "offsetof(fux::mem::tpmem,data)"})


TYPES = {"TPINIT": None, "CARRAY": 0, "STRING": 512, "FML32": 512}      # name -> least size (TPINIT: TPINITNEED(0))


def least():
    t = dict(TYPES)
    t["TPINIT"] = layout(['<xatmi.h>'], {"n": "TPINITNEED(0)"})["n"]
    return t


def name_is(rd, name, n=8):
    """bytes rd(0..) are the name, padded with zeros in a field of n bytes (as strncmp over n bytes sees it)"""
    c = [rd(i) == b for i, b in enumerate(name.encode())]
    if len(name) < n:
        c.append(rd(len(name)) == 0)
    return z3.And(*c)


def strncmp_h(ex, st, args, ins):
    a, b, n = args[0], args[1], zx64(args[2])
    if not isc(simp(n)):
        raise EngineError("strncmp with a symbolic length")
    n = cval(simp(n))
    if n > 64:
        raise EngineError("strncmp over %d bytes" % n)
    eq = z3.BoolVal(True)
    ra = lambda i: st.rd(a.r, add(a.off, bv(i)), 1)
    rb = lambda i: st.rd(b.r, add(b.off, bv(i)), 1)
    live = z3.BoolVal(True)
    inside = {0: [], 1: []}
    for i in range(n):
        for k, p in enumerate((a, b)):
            if p.r.size is not None and not p.r.name.startswith("@"):
                inside[k].append(z3.Implies(live, z3.ULT(add(p.off, bv(i)), p.r.size)))
            elif p.r.name.startswith("@") and isc(simp(p.off)) and (not isinstance(p.r.size, int) or cval(simp(p.off)) + i >= p.r.size):
                inside[k].append(z3.Implies(live, z3.ULT(add(p.off, bv(i)), p.r.size if not isinstance(p.r.size, int) else bv(p.r.size))))
        live = simp(z3.And(live, ra(i) == rb(i), ra(i) != 0))
        if z3.is_false(live):
            break
    for k, p in enumerate((a, b)):
        if inside[k]:
            ex.assert_(st, z3.And(*inside[k]), "strncmp reads inside %s" % p.r.name.split(".")[-1], ins.dbg)
    for i in range(n - 1, -1, -1):
        eq = simp(z3.And(ra(i) == rb(i), z3.Or(ra(i) == 0, eq)))
    r = fresh("strncmp", 32)
    st.assume((r == 0) == eq)
    return r


def strncpy_h(ex, st, args, ins):
    d, s, n = args[0], args[1], zx64(args[2])
    n = cval(simp(n))
    ex.range_access(st, d, bv(n), "store", ins.dbg)
    ended = z3.BoolVal(False)
    for i in range(n):
        c = st.rd(s.r, add(s.off, bv(i)), 1)
        if s.r.size is not None:
            ex.assert_(st, z3.Or(ended, z3.ULT(add(s.off, bv(i)), s.r.size)), "strncpy reads inside the string", ins.dbg)
        v = simp(z3.If(ended, bv(0, 8), c))
        ended = simp(z3.Or(ended, c == 0))
        st.wr(d.r, add(d.off, bv(i)), 1, v)
    return d


def malloc_h(ex, st, args, ins):
    n = zx64(args[0])
    r = Region("heap", n, kind="heap").bytewise()
    s2 = st.fork()
    st.assume(z3.ULE(n, LIM))
    st.ghost["heap"] = (st.ghost.get("heap") or []) + [r]
    s2.ghost["nomem"] = True
    return [(st, Ptr(r)), (s2, NULL)]


def realloc_h(ex, st, args, ins):
    p, n = args[0], zx64(args[1])
    ex.assert_(st, z3.And(z3.BoolVal(not p.isnull()), p.off == 0), "realloc of the start of an allocation", ins.dbg)
    ex.assert_(st, z3.BoolVal(p.r not in st.freed), "realloc of live memory", ins.dbg)
    s2 = st.fork()
    s2.ghost["nomem"] = True
    r = Region("heap", n, kind="heap").bytewise()
    st.assume(z3.ULE(n, LIM))
    k = fresh("kept", 64)
    st.assume(k == z3.If(z3.ULT(n, p.r.size), n, p.r.size))
    st.cp(r, bv(0), k, p.r, bv(0))
    st.freed = st.freed | {p.r}
    st.ghost["heap"] = (st.ghost.get("heap") or []) + [r]
    return [(st, Ptr(r)), (s2, NULL)]


USED = z3.Function("fml32used", z3.BitVecSort(64), z3.BitVecSort(64))


class Mem:
    def __init__(self):
        self.L = lay()

    def rules(self):
        L = self.L

        def fml(what):
            def h(ex, st, args, ins):
                p = args[0]
                st.ghost["fml"] = (st.ghost.get("fml") or []) + [(what, p, args[1] if len(args) > 1 else None)]
                if what != "finit":
                    ex.range_access(st, p, zx64(args[1]), "store", ins.dbg)
                    if what == "init":      # F-properties: initialises the header of an empty buffer
                        st.havoc(p.r, p.off, zx64(args[1]))
                return None
            h.is_contract = True
            return h

        def used(ex, st, args, ins):
            # between the size of an empty buffer and the capacity (invariant of fielded buffers)
            p = args[0]
            u = fresh("fmlused", 64)
            if p.r.size is not None:
                st.assume(z3.And(z3.UGE(u, 1), z3.ULE(u, p.r.size - p.off)))
            prev = st.ghost.get("fmlused")
            if prev is not None:
                st.assume(u == prev)
            st.ghost["fmlused"] = u
            return u
        used.is_contract = True

        def strl(ex, st, args, ins):
            p = args[0]
            n = p.r.tag.get("text")
            if n is None:
                n = iv("strlen", 64)
                p.r.tag["text"] = n
                st.assume(z3.ULT(n, (p.r.size if p.r.size is not None else bv(LIM)) - p.off))
                st.assume(st.rd(p.r, p.off + n, 1) == 0)
            return n
        return errno_rules() + [("strncmp", strncmp_h), ("strncpy", strncpy_h), ("malloc", malloc_h), ("realloc", realloc_h),
                                (rx(r"fml32init\(.*"), fml("init")), (rx(r"fml32reinit\(.*"), fml("reinit")), (rx(r"fml32finit\(.*"), fml("finit")), (rx(r"fml32used\(.*"), used),
                                ("strlen", strl)]

    def realloc_contract(self):
        """tprealloc as proved in B01"""
        L = self.L

        def h(ex, st, args, ins):
            p, size = args
            ex.assert_(st, z3.And(z3.BoolVal(not p.isnull() and p.r not in st.freed), p.off == L["data"]), "a live buffer is reallocated", ins.dbg)
            R = p.r
            s2 = st.fork()
            s2.ghost["nomem"] = True
            s2.ghost["tperrno"] = bv(TPEOS, 32)
            new = fresh("newsize", 64)
            st.assume(z3.And(new >= size, new >= 0, z3.ULE(new, LIM)))
            D = Region("heap", new + L["hdr"], kind="heap").bytewise()
            old = st.rd(R, bv(L["size"]), 8)
            k = fresh("kept", 64)
            st.assume(k == z3.If(new < old, new, old))
            st.cp(D, bv(0), L["data"] + k, R, bv(0))
            st.wr(D, bv(L["size"]), 8, new)
            o = st.rd(R, bv(L["owner"]), 8, True)
            st.wr(D, bv(L["owner"]), 8, o)
            if isinstance(o, Ptr) and not o.isnull():
                q = st.rd(o.r, o.off, 8, True)
                if isinstance(q, Ptr) and q.r is R:
                    st.wr(o.r, o.off, 8, Ptr(D, bv(L["data"])))
            st.freed = st.freed | {R}
            st.ghost["heap"] = (st.ghost.get("heap") or []) + [D]
            st.ghost["tperrno"] = bv(0, 32)
            return [(st, Ptr(D, bv(L["data"]))), (s2, NULL)]
        h.is_contract = True
        return [(rx(r"(fux::mem::)?tprealloc(\(char\*, long\))?"), h)]

    def hooks(self, ex):
        for m in ex.p.mods:
            for g in list(m.globals):
                if "_tptypes" in g:
                    ex.global_hooks.setdefault("use_init", set()).add(g)

    def buffer(self, st, name="buf", owned=True):
        """an allocated buffer of any type the table knows; (region, data size, pointer)"""
        L = self.L
        n = iv(name + ".size", 64)
        R = Region(name, n + L["hdr"], kind="heap").bytewise()
        st.assume(z3.ULE(n, LIM - 4096))
        st.wr(R, bv(L["size"]), 8, n)
        st.wr(R, bv(L["owner"]), 8, NULL)
        rd = lambda i: st.rd(R, bv(L["type"] + i), 1)
        self.kinds = {k: name_is(rd, k) for k in least()}
        st.assume(z3.Or(*self.kinds.values()))
        sub = lambda i: st.rd(R, bv(L["sub"] + i), 1)
        st.assume(z3.Or(sub(0) == 0, z3.And(sub(0) == ord("*"), sub(1) == 0)))
        for k, v in least().items():
            st.assume(z3.Implies(self.kinds[k], z3.UGE(n, v)))
        return R, n, Ptr(R, bv(L["data"]))
