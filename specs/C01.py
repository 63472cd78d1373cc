"""C01: call descriptors"""
from specs.cdcore import *


def run(fn, args, post_fn, pre=None, loops=None):
    def go(ctx):
        w = World()
        ex = ctx.exec(fn, rules=[w.rules()])

        def setup(ex, st):
            w.setup(st, True)
            a, info = args(w, st)
            if pre:
                st.assume(pre(w, st, info))
            st.ghost["s0"] = s0 = st.fork()
            return [(st, [Ptr(w.R)] + a, (s0, info))]

        def post(ex, kind, st, ret, i):
            s0, info = i
            ex.assert_(st, z3.BoolVal(kind == "ret"), "returns normally")
            post_fn(w, ex, s0, st, ret, info)
        if loops:
            ex.loop_spec = lambda c: loops(w, c)
        verify(ctx, ex, fn, setup, post)
    return go


def cdarg(w, st):
    cd = iv("cd")
    w.wf(st, cd)
    return [cd], cd


def same(w, s0, st, ks):
    return z3.And(st.ghost["in"] == s0.ghost["in"], st.ghost["size"] == s0.ghost["size"], w.seq(st) == w.seq(s0),
                  *[z3.Implies(w.has(s0, k), z3.And(w.status(st, k) == w.status(s0, k), w.token(st, k) == w.token(s0, k))) for k in ks])


def p_allocate(w, ex, s0, st, ret, info):
    J, err = w.J, st.ghost["tperrno"]
    fail_ = ret == bv(-1, 32)
    ex.assert_(st, z3.Implies(fail_, z3.And(err == TPELIMIT, s0.ghost["size"] >= 1024)), "a descriptor is refused only when too many are outstanding, with TPELIMIT")
    ex.assert_(st, z3.Implies(fail_, same(w, s0, st, [J])), "a refused descriptor changes nothing")
    ex.assert_(st, z3.Implies(z3.Not(fail_), z3.And(ret > 0, z3.Not(w.has(s0, ret)))), "a new descriptor is positive and not in use")
    ex.assert_(st, z3.Implies(z3.Not(fail_), z3.And(st.ghost["in"] == z3.Store(s0.ghost["in"], ret, z3.BoolVal(True)), st.ghost["size"] == s0.ghost["size"] + 1,
                                                    z3.ULE(st.ghost["size"], 1025))), "exactly the new descriptor is outstanding in addition")
    nx = z3.If(w.seq0 == 2**31 - 2, bv(1, 32), w.seq0 + 1)
    ex.assert_(st, z3.Implies(z3.Not(fail_), z3.And(w.seq(st) == ret, z3.Implies(z3.Not(w.has(s0, nx)), ret == nx))), "descriptors are handed out in a cycle")
    ex.assert_(st, z3.Implies(z3.Not(fail_), w.status(st, ret) == w.M["none"]), "a new descriptor has no reply")
    ex.assert_(st, z3.Implies(w.has(s0, J), z3.And(w.status(st, J) == w.status(s0, J), w.token(st, J) == w.token(s0, J))), "other descriptors keep their replies")
    ex.assert_(st, z3.And(w.seq(st) >= 0, w.seq(st) < 2**31 - 1), "the sequence stays in range")


def l_allocate(w, c):
    if "allocate" not in c.dem:
        return None
    e = c.entry
    cs = []
    for k, v in c.phis.items():
        if k != "#it" and not isinstance(v, Ptr) and not z3.is_bool(v) and v.size() == 32:
            cs.append(Cand("%s positive" % k, lambda st, ph, k=k: z3.And(ph[k] > 0, ph[k] < 2**31 - 1)))
    cs.append(Cand("seq", lambda st, ph: z3.And(w.seq(st) > 0, w.seq(st) < 2**31 - 1)))
    nx = z3.If(w.seq0 == 2**31 - 2, bv(1, 32), w.seq0 + 1)
    cs.append(Cand("next or taken", lambda st, ph: z3.Or(w.seq(st) == nx, w.has(e, nx))))
    for k, v in c.phis.items():
        if k != "#it" and not isinstance(v, Ptr) and not z3.is_bool(v) and v.size() == 32:
            cs.append(Cand("%s is last" % k, lambda st, ph, k=k: ph[k] == w.seq(st)))
    for r, l in list(e.mem.items()):
        if r.kind == "stack" and r.size is not None and isc(r.size) and cval(r.size) == 4:
            cs.append(Cand("%s is last" % r.name, lambda st, ph, r=r: st.rd(r, bv(0), 4) == w.seq(st)))
    cs.append(Cand("set", lambda st, ph: st.ghost["in"] == e.ghost["in"]))
    cs.append(Cand("size", lambda st, ph: st.ghost["size"] == e.ghost["size"]))
    cs.append(Cand("J", lambda st, ph: z3.Implies(w.has(e, w.J), z3.And(w.status(st, w.J) == w.status(e, w.J), w.token(st, w.J) == w.token(e, w.J)))))
    cs += cell_range(w, c)
    return {"cands": cs, "variants": []}


def cell_range(w, c):
    out = []
    for r, l in list(c.entry.mem.items()):
        if r.kind == "stack" and r.size is not None and isc(r.size) and cval(r.size) == 4:
            out.append(Cand("%s positive" % r.name, lambda st, ph, r=r: z3.And(st.rd(r, bv(0), 4) > 0, st.rd(r, bv(0), 4) < 2**31 - 1)))
    return out


def p_release(w, ex, s0, st, ret, cd):
    known = w.has(s0, cd)
    err = st.ghost["tperrno"]
    ex.assert_(st, z3.Implies(z3.Not(known), z3.And(ret == bv(-1, 32), err == TPEBADDESC, same(w, s0, st, [w.J]))), "an unknown descriptor is refused with TPEBADDESC and changes nothing")
    ex.assert_(st, z3.Implies(known, z3.And(ret == 0, st.ghost["in"] == z3.Store(s0.ghost["in"], cd, z3.BoolVal(False)), st.ghost["size"] == s0.ghost["size"] - 1)), "a known descriptor is no longer outstanding")
    ex.assert_(st, z3.Implies(z3.And(w.J != cd, w.has(s0, w.J)), z3.And(w.status(st, w.J) == w.status(s0, w.J), w.token(st, w.J) == w.token(s0, w.J))), "other descriptors keep their replies")
    ex.assert_(st, w.seq(st) == w.seq(s0), "the sequence is kept")


def p_check(w, ex, s0, st, ret, cd):
    known = w.has(s0, cd)
    ex.assert_(st, z3.If(known, ret == 0, z3.And(ret == bv(-1, 32), st.ghost["tperrno"] == TPEBADDESC)), "outstanding descriptors pass, others are refused with TPEBADDESC")
    ex.assert_(st, same(w, s0, st, [w.J]), "nothing changes")


def p_isalloc(w, ex, s0, st, ret, cd):
    r = ret if z3.is_bool(ret) else ret != 0
    ex.assert_(st, r == w.has(s0, cd), "tells whether the descriptor is outstanding")
    ex.assert_(st, same(w, s0, st, [w.J]), "nothing changes")


def p_isbuf(w, ex, s0, st, ret, cd):
    r = ret if z3.is_bool(ret) else ret != 0
    ex.assert_(st, r == (w.status(s0, cd) == w.M["buffered"]), "tells whether a reply has arrived")
    ex.assert_(st, same(w, s0, st, [w.J, cd]), "nothing changes")


def p_buffered(w, ex, s0, st, ret, cd):
    ex.assert_(st, z3.BoolVal(ret.r is w.E), "gives the reply of a descriptor")
    if ret.r is w.E:
        ex.assert_(st, ret.off == node(cd) + w.M["second"] + w.M["res"], "gives the reply of this descriptor")
    ex.assert_(st, same(w, s0, st, [w.J, cd]), "nothing changes")


def p_buffer(w, ex, s0, st, ret, info):
    cd, tok = info
    ex.assert_(st, z3.And(w.fld(st, tok, "cd", 4) == cd, w.fld(st, tok, "cat", 1) != w.M["unblock"]), "a kept reply belongs to its descriptor")
    ex.assert_(st, z3.And(w.status(st, cd) == w.M["buffered"], w.token(st, cd) == tok), "the reply is kept for its descriptor")
    ex.assert_(st, z3.And(st.ghost["in"] == s0.ghost["in"], st.ghost["size"] == s0.ghost["size"]), "the outstanding descriptors stay the same")
    ex.assert_(st, z3.Implies(z3.And(w.J != cd, w.has(s0, w.J)), z3.And(w.status(st, w.J) == w.status(s0, w.J), w.token(st, w.J) == w.token(s0, w.J))), "other descriptors keep their replies")


def a_buffer(w, st):
    P = Region("reply", 24)
    tok = iv("token", 64)
    st.assume(z3.ULE(tok, 1 << 40))
    st.wr(P, bv(0), 8, tok)
    cd = w.fld(st, tok, "cd", 4)
    w.wf(st, cd)
    st.assume(w.fld(st, tok, "cat", 1) != w.M["unblock"])
    return [Ptr(P)], (cd, tok)


def p_any(w, ex, s0, st, ret, info):
    # the descriptor found; J is arbitrary
    ex.assert_(st, z3.Implies(ret != bv(-1, 32), z3.And(w.has(s0, ret), w.status(s0, ret) == w.M["buffered"])), "a descriptor with a reply is found")
    ex.assert_(st, z3.Implies(z3.And(ret == bv(-1, 32), w.has(s0, w.J)), w.status(s0, w.J) != w.M["buffered"]), "none is found only when no reply has arrived")
    ex.assert_(st, same(w, s0, st, [w.J]), "nothing changes")


def l_any(w, c):
    e = c.entry
    s0 = e.ghost["s0"]
    cs = []
    its = [(r, o) for r, o, p in ptr_cells(e) if p.r is w.E]
    def at(st, p):
        k = z3.Extract(31, 0, z3.LShR(p.off, SHIFT))
        none = z3.Implies(w.has(s0, w.J), w.status(s0, w.J) != w.M["buffered"])
        return z3.If(p.off == w.end, none, z3.And(p.off == node(k), w.has(s0, k), w.status(st, k) == w.status(s0, k),
                      z3.Implies(z3.And(w.has(s0, w.J), w.J < k), w.status(s0, w.J) != w.M["buffered"])))
    for r, o in its:
        def f(st, ph, r=r, o=o):
            p = st.rd(r, bv(o) if isinstance(o, int) else o, 8, True)
            return at(st, p) if p.r is w.E else None
        cs.append(Cand("no reply before %s" % r.name, f))
    for k, v in c.phis.items():
        if isinstance(v, Ptr) and v.r is w.E:
            cs.append(Cand("no reply before %s" % k, lambda st, ph, k=k: at(st, ph[k])))
    cs.append(Cand("J", lambda st, ph: z3.Implies(w.has(s0, w.J), z3.And(w.status(st, w.J) == w.status(s0, w.J), w.token(st, w.J) == w.token(s0, w.J)))))
    cs.append(Cand("seq", lambda st, ph: w.seq(st) == w.seq(s0)))
    return {"cands": cs, "variants": []}


U = [("allocate", "responses::allocate()", lambda w, st: ([], None), p_allocate, None, l_allocate),
     ("release", "responses::release(int)", cdarg, p_release, None, None),
     ("check", "responses::check(int)", cdarg, p_check, None, None),
     ("is_allocated", "responses::is_allocated(int)", cdarg, p_isalloc, None, None),
     ("is_buffered", "responses::is_buffered(int)", cdarg, p_isbuf, lambda w, st, cd: w.has(st, cd), None),
     ("buffered", "responses::buffered(int)", cdarg, p_buffered, lambda w, st, cd: w.has(st, cd), None),
     ("buffer", "responses::buffer(fux::ipc::msg&&)", a_buffer, p_buffer, lambda w, st, i: w.has(st, i[0]), None),
     ("any_buffered", "responses::any_buffered()", lambda w, st: ([], None), p_any, None, l_any)]
UNITS = [Unit(n, ["client"], run(f, a, p, pr, lo)) for n, f, a, p, pr, lo in U]


def replay(failed, tmp):
    return cxx_driver(tmp, "resp.cpp", libtus(), extra_tu={"mib": ["-Dgetmib=real_getmib"]})
