"""The bulletin board (class mib): tables as arrays of records, names as byte strings"""
from engine.api import *
from engine.lib import *
from specs.common import *
import re

TABLES = ("queue", "group", "server", "service", "advertisement", "accesser")
MEMBER = {"queue": "queues", "group": "groups", "server": "servers", "service": "services", "advertisement": "advertisements", "accesser": "accessers"}
FIELDS = {"queue": ("rqaddr", "msqid", "mtype", "servercnt", "server_idx"), "group": ("grpno", "srvgrp", "openinfo", "closeinfo", "tmsname"),
          "server": ("group_idx", "srvid", "grpno", "rqaddr", "servername", "clopt", "state"),
          "service": ("servicename", "state", "revision", "autotran", "load", "prio", "blocktime", "svctimeout", "trantime", "buftype", "buftypeconv"),
          "advertisement": ("service", "queue", "server", "state"), "accesser": ("pid", "rpid", "rpid_timeout")}
BAD = bv(-1)
TOTAL_MAX = 1 << 36


def mib_layout():
    q = {"mib": "sizeof(mib)", "mem": "offsetof(mib,mem_)", "shmid": "offsetof(mib,shmid_)", "cfg": "offsetof(mib,cfg_)", "mibmem": "sizeof(mibmem)",
         "counter": "offsetof(mibmem,counter)", "host": "offsetof(mibmem,host)", "data": "offsetof(mibmem,data)", "tmoff": "offsetof(mibmem,transactions_off)",
         "mainsem": "offsetof(mibmem,mainsem)", "a.off": "offsetof(mibarr<queue>,off)", "a.len": "offsetof(mibarr<queue>,len)", "a.size": "offsetof(mibarr<queue>,size)",
         "arr": "sizeof(mibarr<queue>)", "ACTive": "(int)state_t::ACTive", "INActive": "(int)state_t::INActive", "INValid": "(int)state_t::INValid"}
    for t in TABLES:
        q["m." + t] = "offsetof(mibmem,%s)" % MEMBER[t]
        q["sz." + t] = "sizeof(%s)" % t
        for f in FIELDS[t]:
            q[t + "." + f] = "offsetof(%s,%s)" % (t, f)
            q[t + "." + f + "#"] = "sizeof(((%s*)0)->%s)" % (t, f)
    for f in ("maxservers", "maxservices", "maxqueues", "maxgroups", "maxaccessers", "ipckey"):
        q["c." + f] = "offsetof(tuxconfig,%s)" % f
    q["tuxconfig"] = "sizeof(tuxconfig)"
    return layout(["src/mib.h"], q)


class Name:
    """a name passed as an argument: text of n bytes and its terminator"""
    def __init__(self, nm):
        self.n = iv(nm + "_len", 64)
        self.T = Region(nm + "_text", self.n + 1).bytewise()
        self.S = Region(nm, 32)

    def setup(self, st):
        st.assume(z3.ULT(self.n, 1 << 31))
        st.assume(st.rd(self.T, self.n, 1) == 0)


class MIB:
    def __init__(self):
        self.L = mib_layout()
        self.M = Region("mib", self.L["mib"])
        self.H = Region("header", self.L["mibmem"])
        self.T = {t: Region(MEMBER[t], fresh("bytes_" + t, 64)) for t in TABLES}
        self.size = {t: iv("size_" + t, 64) for t in TABLES}
        self.len = {t: iv("len_" + t, 64) for t in TABLES}
        self.eq = {t: z3.Function("equal_%s_%d" % (t, id(self)), BV64, z3.BoolSort()) for t in TABLES}
        # position -> offset of the entry: multiplication by the size of a record (facts used: lemmas of unit "index")
        self.mul = {t: z3.Function("offset_%s_%d" % (t, id(self)), BV64, BV64) for t in TABLES}
        self.names = []

    def setup(self, st):
        L = self.L
        st.wr(self.M, bv(L["mem"]), 8, Ptr(self.H))
        for t in TABLES:
            a = L["m." + t]
            st.wr(self.H, bv(a + L["a.len"]), 8, self.len[t])
            st.wr(self.H, bv(a + L["a.size"]), 8, self.size[t])
            st.assume(z3.And(z3.ULE(self.len[t], self.size[t]), z3.ULE(self.size[t], 1 << 32 if t == "advertisement" else 65535)))
            st.assume(z3.And(self.T[t].size == self.off(t, self.size[t]), z3.ULE(self.T[t].size, 1 << 52), z3.ULE(self.off(t, self.len[t]), self.T[t].size)))
            st.assume(z3.Implies(z3.ULT(self.len[t], self.size[t]), z3.ULE(self.off(t, self.len[t]) + L["sz." + t], self.T[t].size)))
        for n in self.names:
            n.setup(st)

    def name(self, nm):
        n = Name(nm)
        self.names.append(n)
        return n

    def nlen(self, st, t):
        return st.rd(self.H, bv(self.L["m." + t] + self.L["a.len"]), 8)

    def off(self, t, i):
        return self.mul[t](i)

    def fld(self, st, t, i, f):
        return st.rd(self.T[t], self.off(t, i) + self.L[t + "." + f], self.L[t + "." + f + "#"])

    # ---- rules
    def rules(self, prog):
        L = self.L
        out = []

        def table(t):
            def index(ex, st, args, ins):
                p = st.rd(args[0].r, args[0].off, 8, True)
                ok = isinstance(p, Ptr) and p.r is self.H and isc(simp(p.off)) and cval(simp(p.off)) == L["m." + t]
                ex.assert_(st, z3.BoolVal(ok), "table of the bulletin board", ins.dbg)
                i = zx64(args[1])
                ex.assert_(st, z3.ULT(i, self.size[t]), "entry is inside the table", ins.dbg)
                st.assume(z3.And(z3.ULE(self.off(t, i), 1 << 52), z3.ULE(self.off(t, i) + L["sz." + t], self.T[t].size)))       # unit "index"
                self.on_entry(ex, st, t, i, ins)
                return Ptr(self.T[t], self.off(t, i))
            index.is_contract = True
            return index
        for t in TABLES:
            out.append((rx(r"mibarrptr<%s>::operator\[\]\(unsigned long\) const" % t), table(t)))

        def which(p):
            for n in self.names:
                if p.r is n.S:
                    return n
            return None

        def c_str(ex, st, args, ins):
            n = which(args[0])
            return Ptr(n.T) if n else h_opaque_cstr(ex, st, args, ins)

        def size(ex, st, args, ins):
            n = which(args[0])
            return n.n if n else fresh("length", 64)

        def equal(ex, st, pa, pb, loc):
            """comparison of an argument with the text in an entry"""
            a, b = pa, pb
            for x, y in ((a, b), (b, a)):
                if any(x.r is n.T and isc(simp(x.off)) and cval(simp(x.off)) == 0 for n in self.names):
                    for t in TABLES:
                        if y.r is self.T[t]:
                            return self.eq[t](y.off)
            raise EngineError("comparison of texts that are not an argument and a field of an entry")

        def strcmp(ex, st, args, ins):
            r = fresh("strcmp", 32)
            st.assume((r == 0) == equal(ex, st, args[0], args[1], ins.dbg))
            return r

        def text(p):
            n = which(p)
            return Ptr(n.T) if n else p

        def opeq(neg=False):
            def h(ex, st, args, ins):
                e = equal(ex, st, text(args[0]), text(args[1]), ins.dbg)
                return z3.Not(e) if neg else e
            return h

        def compare(ex, st, args, ins):
            r = fresh("compare", 32)
            st.assume((r == 0) == equal(ex, st, text(args[0]), text(args[1]), ins.dbg))
            return r

        def sv_ctor(ex, st, args, ins):
            st.wr(args[0].r, args[0].off, 8, fresh("svlen", 64))
            st.wr(args[0].r, args[0].off + 8, 8, args[1])

        def sv_eq(neg=False):
            def h(ex, st, args, ins):
                p = [a for a in args if isinstance(a, Ptr)]
                e = equal(ex, st, p[0], p[1], ins.dbg)
                return z3.Not(e) if neg else e
            return h
        S = re.escape(STR)
        SV = r"std::basic_string_view<char, std::char_traits<char>>"
        out += [(rx(S + r"::(c_str|data)\(\)( const)?"), c_str), (rx(S + r"::(size|length)\(\) const"), size),
                ("strcmp", strcmp), (rx(r"bool std::operator==<char, .*basic_string<.*>( const&, char const\*|char const\*, .*const&|.*const&, .*const&)\)"), opeq()),
                (rx(r"bool std::operator!=<char, .*basic_string<.*>( const&, char const\*|char const\*, .*const&|.*const&, .*const&)\)"), opeq(True)),
                (rx(S + r"::compare\(.*\) const"), compare),
                (rx(SV + r"::basic_string_view\(char const\*\)"), sv_ctor),
                (rx(r"bool std::operator==<char, std::char_traits<char>>\(.*basic_string_view.*"), sv_eq()),
                (rx(r"bool std::operator!=<char, std::char_traits<char>>\(.*basic_string_view.*"), sv_eq(True))]
        for d in set(prog.dem.values()):
            m = re.fullmatch(r"void checked_copy<(\d+)u>\((.*), char \(&\) \[\d+u?\]\)", d)
            if m:
                out.append((d, self.copy_contract(int(m.group(1)), "basic_string" in m.group(2))))
        return out

    def copy_contract(self, N, is_string):
        def h(ex, st, args, ins):
            s, d = args
            if is_string:
                n = next((x for x in self.names if s.r is x.S), None)
                if n is None:
                    raise EngineError("copy of an unknown text")
                ln, src = n.n, Ptr(n.T)
            else:
                ln, src = h_strlen(ex, st, [s], ins), s
            s2 = st.fork()
            s2.assume(z3.UGE(ln, N))
            st.assume(z3.ULT(ln, N))
            ex.range_access(st, d, bv(N), "store", ins.dbg)
            st.cp(d.r, d.off, ln + 1, src.r, src.off)
            s2.ghost["toolong"] = True
            return [x for x in ((st, None), (s2, Exc("_ZTISt12length_error", Ptr(exc_obj())))) if x[0].feasible(timeout=1000)]
        h.is_contract = True
        return h

    def on_entry(self, ex, st, t, i, ins):
        pass

    # ---- contracts of the functions of class mib
    def find_contract(self, t, key, match):
        """no entry matches, or the returned one does. key: of the arguments; match(st, i, args)"""
        def h(ex, st, args, ins):
            s2 = st.fork()
            i = fresh("found_" + t, 64)
            st.assume(z3.And(z3.ULT(i, self.nlen(st, t)), match(st, i, args)))
            J = self.skolem(t)
            s2.assume(z3.Implies(z3.ULT(J, self.nlen(s2, t)), z3.Not(match(s2, J, args))))
            for s, r in ((st, i), (s2, None)):
                s.ghost["found:" + t] = (s.ghost.get("found:" + t) or ()) + ((key(args), r),)
            return [(st, i), (s2, BAD)]
        h.is_contract = True
        return h

    def skolem(self, t):
        if not hasattr(self, "sk"):
            self.sk = {}
        if t not in self.sk:
            self.sk[t] = iv("any_" + t, 64)
        return self.sk[t]

    def unchanged(self, ex, st, s0, t, name, but=None, upto=None):
        """entries of table t below upto (default: all of the table), except entry `but`"""
        b = fresh("byte", 64)
        lim = self.T[t].size if upto is None else self.off(t, upto)
        c = [z3.ULT(b, lim)]
        if but is not None:
            o = self.off(t, but)
            c.append(z3.Or(z3.ULT(b, o), z3.UGE(b, o + self.L["sz." + t])))
        if st.log(self.T[t]) is s0.log(self.T[t]):
            return
        ex.assert_(st, z3.Implies(z3.And(*c), st.rd(self.T[t], b, 1) == s0.rd(self.T[t], b, 1)), name)

    def header_same(self, ex, st, s0, name, but=()):
        b = fresh("byte", 64)
        if st.log(self.H) is s0.log(self.H):
            return
        c = [z3.ULT(b, self.L["mibmem"])]
        for t in but:
            o = self.L["m." + t] + self.L["a.len"]
            c.append(z3.Or(z3.ULT(b, o), z3.UGE(b, o + 8)))
        ex.assert_(st, z3.Implies(z3.And(*c), st.rd(self.H, b, 1) == s0.rd(self.H, b, 1)), name)

    def copied(self, ex, st, t, i, f, n, name):
        k = fresh("k", 64)
        ex.assert_(st, z3.Implies(z3.ULE(k, n.n), st.rd(self.T[t], self.off(t, i) + self.L[t + "." + f] + k, 1) == st.rd(n.T, k, 1)), name)


def scan(w, t, match):
    """search loops: the skolem entry does not match before the loop index"""
    def spec(ctx):
        ln = w.len[t]
        J = w.skolem(t)
        cands = bound_cands(ctx, {"len": ln})
        for k, v in ctx.phis.items():
            if ival(v) is None:
                continue
            cands.append(Cand("no match before " + k, lambda st, ph, k=k: z3.Implies(z3.ULT(J, ival(ph[k])), z3.Not(match(st, J)))))
        return {"cands": cands, "variants": variant_cands(ctx, {"len": ln})}
    return spec
