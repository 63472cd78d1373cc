"""Call descriptors: std::map<int, responses::response> as a finite map, messages as values"""
from specs.clientcore import *

RESP = r"std::pair<int const, responses::response>"
MAP = r"std::map<int, responses::response, std::less<int>, std::allocator<%s>>" % RESP
IT = r"std::_Rb_tree_(const_)?iterator<%s>" % RESP
MSGSZ = 256
SHIFT = 6          # a map node occupies 64 bytes


def mlay():
    return layout(["src/client.cpp"], {
        "calls": "offsetof(responses,calls_)", "seq": "offsetof(responses,seq_)", "resp": "sizeof(responses)",
        "status": "offsetof(responses::response,status)", "res": "offsetof(responses::response,res)",
        "buffered": "responses::flags::buffered", "none": "responses::flags::none",
        "cd": "offsetof(fux::ipc::msgmem,cd)", "replyq": "offsetof(fux::ipc::msgmem,replyq)", "cat": "offsetof(fux::ipc::msgmem,cat)",
        "rval": "offsetof(fux::ipc::msgmem,rval)", "rcode": "offsetof(fux::ipc::msgmem,rcode)", "mflags": "offsetof(fux::ipc::msgmem,flags)",
        "gttid": "offsetof(fux::ipc::msgmem,gttid)", "svc": "offsetof(fux::ipc::msgmem,servicename)", "svclen": "XATMI_SERVICE_NAME_LENGTH",
        "msgmem": "sizeof(fux::ipc::msgmem)", "unblock": "fux::ipc::unblock", "badgttid": "fux::bad_gttid", "gsz": "sizeof(fux::gttid)",
        "second": "__builtin_offsetof(std::pair<const int, responses::response>, second)"})


def node(k):
    return z3.ZeroExt(32, k) << SHIFT


class World(Client):
    """client object whose descriptor table is the finite map (IN, status, token); MSGS: field values of message values"""

    def __init__(self):
        Client.__init__(self)
        self.M = mlay()
        self.E = Region("calls", None, kind="heap")
        self.end = bv(1 << 45)
        self.MSGS = Region("messages", None, kind="heap")
        self.R = None

    def setup(self, st, responses_only=False):
        Client.setup(self, st)
        if responses_only:
            self.R, self.roff = Region("responses", self.M["resp"]), 0
        else:
            self.R, self.roff = self.C, self.L["cds"]
        st.ghost["in"] = self.in0 = z3.Array("in0_%d" % id(self), z3.BitVecSort(32), z3.BoolSort())
        st.ghost["size"] = self.size0 = iv("ncalls", 64)
        self.seq0 = iv("seq")
        st.wr(self.R, bv(self.roff + self.M["seq"]), 4, self.seq0)
        st.assume(z3.And(self.seq0 >= 0, self.seq0 < 2**31 - 1, z3.ULE(self.size0, 1025)))
        self.J = iv("J")                       # any descriptor
        for k in (self.J,):
            self.wf(st, k)
        st.ghost["s0"] = None

    def wf(self, st, k):
        """entries have one of the two states; 0 is never a descriptor; a reply that is kept is a reply to its descriptor"""
        st.assume(z3.Implies(z3.Select(st.ghost["in"], k), z3.And(k > 0, z3.Or(self.status(st, k) == self.M["none"], self.status(st, k) == self.M["buffered"]))))
        st.assume(z3.Implies(z3.Select(st.ghost["in"], k), st.ghost["size"] != 0))
        t = self.token(st, k)
        st.assume(z3.Implies(z3.And(z3.Select(st.ghost["in"], k), self.status(st, k) == self.M["buffered"]),
                             z3.And(z3.ULE(t, 1 << 40), self.fld(st, t, "cd", 4) == k, self.fld(st, t, "cat", 1) != self.M["unblock"])))

    def seq(self, st):
        return st.rd(self.R, bv(self.roff + self.M["seq"]), 4)

    def status(self, st, k):
        return st.rd(self.E, node(k) + self.M["second"] + self.M["status"], 4)

    def token(self, st, k):
        return st.rd(self.E, node(k) + self.M["second"] + self.M["res"], 8)

    def has(self, st, k):
        return z3.Select(st.ghost["in"], k)

    def fld(self, st, tok, name, n):
        return st.rd(self.MSGS, (tok << 8) + self.M[name], n)

    # ---- the standard library
    def rules(self):
        E, M = self.E, self.M

        def key(st, p):
            return st.rd(p.r, p.off, 4)

        def keyof(off):
            return z3.Extract(31, 0, z3.LShR(off, SHIFT))

        def it_result(ex, st, args, p):
            # iterators are returned by value: a single pointer
            return p

        def find(ex, st, args, ins):
            k = key(st, args[1])
            s2 = st.fork()
            st.assume(self.has(st, k))
            s2.assume(z3.Not(self.has(s2, k)))
            self.wf(st, k)
            st.assume(st.rd(E, node(k), 4) == k)
            return [(st, Ptr(E, node(k))), (s2, Ptr(E, self.end))]

        def end(ex, st, args, ins):
            return Ptr(E, self.end)

        def begin(ex, st, args, ins):
            s2 = st.fork()
            k = fresh("first", 32)
            st.assume(z3.And(self.has(st, k), st.ghost["size"] != 0))
            st.assume(z3.Implies(self.has(st, self.J), self.J >= k))
            self.wf(st, k)
            st.assume(st.rd(E, node(k), 4) == k)
            s2.assume(z3.And(s2.ghost["size"] == 0, z3.Not(self.has(s2, self.J))))
            return [(st, Ptr(E, node(k))), (s2, Ptr(E, self.end))]

        def incr(ex, st, args, ins):
            pit = args[0]
            cur = st.rd(pit.r, pit.off, 8, True)
            ex.assert_(st, z3.And(z3.BoolVal(cur.r is E), cur.off != self.end), "iterator is not advanced past the end", ins.dbg)
            k = keyof(cur.off)
            s2 = st.fork()
            n = fresh("next", 32)
            st.assume(z3.And(self.has(st, n), n > k, z3.Implies(self.has(st, self.J), z3.Or(self.J <= k, self.J >= n))))
            self.wf(st, n)
            st.assume(st.rd(E, node(n), 4) == n)
            st.wr(pit.r, pit.off, 8, Ptr(E, node(n)))
            s2.assume(z3.Implies(self.has(s2, self.J), self.J <= k))
            s2.wr(pit.r, pit.off, 8, Ptr(E, self.end))
            return [(st, pit), (s2, pit)]

        def deref(ex, st, args, ins):
            cur = st.rd(args[0].r, args[0].off, 8, True)
            ex.assert_(st, z3.And(z3.BoolVal(cur.r is E), cur.off != self.end), "iterator is not past the end", ins.dbg)
            k = keyof(cur.off)
            st.assume(z3.Implies(cur.off == node(k), st.rd(E, cur.off, 4) == k))
            self.wf(st, k)
            return cur

        def itcmp(neg):
            def h(ex, st, args, ins):
                a, b = (st.rd(p.r, p.off, 8, True) for p in args[:2])
                e = z3.BoolVal(a.r is b.r) if a.r is not E else a.off == b.off
                return simp(z3.Not(e) if neg else e)
            return h

        def index(ex, st, args, ins):
            k = key(st, args[1])
            s2 = st.fork()
            st.assume(self.has(st, k))
            self.wf(st, k)
            s2.assume(z3.Not(self.has(s2, k)))
            s2.ghost["in"] = z3.Store(s2.ghost["in"], k, z3.BoolVal(True))
            s2.ghost["size"] = s2.ghost["size"] + 1
            for s in (st, s2):
                s.assume(s.rd(E, node(k), 4) == k)
            o = node(k) + M["second"]
            s2.wr(E, o + M["status"], 4, bv(0, 32))
            s2.wr(E, o + M["res"], 8, fresh("emptymsg", 64))
            return [(st, Ptr(E, o)), (s2, Ptr(E, o))]

        def erase_key(st, k):
            st.ghost["in"] = z3.Store(st.ghost["in"], k, z3.BoolVal(False))
            st.ghost["size"] = st.ghost["size"] - 1

        def erase(ex, st, args, ins):
            cur = args[1]
            if cur.r.kind == "stack":
                cur = st.rd(cur.r, cur.off, 8, True)
            ex.assert_(st, z3.And(z3.BoolVal(cur.r is E), cur.off != self.end), "erased element exists", ins.dbg)
            k = keyof(cur.off)
            ex.assert_(st, self.has(st, k), "erased element exists", ins.dbg)
            erase_key(st, k)
            return Ptr(E, self.end)

        def erase_by_key(ex, st, args, ins):
            k = key(st, args[1])
            s2 = st.fork()
            st.assume(self.has(st, k))
            s2.assume(z3.Not(self.has(s2, k)))
            erase_key(st, k)
            return [(st, bv(1)), (s2, bv(0))]

        def count(ex, st, args, ins):
            return z3.If(self.has(st, key(st, args[1])), bv(1), bv(0))

        def at(ex, st, args, ins):
            k = key(st, args[1])
            s2 = st.fork()
            st.assume(self.has(st, k))
            self.wf(st, k)
            s2.assume(z3.Not(self.has(s2, k)))
            return [(st, Ptr(E, node(k) + M["second"])), (s2, Exc("_ZTISt12out_of_range", Ptr(exc_obj())))]

        # ---- messages are values
        def msg_new(ex, st, args, ins):
            st.wr(args[0].r, args[0].off, 8, fresh("emptymsg", 64))

        def msg_copy(ex, st, args, ins):
            d, s = args[:2]
            st.wr(d.r, d.off, 8, st.rd(s.r, s.off, 8))
            return d

        def msg_move(ex, st, args, ins):
            d, s = args[:2]
            t = st.rd(s.r, s.off, 8)
            st.wr(s.r, s.off, 8, fresh("movedmsg", 64))
            st.wr(d.r, d.off, 8, t)
            return d

        def msg_arrow(ex, st, args, ins):
            return Ptr(self.MSGS, st.rd(args[0].r, args[0].off, 8) << 8)
        MSG = r"fux::ipc::msg::"
        return Client.rules(self) + [
            (rx(MAP + r"::find\(int const&\)( const)?"), find), (rx(MAP + r"::c?end\(\)( const)?"), end), (rx(MAP + r"::c?begin\(\)( const)?"), begin),
            (rx(MAP + r"::operator\[\]\(int (const)?&&?\)"), index), (rx(MAP + r"::size\(\) const"), lambda ex, st, a, i: st.ghost["size"]),
            (rx(MAP + r"::empty\(\) const"), lambda ex, st, a, i: st.ghost["size"] == 0), (rx(MAP + r"::count\(int const&\) const"), count),
            (rx(MAP + r"::erase(\[abi:cxx11\])?\(std::_Rb_tree_.*\)"), erase), (rx(MAP + r"::erase\(int const&\)"), erase_by_key), (rx(MAP + r"::at\(int const&\)( const)?"), at),
            (rx(IT + r"::operator\+\+\(\)"), incr), (rx(IT + r"::operator(\*|->)\(\) const"), deref),
            (rx(IT + r"::_Rb_tree_const_iterator\(.*\)"), lambda ex, st, a, i: st.wr(a[0].r, a[0].off, 8, st.rd(a[1].r, a[1].off, 8, True))),
            (rx(r"std::operator==\(" + IT + r" const&, " + IT + r" const&\)"), itcmp(False)), (rx(r"std::operator!=\(" + IT + r" const&, " + IT + r" const&\)"), itcmp(True)),
            (rx(MSG + r"msg\(\)"), msg_new), (rx(MSG + r"msg\(fux::ipc::msg const&\)|" + MSG + r"operator=\(fux::ipc::msg const&\)"), msg_copy),
            (rx(MSG + r"msg\(fux::ipc::msg&&\)|" + MSG + r"operator=\(fux::ipc::msg&&\)"), msg_move), (rx(MSG + r"~msg\(\)"), lambda ex, st, a, i: None),
            (rx(MSG + r"operator->\(\)|" + MSG + r"as_msgmem\(\)"), msg_arrow)]
