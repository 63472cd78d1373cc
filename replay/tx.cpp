// model based test of the TX functions of one thread: scripted resource manager, scripted transaction managers
#include <atmi.h>
#include <fml32.h>
#include <tpadm.h>
#include <tx.h>
#include <xa.h>
#include <xatmi.h>
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include "fux.h"
#include "ipc.h"
#include "mib.h"
#include "misc.h"
#include "trx.h"
#include "rp.h"

static mib *M;
mib &getmib() { return *M; }
namespace fux::tx { extern size_t grpidx; }
namespace fux::glob { extern xa_switch_t *xasw; }
extern "C" void TM(TPSVCINFO *);

static std::string key(const XID &x) { return std::to_string(x.formatID) + "." + std::to_string(x.gtrid_length) + "." + std::to_string(x.bqual_length) + "." + hex(x.data, x.gtrid_length >= 0 && x.bqual_length >= 0 && x.gtrid_length + x.bqual_length <= 128 ? x.gtrid_length + x.bqual_length : 0); }
static std::vector<std::string> ev;   // what the resource manager was asked
static int next_rc;
static int rmcall(const char *n, XID *x, int rmid, long flags) {
  ev.push_back(std::string(n) + " " + key(*x) + " rm" + std::to_string(rmid) + " flags" + std::to_string(flags));
  int r = next_rc;
  next_rc = XA_OK;
  return r;
}
static int rm_open(char *i, int rmid, long f) { ev.push_back(std::string("open [") + i + "] rm" + std::to_string(rmid) + " flags" + std::to_string(f)); int r = next_rc; next_rc = 0; return r; }
static int rm_close(char *i, int rmid, long f) { ev.push_back(std::string("close [") + i + "] rm" + std::to_string(rmid) + " flags" + std::to_string(f)); int r = next_rc; next_rc = 0; return r; }
static int second_rc;   // for the start of a chained transaction
static int rm_start(XID *x, int rmid, long f) { return rmcall("start", x, rmid, f); }
static int rm_end(XID *x, int rmid, long f) { int r = rmcall("end", x, rmid, f); next_rc = second_rc; second_rc = 0; return r; }
static int rm_prepare(XID *x, int rmid, long f) { return rmcall("prepare", x, rmid, f); }
static int rm_commit(XID *x, int rmid, long f) { return rmcall("commit", x, rmid, f); }
static int rm_rollback(XID *x, int rmid, long f) { return rmcall("rollback", x, rmid, f); }
static xa_switch_t sw;

// transaction managers
struct Call { long func; std::string xid; long rmid; int group; int cd; bool waited; };
static std::vector<Call> calls;
static std::map<int, int> script;   // group -> result of prepare; 1000: call fails, 1001: reply fails, +2000: times out first
static int cds;
static std::string broken;
int tpacall_group(int grpno, char *svc, char *data, long len, long flags) {
  Call c;
  auto b = (FBFR32 *)data;
  char xid[600];
  FLDLEN32 l = sizeof xid;
  long f = 0;
  if (strcmp(svc, ".TM") || flags != (TPNOTIME | TPNOTRAN)) broken = "service or flags of a transaction manager call";
  CFget32(b, TA_XAFUNC, 0, (char *)&c.func, nullptr, FLD_LONG);
  CFget32(b, TA_RMID, 0, (char *)&c.rmid, nullptr, FLD_LONG);
  CFget32(b, TA_XID, 0, xid, &l, FLD_STRING);
  if (CFget32(b, TA_FLAGS, 0, (char *)&f, nullptr, FLD_LONG) == -1 || f != 0) broken = "flags of a transaction manager call";
  c.xid = xid;
  c.group = grpno;
  if (c.rmid != grpno) broken = "resource manager of a transaction manager call";
  for (auto &o : calls) if (o.func == 0 && c.func != 0 && o.cd != -1 && !o.waited) broken = "second phase before all votes";
  bool fails = script[grpno] % 2000 == 1000;
  c.cd = fails ? -1 : ++cds;
  c.waited = false;
  calls.push_back(c);
  if (fails) fux::atmi::set_tperrno(TPENOENT, "x");
  return c.cd;
}
int tpgetrply(int *cd, char **data, long *len, long flags) {
  for (auto &c : calls) {
    if (c.cd == -1 || c.cd != *cd) continue;
    if (c.waited) broken = "reply fetched twice";
    int s = script[c.group];
    if (s >= 1900) { script[c.group] = s - 2000; fux::atmi::set_tperrno(TPETIME, "t"); return -1; }
    c.waited = true;
    if (s == 1001) { fux::atmi::set_tperrno(TPESVCFAIL, "f"); return -1; }
    long r = c.func == 0 ? s : XA_OK;
    auto b = (FBFR32 *)*data;
    Fchg32(b, TA_XARET, 0, (char *)&r, 0);
    return 0;
  }
  broken = "reply of an unknown call fetched";
  fux::atmi::set_tperrno(TPEBADDESC, "b");
  return -1;
}
struct Returned { int rval; long rcode; char *data; };
static Returned returned;
static bool didreturn;
void tpreturn(int rval, long rcode, char *data, long len, long flags) { didreturn = true; returned = {rval, rcode, data}; }

static std::vector<std::string> history;
static std::string hist() { std::string s; for (auto &x : history) s += "\n  " + x; return s; }
#define BAD(...) do { char b_[2000]; snprintf(b_, sizeof b_, __VA_ARGS__); FAIL("%s; after:%s", b_, hist().c_str()); } while (0)
static std::string evs() { std::string s; for (auto &x : ev) s += x + "; "; return s; }

struct Model {
  bool open = false, trx = false, chained = false;
  XID xid;
  long when = 0, timeout = 0;
  fux::gttid gttid = fux::bad_gttid;
};
static const int RC[] = {XAER_RMERR, XAER_INVAL, XAER_PROTO, XAER_RMFAIL, XAER_DUPID, XAER_OUTSIDE, XAER_NOTA, 99};
static int start_err(int x) { return x == XAER_RMERR || x == XAER_DUPID || x == XAER_PROTO ? TX_ERROR : x == XAER_OUTSIDE ? TX_OUTSIDE : TX_FAIL; }
static int open_err(int x) { return x == XAER_RMERR ? TX_ERROR : TX_FAIL; }
static std::string xstr(const char *n, const XID &x, long f) { return std::string(n) + " " + key(x) + " rm" + std::to_string(fux::tx::grpno) + " flags" + std::to_string(f); }
static transaction_table &T() { return M->transactions(); }
static std::map<std::string, std::set<int>> table() {
  std::map<std::string, std::set<int>> r;
  for (size_t i = 0; i < T().len; i++) if (T()[i].xid.formatID != -1) {
    auto &g = r[key(T()[i].xid)];
    for (size_t k = 0; k < T().max_groups; k++) if (T().has_joined(i, k)) g.insert(k);
  }
  return r;
}
static void same_ctx(Model &m) {
  TXINFO i;
  memset(&i, 0x77, sizeof i);
  int r = tx_info(&i);
  if (!m.open) { if (r != TX_PROTOCOL_ERROR) BAD("tx_info before tx_open returned %d", r); return; }
  if (r != (m.trx ? 1 : 0)) BAD("tx_info returned %d, %sin transaction", r, m.trx ? "" : "not ");
  if (m.trx && key(i.xid) != key(m.xid)) BAD("tx_info reports XID %s instead of %s", key(i.xid).c_str(), key(m.xid).c_str());
  if (!m.trx && i.xid.formatID != -1) BAD("tx_info reports a XID outside of a transaction");
  if (i.when_return != m.when || i.transaction_control != (m.chained ? TX_CHAINED : TX_UNCHAINED) || i.transaction_timeout != m.timeout) BAD("tx_info reports characteristics %ld,%ld,%ld instead of %ld,%d,%ld", (long)i.when_return, (long)i.transaction_control, (long)i.transaction_timeout, m.when, m.chained, m.timeout);
  if (fux::tx::transactional() != m.trx) BAD("transactional() is %d", fux::tx::transactional());
  if (fux::tx::gttid() != m.gttid) BAD("gttid() is %d instead of %d", (int)fux::tx::gttid(), (int)m.gttid);
}
static const char *OPENINFO;
static void scenario() {
  ev.clear();
  history.clear();
  Model m;
  std::vector<std::pair<XID, fux::gttid>> suspended;
  std::map<std::string, std::set<int>> tab = table();
  fux::tx::grpno = rnd(8) ? 10 * (1 + rnd(3)) : 0;
  fux::tx::grpidx = fux::tx::grpno ? 99 : 0;
  int mode = rnd(3);
  if (fux::tx::gttid() != fux::bad_gttid || fux::tx::transactional()) FAIL("a new thread is in a transaction");
  if (fux::tx::grpidx != (fux::tx::grpno ? fux::tx::grpno / 10 - 1 : 0)) FAIL("own group %d is number %zu", fux::tx::grpno, fux::tx::grpidx);
  auto adopt_new = [&](const char *what) {   // a begin happened: find the new identifier in the table
    auto now = table();
    std::string k;
    for (auto &x : now) if (!tab.count(x.first)) { if (!k.empty()) BAD("%s: more than one new transaction", what); k = x.first; }
    if (k.empty()) BAD("%s: no new transaction in the table", what);
    if (now[k] != std::set<int>{(int)fux::tx::grpidx}) BAD("%s: participants of the new transaction are not just the own group", what);
    for (size_t i = 0; i < T().len; i++) if (key(T()[i].xid) == k) { m.xid = T()[i].xid; m.gttid = i; }
    if (m.xid.formatID != 1 || m.xid.gtrid_length != 8 || m.xid.bqual_length != 1) BAD("%s: identifier %s", what, k.c_str());
    tab[k] = now[k];
  };
  for (int step = 0; step < 25; step++) {
    ev.clear();
    calls.clear();
    broken.clear();
    int fail = rnd(6) == 0 ? RC[rnd(8)] : XA_OK;
    next_rc = fail;
    second_rc = 0;
    int op = rnd(14);
    if (step == 0 && rnd(3)) op = 0;
    std::vector<std::string> want;
    int r = 12345, e = 12345;
    bool stop = false;
    auto name = [&](const char *n) { history.push_back(std::string(n) + (fail ? " (RM returns " + std::to_string(fail) + ")" : "")); };
    bool idle = m.open && !m.trx;
    switch (op) {
      case 0: {
        bool mism = fux::tx::grpno == 20, own = fux::tx::grpno == 10;
        name("tx_open");
        r = tx_open();
        if (mism) { e = TX_ERROR; break; }
        want.push_back(std::string("open [") + (own ? "a=b" : "") + "] rm" + std::to_string(fux::tx::grpno) + " flags0");
        e = fail ? open_err(fail) : TX_OK;
        if (e == TX_OK && !m.open) { m = Model(); m.open = true; }
        break;
      }
      case 1:
        if (rnd(3)) continue;
        name("tx_close");
        r = tx_close();
        if (m.trx) { e = TX_PROTOCOL_ERROR; break; }
        want.push_back(std::string("close [") + (fux::tx::grpno == 10 ? "bye" : "") + "] rm" + std::to_string(fux::tx::grpno) + " flags0");
        e = fail ? open_err(fail) : TX_OK;
        if (e == TX_OK) m.open = false;
        break;
      case 2: case 3: {
        bool full = idle && rnd(10) == 0;
        size_t len = T().len, size = T().size;
        if (full) { bool any = false; for (size_t i = 0; i < T().len; i++) any |= T()[i].xid.formatID == -1; if (any) full = false; else T().size = T().len; }
        name(full ? "tx_begin (table full)" : "tx_begin");
        r = tx_begin();
        T().size = size;
        if (!idle) { e = TX_PROTOCOL_ERROR; break; }
        if (full) { if (r == 0 || T().len != len) BAD("tx_begin with a full table returned %d", r); e = TX_ERROR; break; }
        e = fail ? start_err(fail) : TX_OK;
        if (e == TX_OK) { adopt_new("tx_begin"); m.trx = true; want.push_back(xstr("start", m.xid, 0)); }
        else { if (ev.size() != 1 || ev[0].find("start ") != 0) BAD("tx_begin asked the resource manager: %s", evs().c_str()); want = ev; }
        break;
      }
      case 4: { long v = rnd(4) - 1; if (rnd(5) == 0) v = (1L << 32) + rnd(2); history.push_back("tx_set_commit_return " + std::to_string(v)); r = tx_set_commit_return(v);
        e = !m.open ? TX_PROTOCOL_ERROR : v == TX_COMMIT_COMPLETED || v == TX_COMMIT_DECISION_LOGGED ? TX_OK : TX_EINVAL; if (e == TX_OK) m.when = v; break; }
      case 5: { long v = rnd(4) - 1; if (rnd(5) == 0) v = (1L << 32) + rnd(2); history.push_back("tx_set_transaction_control " + std::to_string(v)); r = tx_set_transaction_control(v);
        e = !m.open ? TX_PROTOCOL_ERROR : v == TX_UNCHAINED || v == TX_CHAINED ? TX_OK : TX_EINVAL; if (e == TX_OK) m.chained = v == TX_CHAINED; break; }
      case 6: { long v = (long)rnd(40) - 10; if (rnd(5) == 0) v = (long)rnd(~0ul); history.push_back("tx_set_transaction_timeout " + std::to_string(v)); r = tx_set_transaction_timeout(v);
        e = !m.open ? TX_PROTOCOL_ERROR : v >= 0 ? TX_OK : TX_EINVAL; if (e == TX_OK) m.timeout = v; break; }
      case 7: {
        TXINFO i;
        memset(&i, 0, sizeof i);
        bool null = rnd(3) == 0;
        name(null ? "suspend for a call" : "suspend");
        if (null) { fux::tx_suspend(); r = e = 0; } else r = _tx_suspend(&i);
        if (!m.trx) { if (!null) e = TX_PROTOCOL_ERROR; break; }
        want.push_back(xstr("end", m.xid, TMSUSPEND));
        if (!null) e = fail ? TX_FAIL : TX_OK;
        if (fail) { stop = true; break; }
        if (null) {   // the matching resume follows
          if (fux::tx::gttid() != m.gttid) BAD("a call within a transaction loses the table entry");
          if (ev != want) BAD("resource manager was asked: %s", evs().c_str());
          ev.clear(); want.clear();
          name("resume after a call");
          fux::tx_resume();
          want.push_back(xstr("start", m.xid, TMRESUME));
          break;
        }
        if (key(i.xid) != key(m.xid)) BAD("suspend returned %s instead of %s", key(i.xid).c_str(), key(m.xid).c_str());
        suspended.push_back({m.xid, m.gttid});
        m.trx = false; m.gttid = fux::bad_gttid;
        break;
      }
      case 8: {
        if (suspended.empty()) continue;
        size_t k = rnd(suspended.size());
        TXINFO i;
        memset(&i, 0, sizeof i);
        i.xid = suspended[k].first;
        name(("resume " + key(i.xid)).c_str());
        r = _tx_resume(&i);
        if (!idle) { e = TX_PROTOCOL_ERROR; break; }
        want.push_back(xstr("start", i.xid, TMRESUME));
        e = fail ? start_err(fail) : TX_OK;
        if (e == TX_OK) { m.trx = true; m.xid = i.xid; m.gttid = suspended[k].second; suspended.erase(suspended.begin() + k); }
        break;
      }
      case 9: {
        XID x;
        memset(&x, 0, sizeof x);
        x.formatID = 1; x.gtrid_length = 8; x.bqual_length = 1;
        for (int i = 0; i < 8; i++) x.data[i] = rnd(256);
        auto g = T().start(x, 3);
        tab[key(x)] = {3, (int)fux::tx::grpidx};
        name(("join " + key(x)).c_str());
        fux::tx_join(g);
        r = e = 0;
        if (idle) {
          want.push_back(xstr("start", x, TMJOIN));
          if (!fail) { m.trx = true; m.xid = x; m.gttid = g; }
        }
        break;
      }
      case 10: {
        bool ok = rnd(2);
        second_rc = rnd(3) == 0 ? RC[rnd(8)] : 0;
        name(ok ? "end(success)" : "end(failure)");
        fux::tx_end(ok);
        r = e = 0;
        if (!m.trx) break;
        want.push_back(xstr("end", m.xid, ok ? TMSUCCESS : TMFAIL));
        if (fail) { stop = true; break; }
        m.trx = false; m.gttid = fux::bad_gttid;
        if (m.chained) {
          if (ev.size() == 2 && ev[1].find("start ") == 0 && (next_rc == 0)) {
            if (fux::tx::transactional()) { adopt_new("chained"); m.trx = true; }
            want.push_back(m.trx ? xstr("start", m.xid, 0) : ev[1]);
          } else BAD("end in chained mode asked: %s", evs().c_str());
        }
        break;
      }
      default: {
        bool commit = op == 11 || rnd(2);
        std::set<int> groups;
        script.clear();
        if (m.trx) {
          for (int g = 0; g < 4; g++) if (rnd(2) && g != 3) T().join(m.gttid, g), tab[key(m.xid)].insert(g);
          groups = tab[key(m.xid)];
        }
        std::string desc = commit ? "tx_commit" : "tx_rollback";
        int bad = 0;
        std::set<int> rdonly;
        std::vector<int> failing;
        for (int g : groups) {
          int no = g == 0 ? 10 : g == 1 ? 20 : g == 2 ? 30 : 40;
          int k = rnd(mode == 0 ? 4 : 12);
          int s = k == 0 ? XA_RDONLY : k == 1 ? (int[]){XA_RBROLLBACK, XAER_RMERR, XA_HEURMIX, XAER_NOTA, 1000, 1001, 5}[rnd(7)] : XA_OK;
          if (s == XA_RDONLY) rdonly.insert(no);
          else if (s) bad++;
          desc += " g" + std::to_string(no) + ":" + std::to_string(s);
          script[no] = rnd(5) == 0 && s != 1000 ? s + 2000 : s;
        }
        second_rc = rnd(3) == 0 ? RC[rnd(8)] : 0;
        int src = second_rc;
        if (src && m.chained) desc += " (next start: " + std::to_string(src) + ")";
        name(desc.c_str());
        r = commit ? tx_commit() : tx_rollback();
        if (!m.trx) { e = TX_PROTOCOL_ERROR; break; }
        want.push_back(xstr("end", m.xid, TMSUCCESS));
        if (fail) { e = TX_FAIL; stop = true; if (!calls.empty()) BAD("branches were asked after a failing end"); break; }
        std::string x = fux::to_string(&m.xid);
        std::set<int> all, first, second;
        for (int g : groups) all.insert(g == 0 ? 10 : g == 1 ? 20 : g == 2 ? 30 : 40);
        std::set<int> rest = all;
        for (int g : rdonly) rest.erase(g);
        long f2 = commit && !bad ? 1 : 2;
        for (auto &c : calls) {
          if (c.xid != x) BAD("transaction manager asked about %s instead of %s", c.xid.c_str(), x.c_str());
          auto &s = commit && c.func == 0 ? first : second;
          if (c.func != 0 && c.func != f2) BAD("transaction managers were asked for %ld although the decision is %ld (1 commit, 2 rollback)", c.func, f2);
          if (!commit && c.func == 0) BAD("prepare when rolling back");
          if (!s.insert(c.group).second) BAD("group %d was asked twice", c.group);
          if (c.cd != -1 && !c.waited) BAD("outcome of group %d was not awaited", c.group);
        }
        if (commit && first != all) BAD("prepare did not go to exactly the participants");
        if (second != (commit ? rest : all)) BAD("second phase did not go to exactly the participants that voted for it");
        if (!broken.empty()) BAD("%s", broken.c_str());
        e = commit && bad ? TX_ROLLBACK : TX_OK;
        tab.erase(key(m.xid));
        m.trx = false; m.gttid = fux::bad_gttid;
        if (m.chained) {
          if (src) { e += TX_NO_BEGIN; if (ev.size() != 2 || ev[1].find("start ") != 0) BAD("chained transaction: %s", evs().c_str()); want.push_back(ev[1]); }
          else { adopt_new("chained"); m.trx = true; want.push_back(xstr("start", m.xid, 0)); }
        }
      }
    }
    if (r != e) BAD("returned %d instead of %d", r, e);
    if (ev != want) { std::string w; for (auto &x : want) w += x + "; "; BAD("resource manager was asked [%s] instead of [%s]", evs().c_str(), w.c_str()); }
    if (table() != tab) { std::string s; for (auto &x : table()) if (!tab.count(x.first)) s += " unexpected " + x.first; for (auto &x : tab) if (!table().count(x.first)) s += " missing " + x.first; BAD("transaction table:%s", s.c_str()); }
    if (stop) return;
    same_ctx(m);
  }
}
static void managers() {
  for (int k = 0; k < 300; k++) {
    ev.clear();
    XID x;
    memset(&x, 0, sizeof x);
    x.formatID = rnd(3) ? 1 : rnd(100000); x.gtrid_length = 1 + rnd(64); x.bqual_length = rnd(3) ? rnd(65) : 0;
    for (int i = 0; i < x.gtrid_length + x.bqual_length; i++) x.data[i] = rnd(256);
    long func = rnd(5) - 1, rmid = rnd(1000), flags = rnd(2) ? 0 : TMNOWAIT;
    if (rnd(6) == 0) func = (1L << 32) + rnd(3);
    next_rc = rnd(2) ? XA_OK : RC[rnd(8)];
    int ret = next_rc;
    auto b = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 4096);
    std::string s = fux::to_string(&x);
    Fchg32(b, TA_XAFUNC, 0, (char *)&func, 0);
    Fchg32(b, TA_XID, 0, (char *)s.c_str(), 0);
    Fchg32(b, TA_RMID, 0, (char *)&rmid, 0);
    Fchg32(b, TA_FLAGS, 0, (char *)&flags, 0);
    TPSVCINFO svc;
    memset(&svc, 0, sizeof svc);
    svc.data = (char *)b;
    svc.len = 0;
    returned = {};
    TM(&svc);
    long got = -77;
    if (!returned.data || returned.rval != TPSUCCESS || Fget32((FBFR32 *)returned.data, TA_XARET, 0, (char *)&got, nullptr) == -1) FAIL("TM(%ld) did not reply with a result", func);
    const char *n[] = {"prepare", "commit", "rollback"};
    if (func >= 0 && func < 3) {
      std::string w = std::string(n[func]) + " " + key(x) + " rm" + std::to_string(rmid) + " flags" + std::to_string(flags);
      if (ev.size() != 1 || ev[0] != w) FAIL("TM(%ld) for %s asked the resource manager [%s] instead of [%s]", func, s.c_str(), evs().c_str(), w.c_str());
    } else { ret = XAER_INVAL; if (!ev.empty()) FAIL("TM(%ld) asked the resource manager [%s]", func, evs().c_str()); }
    if (got != ret) FAIL("TM(%ld) replied %ld when the resource manager says %d", func, got, ret);
  }
}
int main() {
  setenv("ULOGPFX", "ULOG", 1);
  tuxconfig cfg;
  memset(&cfg, 0, sizeof cfg);
  cfg.maxservers = 4; cfg.maxservices = 4; cfg.maxqueues = 4; cfg.maxgroups = 4; cfg.maxaccessers = 4;
  strcpy(sw.name, "mock");
  sw.xa_open_entry = rm_open; sw.xa_close_entry = rm_close; sw.xa_start_entry = rm_start; sw.xa_end_entry = rm_end;
  sw.xa_prepare_entry = rm_prepare; sw.xa_commit_entry = rm_commit; sw.xa_rollback_entry = rm_rollback;
  fux::glob::xasw = &sw;
  for (int round = 0; round < 3000; round++) {
    if (round % 60 == 0) {
      M = new mib(cfg, fux::mib::in_heap());
      M->make_group(10, "A", "mock:a=b", "bye", "");
      M->make_group(20, "B", "moc:a=b", "", "");
      M->make_group(30, "C", "", "", "");
      M->make_group(40, "D", round % 120 ? "mockx" : "", "", "");
    }
    for (size_t i = 0; i < T().len; i++) T().end(i);
    std::thread([] {
      try { scenario(); } catch (const std::exception &e) { FAIL("exception %s; after:%s", e.what(), hist().c_str()); }
    }).join();
  }
  managers();
  return 0;
}
