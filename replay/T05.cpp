#include <atmi.h>
#include <tx.h>
#include <xatmi.h>
#include <functional>
#include <map>
#include "misc.h"
#include "ipc.h"
#include "mib.h"
#include "trx.h"
#include "rp.h"
static std::vector<std::string> calls;
static std::map<std::string, int> res;
static long settime;
static XID cur, resumed;
static int c(const char *n) { calls.push_back(n); return res[n]; }
int tx_open() { return c("tx_open"); }
int tx_close() { return c("tx_close"); }
int tx_begin() { return c("tx_begin"); }
int tx_commit() { return c("tx_commit"); }
int tx_rollback() { return c("tx_rollback"); }
int tx_info(TXINFO *i) { if (i) memset(i, 0, sizeof *i); return c("tx_info"); }
int tx_set_commit_return(COMMIT_RETURN) { return c("tx_set_commit_return"); }
int tx_set_transaction_control(TRANSACTION_CONTROL) { return c("tx_set_transaction_control"); }
int tx_set_transaction_timeout(TRANSACTION_TIMEOUT t) { settime = t; return c("tx_set_transaction_timeout"); }
int _tx_suspend(TXINFO *i) { i->xid = cur; return c("suspend"); }
int _tx_resume(TXINFO *i) { resumed = i->xid; return c("resume"); }
namespace fux {
void tx_resume() {}
void tx_suspend() {}
void tx_end(bool) {}
void tx_join(fux::gttid) {}
namespace tx {
uint16_t grpno = 0;
size_t grpidx = 0;
fux::gttid gttid() { return fux::bad_gttid; }
bool transactional() { return false; }
}
namespace glob { xa_switch_t *xasw; }
}
extern "C" void TM(TPSVCINFO *) {}
static std::string join() { std::string s; for (auto &x : calls) s += x + " "; return s; }
static void flagsarg(const char *what, std::function<int(long)> f) {
  for (long fl : {1L, -1L, 2L, 4L, 8L, 0x20L, 1L << 31, 1L << 32, 1L << 40, 1L << 62}) {
    calls.clear();
    fux::atmi::reset_tperrno();
    int r = f(fl);
    if (r != -1 || tperrno != TPEINVAL || !calls.empty()) FAIL("%s with flags 0x%lx returned %d, tperrno %d, after calling: %s", what, fl, r, tperrno, join().c_str());
  }
}
static void chk(const char *what, const char *tx, std::function<int()> f, std::map<int, int> m, std::function<int(int)> okval) {
  for (int rc = -115; rc <= 30; rc++) {
    for (int before : {TPEABORT, 0}) {
      calls.clear();
      res.clear();
      res[tx] = rc;
      fux::atmi::set_tperrno(before, "before");
      int r = f();
      if (join() != std::string(tx) + " ") FAIL("%s called: %s", what, join().c_str());
      int ok = okval(rc);
      int e = ok >= 0 ? 0 : m.count(rc) ? m[rc] : TPESYSTEM;
      if (r != (ok >= 0 ? ok : -1) || tperrno != e) FAIL("%s when %s returns %d: result %d, tperrno %d (expected %d)", what, tx, rc, r, tperrno, e);
    }
  }
}
int main() {
  auto ok0 = [](int rc) { return rc == TX_OK ? 0 : -1; };
  std::map<int, int> base{{TX_ERROR, TPERMERR}, {TX_FAIL, TPERMERR}}, proto = base, complete;
  proto[TX_PROTOCOL_ERROR] = TPEPROTO;
  complete = proto;
  complete[TX_MIXED] = TPEHEURISTIC;
  complete[TX_HAZARD] = TPEHAZARD;
  auto with = [](std::map<int, int> m, int k, int v) { m[k] = v; return m; };
  chk("tpopen", "tx_open", [] { return tpopen(); }, base, ok0);
  chk("tpclose", "tx_close", [] { return tpclose(); }, proto, ok0);
  chk("tpgetlev", "tx_info", [] { return tpgetlev(); }, {{TX_PROTOCOL_ERROR, TPEPROTO}}, [](int rc) { return rc == 0 || rc == 1 ? rc : -1; });
  chk("tpabort", "tx_rollback", [] { return tpabort(0); }, with(complete, TX_COMMITTED, TPEPROTO), ok0);
  chk("tpcommit", "tx_commit", [] { return tpcommit(0); }, with(complete, TX_ROLLBACK, TPEABORT), ok0);
  flagsarg("tpabort", [](long f) { return tpabort(f); });
  flagsarg("tpcommit", [](long f) { return tpcommit(f); });
  flagsarg("tpbegin", [](long f) { return tpbegin(5, f); });
  for (int t = -115; t <= 30; t++)
    for (int b = -115; b <= 30; b++) {
      calls.clear();
      res["tx_set_transaction_timeout"] = t;
      res["tx_begin"] = b;
      unsigned long to = rnd(3) ? rnd(1000) : rnd(~0ul);
      int r = tpbegin(to, 0);
      int rc = t == TX_OK ? b : t;
      auto m = with(proto, TX_OUTSIDE, TPETRAN);
      int e = rc == TX_OK ? 0 : m.count(rc) ? m[rc] : TPESYSTEM;
      if (settime != (long)to) FAIL("tpbegin(%lu) set timeout %ld", to, settime);
      if (join() != (t == TX_OK ? "tx_set_transaction_timeout tx_begin " : "tx_set_transaction_timeout ")) FAIL("tpbegin called %s when setting the timeout gives %d", join().c_str(), t);
      if (r != (rc == TX_OK ? 0 : -1) || tperrno != e) FAIL("tpbegin when timeout gives %d and begin gives %d: result %d, tperrno %d (expected %d)", t, b, r, tperrno, e);
    }
  for (int rc = -115; rc <= 30; rc++)
    for (int k = 0; k < 40; k++) {
      for (size_t i = 0; i < sizeof cur; i++) ((char *)&cur)[i] = rnd(256);
      cur.gtrid_length = k == 39 ? 12 : k == 38 ? 13 : rnd(k % 2 ? 65 : 16);
      cur.bqual_length = k >= 38 ? 12 : rnd(k % 2 ? 65 : 16);
      TPTRANID tr, before;
      for (size_t i = 0; i < sizeof tr; i++) ((char *)&tr)[i] = rnd(256);
      before = tr;
      res["suspend"] = rc;
      calls.clear();
      int r = tpsuspend(&tr, 0);
      size_t used = 24 + cur.gtrid_length + cur.bqual_length;
      bool ok = rc == TX_OK && used <= sizeof tr;
      int e = ok ? 0 : rc == TX_OK ? TPEINVAL : complete.count(rc) ? complete[rc] : TPESYSTEM;
      if (join() != "suspend ") FAIL("tpsuspend called: %s", join().c_str());
      if (r != (ok ? 0 : -1) || tperrno != e) FAIL("tpsuspend when suspending gives %d, identifier of %zu bytes: result %d, tperrno %d (expected %d)", rc, used, r, tperrno, e);
      if (memcmp(&tr, &cur, ok ? used : 0)) FAIL("tpsuspend stored %s for %s", hex(&tr, used).c_str(), hex(&cur, used).c_str());
      size_t from = ok ? used : 0;
      if (memcmp((char *)&tr + from, (char *)&before + from, sizeof tr - from)) FAIL("tpsuspend (result %d) stored something else than the identifier of %zu bytes: %s", r, used, hex(&tr, sizeof tr).c_str());
      res["resume"] = rc;
      calls.clear();
      for (size_t i = 0; i < sizeof tr; i++) ((char *)&tr)[i] = rnd(256);
      r = tpresume(&tr, 0);
      e = rc == TX_OK ? 0 : complete.count(rc) ? complete[rc] : TPESYSTEM;
      if (join() != "resume ") FAIL("tpresume called: %s", join().c_str());
      if (r != (rc == TX_OK ? 0 : -1) || tperrno != e) FAIL("tpresume when resuming gives %d: result %d, tperrno %d (expected %d)", rc, r, tperrno, e);
      if (memcmp(&resumed, &tr, sizeof tr)) FAIL("tpresume resumed %s instead of %s", hex(&resumed, sizeof tr).c_str(), hex(&tr, sizeof tr).c_str());
    }
  TPTRANID tr;
  flagsarg("tpsuspend", [&](long f) { return tpsuspend(&tr, f); });
  flagsarg("tpresume", [&](long f) { return tpresume(&tr, f); });
  flagsarg("tpsuspend(null)", [&](long f) { return tpsuspend(nullptr, f % 2 ? f : 0); });
  flagsarg("tpresume(null)", [&](long f) { return tpresume(nullptr, f % 2 ? f : 0); });
  return 0;
}
