// model based test of the table of call descriptors
#include <climits>
#include <map>
#include <set>
#include <sstream>
#include <xatmi.h>
#include <atmi.h>
#include "ipc.h"
#include "mib.h"
#include "misc.h"
#define private public
#include "resp.h"
#undef private
#include "rp.h"
static mib *M;
mib &getmib() { return *M; }
static std::string hist;
static void h(const char *f, int a, int b) { char t[80]; snprintf(t, sizeof t, f, a, b); hist += t; if (hist.size() > 1500) hist.erase(0, 500); }
int main() {
  for (int round = 0; round < 400; round++) {
    responses r;
    std::map<int, long> m;   // descriptor -> reply (0: none)
    hist.clear();
    if (round % 2) { r.seq_ = INT_MAX - 1 - (int)rnd(1100); h(" (sequence starts at %d)", r.seq_, 0); }
    long serial = 1;
    int steps = round % 10 == 9 ? 5000 : 60;
    bool many = round % 10 == 9;
    for (int i = 0; i < steps; i++) {
      auto pick = [&] {
        if (m.empty() || rnd(6) == 0) return (int)(rnd(2) ? rnd(20) : rng());
        auto it = m.begin();
        std::advance(it, rnd(m.size()));
        return it->first;
      };
      if (many && i % 400 == 0) { r.seq_ = (i / 400) % 3 == 0 ? INT_MAX - 1 - (int)rnd(400) : r.seq_; }
      auto op = rnd(many ? 40 : 7);
      if (op == 0 || op >= 7) {
        tperrno = 0;
        int before = r.seq_, succ = before >= INT_MAX - 1 ? 1 : before + 1;
        int cd = r.allocate();
        h(" allocate=%d", cd, 0);
        if (cd == -1) {
          if (m.size() < 1024 || tperrno != TPELIMIT) FAIL("%d outstanding: allocate fails with %d", (int)m.size(), tperrno);
          for (int k = 0; k < 900; k++) { int c = m.begin()->first; r.release(c); m.erase(c); }
          continue;
        }
        if (cd <= 0) FAIL("allocate returned %d after:%s", cd, hist.c_str());
        if (m.count(cd)) FAIL("allocate returned %d which is outstanding, after:%s", cd, hist.c_str());
        if (!m.count(succ) && cd != succ) FAIL("allocate returned %d after descriptor %d, while %d is free, after:%s", cd, before, succ, hist.c_str());
        m[cd] = 0;
        if (m.size() > 1025) FAIL("%d outstanding descriptors", (int)m.size());
      } else if (op == 1) {
        int cd = pick();
        tperrno = 0;
        int rc = r.release(cd);
        h(" release(%d)=%d", cd, rc);
        if (rc != (m.count(cd) ? 0 : -1) || (rc == -1 && tperrno != TPEBADDESC)) FAIL("release(%d)=%d, tperrno=%d, outstanding=%d after:%s", cd, rc, tperrno, (int)m.count(cd), hist.c_str());
        m.erase(cd);
      } else if (op == 2) {
        int cd = pick();
        tperrno = 0;
        int rc = r.check(cd);
        if (rc != (m.count(cd) ? 0 : -1) || (rc == -1 && tperrno != TPEBADDESC)) FAIL("check(%d)=%d, tperrno=%d, outstanding=%d after:%s", cd, rc, tperrno, (int)m.count(cd), hist.c_str());
      } else if (op == 3) {
        int cd = pick();
        if (r.is_allocated(cd) != !!m.count(cd)) FAIL("is_allocated(%d)=%d, outstanding=%d after:%s", cd, r.is_allocated(cd), (int)m.count(cd), hist.c_str());
      } else if (op == 4 && !m.empty()) {
        int cd = pick();
        if (!m.count(cd)) continue;
        fux::ipc::msg msg;
        msg->cd = cd;
        msg->rcode = ++serial;
        h(" reply(%d)#%d", cd, (int)serial);
        r.buffer(std::move(msg));
        m[cd] = serial;
      } else if (op == 5 && !m.empty()) {
        int cd = pick();
        if (!m.count(cd)) continue;
        if (r.is_buffered(cd) != (m[cd] != 0)) FAIL("is_buffered(%d)=%d after:%s", cd, r.is_buffered(cd), hist.c_str());
        if (m[cd] && (r.buffered(cd)->rcode != m[cd] || r.buffered(cd)->cd != cd)) FAIL("buffered(%d) is reply #%ld to %d instead of #%ld after:%s", cd, r.buffered(cd)->rcode, r.buffered(cd)->cd, m[cd], hist.c_str());
      } else if (op == 6) {
        int cd = r.any_buffered();
        bool any = false;
        for (auto &x : m) any |= x.second != 0;
        if (cd == -1 ? any : (!m.count(cd) || !m[cd])) FAIL("any_buffered()=%d after:%s", cd, hist.c_str());
      }
      for (auto &x : m)
        if (!r.is_allocated(x.first)) FAIL("descriptor %d is lost after:%s", x.first, hist.c_str());
        else if (!many && r.is_buffered(x.first) != (x.second != 0)) FAIL("descriptor %d %s a reply after:%s", x.first, x.second ? "lost" : "has", hist.c_str());
    }
  }
  return 0;
}
