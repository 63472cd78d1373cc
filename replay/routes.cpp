// model based test of the choice of queues; the lock of the board lets a simulated other process change it
#include <map>
#include <set>
#include <functional>
#include <vector>
#include <string>
#include <xatmi.h>
#include "ipc.h"
#define private public
#include "mib.h"
#include "svcrepo.h"
#undef private
#include "rp.h"
static int locked = 0;
static std::function<void()> other;
namespace fux::ipc {
void semlock(int, int) {
  if (locked) FAIL("the lock of the board is taken twice");
  if (other && rnd(3) == 0) other();
  locked = 1;
}
void semunlock(int, int) {
  locked = 0;
  if (other && rnd(3) == 0) other();
}
}  // namespace fux::ipc
static std::string hist;
static void H(const char *f, ...) {
  char t[400];
  va_list a;
  va_start(a, f);
  vsnprintf(t, sizeof t, f, a);
  hist += t;
  if (hist.size() > 1800) hist.erase(0, 600);
}
struct Ad { std::string svc; size_t q, s; };
int main() {
  for (int round = 0; round < 150; round++) {
    tuxconfig c = {};
    c.maxservers = 6; c.maxservices = 5; c.maxqueues = 6; c.maxgroups = 3; c.maxaccessers = 1;
    mib m(c, fux::mib::in_heap());
    hist.clear();
    int ns = 1 + rnd(6);
    for (int i = 0; i < ns; i++) {
      auto s = m.make_server(i, rnd(3), "s", "", rnd(3) ? "q" + std::to_string(i) : "shared");
      m.queues().at(m.servers().at(s).rqaddr).msqid = 100 + m.servers().at(s).rqaddr;
    }
    static const char *names[] = {"A", "B", "AB", "a", "unknown"};
    std::vector<Ad> ads;
    std::set<std::string> known;
    bool changed = false;
    auto change = [&] {
      auto n = names[rnd(4)];
      size_t s = rnd(ns), q = m.servers().at(s).rqaddr;
      for (size_t i = 0; i < ads.size(); i++)
        if (ads[i].svc == n && ads[i].q == q && ads[i].s == s) {
          m.unadvertise(n, q, s);
          ads.erase(ads.begin() + i);
          H(" unadvertise(%s queue %zu server %zu)", n, q, s);
          changed = true;
          return;
        }
      m.advertise(n, q, s);
      known.insert(n);
      ads.push_back({n, q, s});
      H(" advertise(%s queue %zu server %zu group %d)", n, q, s, m.servers().at(s).grpno);
      changed = true;
    };
    service_repository r(m);
    char buf[40];
    for (int step = 0; step < 80; step++) {
      if (rnd(3) == 0) change();
      strcpy(buf, names[rnd(5)]);
      std::string n = buf;
      int g = rnd(2) ? -1 : (int)rnd(4);
      other = rnd(3) ? nullptr : std::function<void()>(change);
      auto now = [&] { std::multiset<int> w; for (auto &a : ads) if (a.svc == n && (g == -1 || m.servers().at(a.s).grpno == g)) w.insert(100 + a.q); return w; };
      if (other) {     // the board may change during the call: only what is known before counts afterwards
        try { r.get_queue(g, buf); } catch (const std::out_of_range &) {}
        other = nullptr;
        H(" [get_queue(%d %s)]", g, buf);
      }
      auto want = now();
      size_t k = g == -1 ? std::max<size_t>(1, want.size()) : 2;
      std::multiset<int> got;
      for (size_t i = 0; i < k; i++) {
        int q = -1;
        bool ok = true;
        try { q = r.get_queue(g, buf); } catch (const std::out_of_range &) { ok = false; }
        H(" get_queue(%d %s)=%d", g, buf, q);
        if (ok != !want.empty()) FAIL("get_queue(%d, %s) %s while %d queues are advertised, after:%s", g, buf, ok ? "succeeds" : "fails", (int)want.size(), hist.c_str());
        if (ok && !want.count(q)) FAIL("get_queue(%d, %s) returns queue %d where the service is not advertised, after:%s", g, buf, q, hist.c_str());
        got.insert(q);
        memset(buf, 'z', 8);
        strcpy(buf, n.c_str());
        if (locked) FAIL("the lock of the board is kept, after:%s", hist.c_str());
      }
      if (g == -1 && !want.empty() && got != want) FAIL("%d requests to %s do not take turns over its %d queues, after:%s", (int)k, buf, (int)want.size(), hist.c_str());
      strcpy(buf, "gone");
    }
    free(m.mem_);
  }
  return 0;
}
