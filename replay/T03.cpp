#include <tx.h>
#include <xa.h>
#include <xatmi.h>
#include "mib.h"
#include "trx.h"
#include "rp.h"
#include <map>
#include <set>
struct Ref { std::string xid; std::set<int> groups; };
static XID mkxid(long f, int g, int b, int seed) {
  XID x;
  memset(&x, 0, sizeof x);
  x.formatID = f; x.gtrid_length = g; x.bqual_length = b;
  for (int i = 0; i < g + b; i++) x.data[i] = (char)(seed + (i == g + b - 1 ? seed / 7 : 0));
  return x;
}
static std::string key(const XID &x) { return std::to_string(x.formatID) + ":" + std::to_string(x.gtrid_length) + ":" + std::to_string(x.bqual_length) + ":" + hex(x.data, x.gtrid_length + x.bqual_length); }
int main() {
  for (int round = 0; round < 400; round++) {
    size_t n = rnd(6), g = rnd(20);
    if (round % 50 == 49) { n = 300; g = 300; }
    size_t need = transaction_table::needed(n, g);
    char *mem = (char *)malloc(need);
    memset(mem, 0xaa, need);
    auto &t = *(transaction_table *)mem;
    t.init(n, g);
    if (t.len != 0 || t.size != n || t.max_groups != g || t.entry_size < sizeof(transaction) + g || t.entry_size % alignof(transaction)) FAIL("init(%zu,%zu): len %zu size %zu groups %zu entry size %zu", n, g, t.len, t.size, t.max_groups, t.entry_size);
    std::map<size_t, Ref> ref;
    std::vector<XID> xs;
    for (int i = 0; i < 12; i++) xs.push_back(mkxid(rnd(2), rnd(4) ? rnd(3) : rnd(65), rnd(4) ? rnd(3) : rnd(65), (int)rnd(5)));
    std::string log;
    auto bad = [&](const std::string &what) { FAIL("table of %zu transactions and %zu groups, after%s: %s", n, g, log.c_str(), what.c_str()); };
    for (int step = 0; step < 60; step++) {
      XID x = xs[rnd(xs.size())];
      int op = rnd(5);
      try {
        if (op <= 1) {
          uint16_t gr = rnd(g + 2);
          if (rnd(30) == 0) gr = 65535;
          log += " start(" + key(x) + "," + std::to_string(gr) + ")";
          bool can = gr < g && ref.size() < n;
          bool dup = false;
          for (auto &r : ref) dup |= r.second.xid == key(x);
          if (dup) continue;
          std::string before(mem, need);
          size_t id;
          try { id = t.start(x, gr); } catch (const std::out_of_range &) {
            if (can) bad("refused");
            if (before != std::string(mem, need)) bad("refused start changed the table");
            continue;
          }
          if (!can) bad("accepted");
          if (id >= n || ref.count(id)) bad("identifier of an active transaction or outside of the table handed out");
          ref[id] = {key(x), {gr}};
        } else if (op == 2 && n) {
          size_t id = rnd(n + 1);
          uint16_t gr = rnd(g + 2);
          if (id < n && !ref.count(id)) continue;
          log += " join(" + std::to_string(id) + "," + std::to_string(gr) + ")";
          bool can = id < n && gr < g;
          try { t.join(id, gr); } catch (const std::out_of_range &) { if (can) bad("refused"); continue; }
          if (!can) bad("accepted");
          ref[id].groups.insert(gr);
        } else if (op == 3 && !ref.empty()) {
          auto it = ref.begin();
          std::advance(it, rnd(ref.size()));
          log += " end(" + std::to_string(it->first) + ")";
          t.end(it->first);
          ref.erase(it);
        } else {
          log += " find(" + key(x) + ")";
          size_t want = n;
          for (auto &r : ref) if (r.second.xid == key(x)) want = r.first;
          try { size_t id = t.find(x); if (id != want) bad("found " + std::to_string(id) + " instead of " + std::to_string(want)); }
          catch (const std::out_of_range &) { if (want != n) bad("not found"); }
        }
        if (t.size != n || t.max_groups != g || t.len > n) bad("table header damaged");
        for (auto &r : ref) {
          if (r.first >= t.len) bad("entry outside of the used part");
          if (key(t.at(r.first).xid) != r.second.xid) bad("XID of " + std::to_string(r.first) + " is " + key(t.at(r.first).xid));
          for (size_t q = 0; q < g; q++) if (t.has_joined(r.first, q) != (r.second.groups.count(q) > 0)) bad("participant " + std::to_string(q) + " of " + std::to_string(r.first));
        }
        for (size_t i = t.len; i < n + 2; i++) try { t.at(i); bad("at() accepts an index outside of the table"); } catch (const std::out_of_range &) {}
        for (size_t i = 0; i < t.len; i++) if (!ref.count(i)) for (size_t q = 0; q < g; q++) if (t.has_joined(i, q)) bad("released transaction has participants");
        for (size_t q = g; q < g + 3; q++) try { if (n) { t.has_joined(0, q); bad("has_joined() accepts an invalid group"); } } catch (const std::out_of_range &) {}
      } catch (const std::exception &e) { bad(std::string("unexpected exception ") + e.what()); }
    }
    free(mem);
  }
  return 0;
}
