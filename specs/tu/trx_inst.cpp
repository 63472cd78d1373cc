// Forces code generation of inline functions of the headers; each wrapper is a single call and contains no logic of its own.
#include <tx.h>
#include <xa.h>
#include <xatmi.h>
#include "mib.h"
#include "trx.h"
extern "C" {
fux::gttid w_start(transaction_table &t, const XID &x, uint16_t g) { return t.start(x, g); }
fux::gttid w_find(transaction_table &t, XID &x) { return t.find(x); }
transaction *w_join(transaction_table &t, uint16_t i, uint16_t g) { return &t.join(i, g); }
bool w_has_joined(transaction_table &t, size_t i, size_t g) { return t.has_joined(i, g); }
transaction *w_at(transaction_table &t, fux::gttid i) { return &t.at(i); }
transaction *w_index(transaction_table &t, size_t i) { return &t[i]; }
void w_end(transaction_table &t, size_t i) { t.end(i); }
size_t w_needed(size_t n, size_t g) { return transaction_table::needed(n, g); }
void w_init(transaction_table &t, size_t n, size_t g) { t.init(n, g); }
void w_to_string(std::string *out, XID *x) { *out = fux::to_string(x); }
void w_to_xid(XID *out, const std::string *s) { *out = fux::to_xid(*s); }
}
