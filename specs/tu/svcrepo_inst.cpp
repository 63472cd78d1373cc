// Forces code generation of inline functions of the headers; each wrapper is a single call and contains no logic of its own.
#include <string>
#include <vector>
#include <xatmi.h>
#include "svcrepo.h"
extern "C" {
int w_get_queue(service_repository &r, int grpno, const char *svc) { return r.get_queue(grpno, svc); }
}
