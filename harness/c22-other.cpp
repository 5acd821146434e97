// C22: the part of the harness in another translation unit.
#define FW_SECOND
#include "fw/fw.hpp"
#include "fw/world.hpp"

STATEMENTS(otherUnit)
void otherCall(Api &api, bool isF, int x) { if (isF) api.f(x); else api.g(texts[x]); }
