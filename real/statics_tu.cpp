// Globals of one translation unit (TU = 0, 1, 2): constructed before main, destroyed after it.
#include "statics.h"
#include <mutex>
namespace {
struct Early { ~Early() { st::site("destructor of a global without mutexes", TU, nullptr, 0); } } early;   // its destruction is registered before any mutex exists
st::Bundle plain;
struct Probe {
  st::Bundle own;
  Probe() { st::site("constructor of a global", TU, &own, 0); }
  ~Probe() { st::site("destructor of a global", TU, &own, 0); }
} probe;
struct Late { Late() { st::site("constructor of a later global", TU, &plain, 0); } ~Late() { st::site("destructor of a later global", TU, &plain, 0); } } late;
}
