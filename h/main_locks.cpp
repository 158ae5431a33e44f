#include "common.h"
#include "units.h"
int sat_main(const Args&);
int main(int argc, char** argv) { Args a(argc, argv); units::merge<units::Lock>(lock_registry()); return sat_main(a); }
