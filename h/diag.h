// Force-included when yamc's own diagnostics are compiled in: what it prints is formatted, then dropped.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <iostream>
namespace std {
__attribute__((format(printf, 1, 2), no_sanitize("thread"))) inline int vp_diag_printf(const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); int r = vsnprintf(b, sizeof b, f, ap); va_end(ap); return r; }
}
#define printf vp_diag_printf
