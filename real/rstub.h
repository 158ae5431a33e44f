#pragma once
#include <cstdint>
namespace vs { void set_self(int t, uint64_t seed); uint64_t progress_count(); uint64_t point_count(); }
