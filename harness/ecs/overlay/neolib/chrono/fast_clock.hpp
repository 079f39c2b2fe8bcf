// Stand-in for neolib/chrono/fast_clock.hpp (its tsc_clock.hpp is rejected by g++): lets src/ecs/time.cpp compile unchanged.
#pragma once
#include <chrono>
namespace neolib::chrono { using fast_clock = std::chrono::steady_clock; }
