#pragma once
#include <string>
namespace crab {
struct CrabStats { static void count(const std::string &) {} static void resume(const std::string &) {} static void stop(const std::string &) {} };
struct ScopedCrabStats { explicit ScopedCrabStats(const std::string &, bool = false) {} };
}
