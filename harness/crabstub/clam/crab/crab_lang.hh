#pragma once
#include "../../crab/domains/intervals.hpp"
namespace clam {
using number_t = ikos::z_number;
using varname_t = std::string;
}
