// kept apart: instantiations that are legal only for some element types
#include "core.hpp"
using namespace openml;
void drive2(std::vector<int>& s, std::size_t n) { common::slice<int>(s, n, n); }
