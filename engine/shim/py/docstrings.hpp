// The sources' docstrings.hpp has no include guard: include it once per unit.
#pragma once
#ifndef DOC
#include_next "docstrings.hpp"
#endif
