// Analysis unit: the solver main loops, instantiated by the repository's own
// explicit-instantiation sources. Nothing here runs.
#include "optimization/solver/interior_point.cpp"
#include "optimization/solver/newton.cpp"
#include "optimization/solver/sqp.cpp"
