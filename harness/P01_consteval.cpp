// BOUNDS: the constant-evaluation branches (std::is_constant_evaluated() true): the same entries and bounds as P01_vector.cpp
// ASSUME: in *_consteval.cpp the branches taken during constant evaluation are encoded by making std::is_constant_evaluated() answer true in the whole translation unit; that the compiler's own evaluator agrees with the compiled code is not checked
#include "const_eval.h"
#include "P01_vector.cpp"
