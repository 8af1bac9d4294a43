// Encodes the branches the library (and libstdc++) takes during constant evaluation: every
// std::is_constant_evaluated() in the translation unit answers true.  Include first.
#pragma once
#define VF_CONST_EVAL 1
#define __builtin_is_constant_evaluated() true
