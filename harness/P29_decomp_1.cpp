// BOUNDS: struct decomposition into 1 to 256 fields
#include "decomp.h"
VF_ENTRY(decompose_1) { all<1>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_33) { all<33>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_65) { all<65>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_97) { all<97>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_129) { all<129>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_161) { all<161>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_193) { all<193>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_225) { all<225>(std::make_index_sequence<32>{}); }
