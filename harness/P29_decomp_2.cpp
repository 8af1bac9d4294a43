// BOUNDS: struct decomposition into 257 to 512 fields
#include "decomp.h"
VF_ENTRY(decompose_257) { all<257>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_289) { all<289>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_321) { all<321>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_353) { all<353>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_385) { all<385>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_417) { all<417>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_449) { all<449>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_481) { all<481>(std::make_index_sequence<32>{}); }
