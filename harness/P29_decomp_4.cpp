// BOUNDS: struct decomposition into 769 to 1024 fields
#include "decomp.h"
VF_ENTRY(decompose_769) { all<769>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_801) { all<801>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_833) { all<833>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_865) { all<865>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_897) { all<897>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_929) { all<929>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_961) { all<961>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_993) { all<993>(std::make_index_sequence<32>{}); }
