// BOUNDS: struct decomposition into 513 to 768 fields
#include "decomp.h"
VF_ENTRY(decompose_513) { all<513>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_545) { all<545>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_577) { all<577>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_609) { all<609>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_641) { all<641>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_673) { all<673>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_705) { all<705>(std::make_index_sequence<32>{}); }
VF_ENTRY(decompose_737) { all<737>(std::make_index_sequence<32>{}); }
