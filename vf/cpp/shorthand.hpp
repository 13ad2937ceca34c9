// C21: shorthands
#pragma once
#include "walk.hpp"
#include <noarr/traversers.hpp>

namespace vf {

// all indices of st are within the lengths (dims: from the outermost)
inline bool in_range(const N &m, std::vector<int> dims, const St &st) {
	St q;
	for (int d : dims) {
		auto l = m->length(d, q);
		if (!l || st.idx.at(d) >= *l) return false;
		q.idx[d] = st.idx.at(d);
	}
	return true;
}

} // namespace vf
