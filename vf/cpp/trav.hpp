// Traversers against the model's enumeration.
#pragma once
#include "walk.hpp"
#include <noarr/traversers.hpp>

namespace vf {

// records what the traversal delivers: the state, and the offsets it designates in each structure
template<class L, class NS, class Offs>
void got_leaf(L &log, int node, const NS &ns, const Offs &offs) { log.add(node, read_state(ns), offs(ns)); }

} // namespace vf
