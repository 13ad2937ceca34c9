// C20: traversals distributed to CUDA threads
#pragma once
#include "trav.hpp"
#include "noarr_test_cuda_dummy.hpp"
#include <noarr/structures/interop/cuda_traverser.cuh>

namespace vf {

template<class CT>
void cuda_dims(Ctx &c, const CT &ct, const std::vector<u64> &lens) {
	const dim3 g = ct.grid_dim(), b = ct.block_dim();
	const u64 grid[] = {g.x, g.y, g.z}, block[] = {b.x, b.y, b.z};
	bool all = true;
	for (size_t i = 0; i < 3; i++) {
		c.eq(grid[i], 2 * i < lens.size() ? lens[2 * i] : 1, "grid dimension");
		c.eq(block[i], 2 * i < lens.size() ? lens[2 * i + 1] : 1, "block dimension");
	}
	for (u64 l : lens) all = all && l;
	c.expect(bool(ct) == all, "conversion to bool");
}

// calls f with the inner traverser of each thread; lens: the lengths of the dimensions bound to block x, thread x, block y, ...
template<class CT, class Fn>
void cuda_launch(Ctx &c, const CT &ct, const std::vector<u64> &lens, Fn f) {
	const dim3 g = ct.grid_dim(), b = ct.block_dim();
	cuda_dims(c, ct, lens);
	c.barrier();
	blockDim = b;
	for (u64 bx = 0; bx < g.x; bx++) for (u64 tx = 0; tx < b.x; tx++)
		for (u64 by = 0; by < g.y; by++) for (u64 ty = 0; ty < b.y; ty++)
			for (u64 bz = 0; bz < g.z; bz++) for (u64 tz = 0; tz < b.z; tz++) {
				blockIdx = dim3{(uint)bx, (uint)by, (uint)bz};
				threadIdx = dim3{(uint)tx, (uint)ty, (uint)tz};
				f(ct.inner());
			}
	blockIdx = threadIdx = dim3{0xdead, 0xdead, 0xdead};
}

} // namespace vf
