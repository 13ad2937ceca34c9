// Parallel executors: any schedule must make the same calls.
#pragma once
#include "plan.hpp"
#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/std_para.hpp>
#include <mutex>
#include <thread>

namespace vf {

// thread-safe log; the calls are delayed pseudo-randomly to vary the schedule
struct PLog : Log {
	std::mutex mut;
	u64 jitter = 0, over = 0;
	std::set<std::thread::id> threads;
	void add(int node, St st, std::vector<u64> off = {}) {
		u64 h = jitter + (u64)node * 0x9E3779B97F4A7C15ull;
		for (auto &[d, i] : st.idx) h = (h ^ (u64)d * 131 ^ i) * 0xff51afd7ed558ccdull, h ^= h >> 33;
		if (h % 4 == 0) for (volatile u64 k = 0; k < h / 4 % 600; k++) { }
		else if (h % 4 == 1) std::this_thread::yield();
		std::lock_guard<std::mutex> l(mut);
		threads.insert(std::this_thread::get_id());
		if (ev.size() >= cap) { over++; return; }
		ev.push_back(Ev{node, std::move(st), std::move(off)});
	}
};

struct Threads {
	tbb::global_control gc;
	int old;
	explicit Threads(u64 n) : gc(tbb::global_control::max_allowed_parallelism, n), old(omp_get_max_threads()) { omp_set_num_threads((int)n); }
	~Threads() { omp_set_num_threads(old); }
};

} // namespace vf
