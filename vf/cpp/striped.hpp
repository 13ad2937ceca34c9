// C19: stripes of shared memory
#pragma once
#include "walk.hpp"
#include "noarr_test_cuda_dummy.hpp"
#include <noarr/structures/interop/cuda_striped.cuh>
#include <map>
#include <set>

namespace vf {

struct Striped {
	u64 n, elem, bank_count, bank_width;
};

// T: the structure, with views above the stripes allowed
template<class T>
struct StripeCheck {
	Ctx &c;
	const T &s;
	const N &m;
	u64 size;
	Striped p;
	struct Owner { u64 stripe, id, at; };
	std::map<u64, Owner> bytes = {};                   // byte -> owner
	std::map<u64, u64> cell = {};                      // memory cell -> stripe
	std::map<u64, std::set<u64>> bank = {};            // bank -> stripes
	std::map<std::pair<u64, u64>, u64> where = {};     // (stripe, element) -> offset
	std::map<u64, std::pair<u64, u64>> piece = {};     // piece -> an element and its offset in stripe 0
	std::optional<u64> distance = {};
	u64 leaves = 0;

	template<auto Dim, class NS> void level(NS ns, const St &st, u64 len) {
		c.eq((u64)(s | noarr::get_length<Dim>(ns)), len, "length");
		c.eq((u64)(s | noarr::get_length<Dim>(ns & noarr::cuda_stripe_idx((std::size_t)0))), len, "length, in a stripe");
	}

	template<class E, class NS> void leaf(NS ns, const St &st) {
		leaves++;
		const u64 id = m->offset(st);
		u64 prev = 0, first = 0;
		for (u64 k = 0; k < p.n; k++) {
			const u64 off = s | noarr::offset(ns & noarr::cuda_stripe_idx((std::size_t)k));
			threadIdx.x = (uint)(k + p.n * c_draw(3));
			c.eq((u64)(s | noarr::offset(ns)), off, "offset in the stripe of the current thread");
			if (k < 2) {
				const u64 l = k ? (u64)(s | noarr::offset(ns & noarr::cuda_stripe_idx(noarr::lit<1>))) : (u64)(s | noarr::offset(ns & noarr::cuda_stripe_idx(noarr::lit<0>)));
				c.eq(l, off, "offset with a static stripe index");
			}
			c.expect(off <= size && sizeof(E) <= size - off, [&] { return fmt("element at %llu of stripe %llu is outside the structure of size %llu: ", off, k, size) + st.str(); });
			c.barrier();
			if (k) {
				if (!distance) distance = off - prev;
				c.eq(off - prev, *distance, "distance of neighbouring stripes");
			} else first = off;
			prev = off;
			auto [w, fresh] = where.emplace(std::make_pair(k, id), off);
			c.eq(w->second, off, "offset of the same element");
			if (fresh) {
				for (u64 b = off; b < off + sizeof(E); b++) {
					auto [x, ok] = bytes.emplace(b, Owner{k, id, off});
					c.expect(ok, [&] { return fmt("byte %llu belongs to stripe %llu and stripe %llu", b, k, x->second.stripe); });
					auto [y, _] = cell.emplace(b / p.bank_width, k);
					c.expect(y->second == k, [&] { return fmt("memory cell %llu has data of stripes %llu and %llu", b / p.bank_width, y->second, k); });
					bank[b / p.bank_width % p.bank_count].insert(k);
				}
			}
			c.barrier();
		}
		auto [x, fresh] = piece.emplace(id / p.elem, std::make_pair(id, first));
		c.eq(first - x->second.second, id - x->second.first, "distance within one piece");
	}

	u64 draws = 0;
	u64 c_draw(u64 n) { return (draws = draws * 1103515245 + 12345) / 65536 % n; }

	void banks(u64 max_conflict) {
		const u64 cells = (p.elem + p.bank_width - 1) / p.bank_width;
		const u64 least = (p.n * cells + p.bank_count - 1) / p.bank_count; // 1: no conflicts
		u64 most = 0;
		for (auto &b : bank) most = std::max<u64>(most, b.second.size());
		c.expect(most <= least, [&] { return fmt("a bank has data of %llu stripes, %llu is possible", most, least); });
		c.eq(max_conflict, least, "max_conflict_size");
		if (least > 1) c.tag("conflicts");
	}
};

// the division of a block's threads among the stripes
template<class S> void check_threads(Ctx &c, u64 n) {
	blockDim.x = (uint)(1 + c.draw(3 * n + 2));
	std::map<u64, std::set<u64>> ranks;
	c.eq((u64)S::num_stripes(), n, "num_stripes");
	for (uint t = 0; t < blockDim.x; t++) {
		threadIdx.x = t;
		const auto g = S::current_stripe_cg();
		const u64 k = S::current_stripe_index();
		c.eq(k, (u64)t % n, "current_stripe_index");
		u64 total = 0;
		for (uint u = 0; u < blockDim.x; u++) total += u % n == k;
		c.eq((u64)g.num_threads(), total, "threads of a stripe");
		c.expect((u64)g.thread_rank() < total, "rank out of range");
		c.expect(ranks[k].insert(g.thread_rank()).second, "rank used twice");
	}
	c.barrier();
}

// two of them side by side
template<class S> struct Pair2 {
	Ctx &c;
	const S &s;
	u64 size;
	std::optional<u64> diff = {};
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class E, class NS> void leaf(NS ns, const St &) {
		const auto u = noarr::pack(s, s) ^ noarr::tuple<noarr::dim<77>{}>();
		const auto ks = noarr::cuda_stripe_idx((std::size_t)0);
		const u64 a = u | noarr::offset(ns & ks & noarr::idx<noarr::dim<77>{}>(noarr::lit<0>)), b = u | noarr::offset(ns & ks & noarr::idx<noarr::dim<77>{}>(noarr::lit<1>));
		c.eq(a, (u64)(s | noarr::offset(ns & ks)), "offset in the first of two");
		if (!diff) diff = b - a;
		c.eq(b - a, *diff, "distance of two striped structures");
		c.expect(b - a >= size && b - a + size <= (u64)(u | noarr::get_size()), "two striped structures overlap or leave the tuple");
	}
};

} // namespace vf
