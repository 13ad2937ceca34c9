// Traverser ranges: narrowing, splitting, iterator laws.
#pragma once
#include "trav.hpp"
#include <noarr/structures/interop/tbb.hpp>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
#include <deque>
#include <list>

namespace vf {

// how the library split its ranges, for the model to follow
inline std::deque<std::vector<std::pair<u64, u64>>> splits;

inline std::vector<u64> cut_points(u64 n, const std::vector<u64> &cuts) {
	std::vector<u64> b{0, n};
	for (size_t i = 0; i < cuts.size() && i < 3; i++) b.push_back(cuts[i] % (n + 1));
	std::sort(b.begin(), b.end());
	return b;
}

template<class R, class Fn>
void split_bounds(Ctx &c, const R &range, const std::vector<u64> &cuts, Fn f) {
	const auto b = cut_points(range.size(), cuts);
	for (size_t i = 0; i + 1 < b.size(); i++) {
		R r = range;
		r.begin_idx = b[i];
		r.end_idx = b[i + 1];
		c.eq(r.size(), b[i + 1] - b[i], "size of a narrowed range");
		c.expect(r.empty() == (b[i] == b[i + 1]), "empty() of a narrowed range");
		f(r);
	}
}
template<class R, class Fn>
void split_tbb(Ctx &c, const R &range, const std::vector<u64> &cuts, Fn f) {
	std::list<R> v{range};
	const u64 lo = range.begin_idx, hi = range.end_idx;
	for (u64 k : cuts) {
		const auto x = std::next(v.begin(), k % v.size());
		c.expect(x->empty() == (x->size() == 0), "empty() of a range");
		if (!x->is_divisible()) continue;
		c.expect(x->size() > 1, "a range of less than two sections calls itself divisible");
		const u64 b = x->begin_idx, e = x->end_idx;
		R second(*x, tbb::split{});
		c.expect(x->size() > 0 && second.size() > 0 && x->size() + second.size() == e - b, [&] { return fmt("range [%llu, %llu) split into [%zu, %zu) and [%zu, %zu)", b, e, x->begin_idx, x->end_idx, second.begin_idx, second.end_idx); });
		v.insert(second.begin_idx < x->begin_idx ? x : std::next(x), second);
	}
	std::vector<std::pair<u64, u64>> s;
	u64 at = lo;
	for (auto &r : v) {
		c.expect(r.begin_idx == at && r.end_idx >= r.begin_idx, "the parts of a split range do not adjoin");
		at = r.end_idx;
		s.emplace_back(r.begin_idx, r.end_idx);
	}
	c.expect(at == hi, "the parts of a split range do not cover it");
	if (splits.size() > 5000) throw Fail{};
	splits.push_back(s);
	for (auto &r : v) f(r);
}
inline void parts(const G &g, const N &mo, int d, const std::vector<u64> &cuts, bool follow, const std::function<void(const G &, const N &)> &f) {
	std::vector<std::pair<u64, u64>> s;
	const u64 n = mlen(mo, d);
	if (follow) {
		if (splits.empty()) return; // shows as a missing call
		s = splits.front();
		splits.pop_front();
	} else {
		const auto b = cut_points(n, cuts);
		for (size_t i = 0; i + 1 < b.size(); i++) s.emplace_back(b[i], b[i + 1]);
	}
	for (auto [b, e] : s) f(g, slice(d, b, e - b, mo));
}

// positions of the (narrowed) range reached in many ways; every one designates the same section
template<class R, class Offs>
void range_laws(Ctx &c, R range, const std::vector<u64> &cuts, int node, Log &got, const Offs &offs) {
	{
		const auto b = cut_points(range.size(), cuts);
		if (cuts[4] % 3) { range.begin_idx = b[1]; range.end_idx = b[b.size() - 2]; }
	}
	const R &r = range;
	typedef std::ptrdiff_t P;
	const P n = (P)r.size();
	const auto b = r.begin(), e = r.end();
	c.expect(e - b == n && b - e == -n, "end() - begin()");
	c.expect(r.cbegin() == b && r.cend() == e, "cbegin() / cend()");
	c.expect(r.empty() == (b == e) && r.empty() == !n, "empty()");
	auto it = b;
	for (P k = 0; k < n; k++) {
		got.add(node, read_state((*it).state()));
		const P j = (P)(cuts[3] * 31 + k * 7) % (n + 1);
		const auto other = b + j;
		c.expect(it - b == k && e - it == n - k && it - other == k - j && other - it == j - k, "difference of iterators");
		c.expect(it == b + k && k + b == it && e - (n - k) == it && other + (k - j) == it && it - (k - j) == other, "iterator arithmetic");
		c.expect((it == other) == (k == j) && (it != other) == (k != j) && (it < other) == (k < j) && (it <= other) == (k <= j) && (it > other) == (k > j) && (it >= other) == (k >= j), "iterator comparison");
		auto x = other;
		c.expect((x += k - j) == it && x == it, "+=");
		x = other;
		c.expect((x -= j - k) == it && x == it, "-=");
		const St here = read_state((*it).state());
		c.expect(read_state(b[k].state()) == here && read_state(r[(size_t)k].state()) == here && read_state(other[k - j].state()) == here && read_state((*(e - (n - k))).state()) == here, "the same position gives different sections");
		const auto old = it;
		auto y = it;
		auto z = y++;
		c.expect(z == old && y - old == 1, "post-increment");
		z = y--;
		c.expect(z - old == 1 && y == old, "post-decrement");
		c.expect(++y - old == 1, "pre-increment");
		c.expect(--y == old, "pre-decrement");
		++it;
		c.expect(it - old == 1 && old < it, "increment");
		if (!c.fail_msg.empty()) return;
	}
	c.expect(it == e, "end() not reached after size() increments");
	r.for_each([&](auto st_) { got_leaf(got, node, st_, offs); });
}
template<class MOffs>
void range_laws_model(const G &g, const N &mo, int d, const std::vector<u64> &cuts, int node, Log &exp, const MOffs &moffs) {
	const u64 n = mlen(mo, d);
	u64 lo = 0, hi = n;
	const auto b = cut_points(n, cuts);
	if (cuts[4] % 3) { lo = b[1]; hi = b[b.size() - 2]; }
	u64 k = 0;
	sections(g, mo, {d}, false, [&](const G &, const N &m) { if (k >= lo && k < hi) exp.add(node, m->reach({})); k++; });
	visit(g, slice(d, lo, hi - lo, mo), [&](const St &st) { exp.add(node, st, moffs(st)); });
}

} // namespace vf

// ------------------------------------------------------------------ lengths beyond 32 bits
namespace vf {
struct HugeNo { u64 operator()(u64 i) const { return i; } };

// a planner with the members of a traverser
template<class P>
struct PlannerRange {
	P p;
	std::vector<u64> *seen;
	auto range() const { return noarr::range(p); }
	auto begin() const { return noarr::begin(p); }
	auto end() const { return noarr::end(p); }
	auto top_struct() const { return p.top_struct(); }
};
template<class S, class O, class To>
void huge_planner(Ctx &c, const S &s, O order, u64 n, To to) {
	std::vector<u64> seen;
	auto p = noarr::planner(noarr::make_bag(s, (void *)nullptr)).for_each([&seen](auto st) { seen.push_back(noarr::get_index<'x'>(st)); }).order(order);
	huge_range(c, PlannerRange<decltype(p)>{p, &seen}, n, to);
}

// t iterates its top dimension of length n; index i there is index to(i) of 'x' in the structure
template<class T, class To>
void huge_range(Ctx &c, const T &t, u64 n, To to) {
	typedef std::ptrdiff_t P;
	auto x = [](const auto &inner) { return (u64)noarr::get_index<'x'>(inner.state()); };
	const auto r = t.range();
	c.eq(r.size(), n, "size of a long range");
	c.expect(!r.empty(), "a long range is empty");
	c.eq((u64)(r.end() - r.begin()), n, "distance of end from begin");
	c.eq((u64)(t.end() - t.begin()), n, "distance of the traverser's end from its begin");
	u64 last = 0;
	for (int k = 0; k < 6; k++) {
		const u64 p = k == 0 ? n - 1 : k == 1 ? 0 : c.draw(n);
		c.eq(x(r[p]), to(p), "section by subscript of a long range");
		c.eq(x(r.begin()[(P)p]), to(p), "section by subscript of an iterator");
		c.eq(x(*(r.begin() + (P)p)), to(p), "section at begin + p");
		c.eq(x(*((P)p + t.begin())), to(p), "section at p + begin");
		c.eq(x(*(r.end() - (P)(n - p))), to(p), "section at end - q");
		auto it = r.begin();
		it += (P)last;
		it += (P)p - (P)last;
		c.eq(x(*it), to(p), "section after +=");
		it -= (P)p - (P)last;
		c.eq(x(*it), to(last), "section after -=");
		const auto a = r.begin() + (P)p, b = r.begin() + (P)last;
		c.expect((a < b) == (p < last) && (a <= b) == (p <= last) && (a > b) == (p > last) && (a >= b) == (p >= last) && (a == b) == (p == last) && (a != b) == (p != last), "comparison of distant iterators");
		c.eq((u64)((a - b) - ((P)p - (P)last)), 0, "distance of distant iterators");
		last = p;
		// a short part far away
		auto part = r;
		const u64 w = std::min<u64>(1 + c.draw(3), n - p);
		part.begin_idx = p;
		part.end_idx = p + w;
		c.eq(part.size(), w, "size of a part");
		u64 at = p;
		if constexpr (requires { t.seen; }) {
			t.seen->clear();
			part.as_planner().execute();
			c.eq(t.seen->size(), w, "number of calls in a part");
			for (u64 i = 0; i < t.seen->size() && i < w; i++) c.eq((*t.seen)[i], to(p + i), "index visited in a part");
			continue;
		} else {
		part.for_each([&](auto st) { c.eq((u64)noarr::get_index<'x'>(st), to(at), "index visited in a part"); at++; });
		c.eq(at, p + w, "number of calls in a part");
		at = p;
		part.as_traverser().template for_sections<noarr::helpers::traviter_top_dim<decltype(t.top_struct())>>([&](auto in) { c.eq(x(in), to(at), "section of a part turned into a traverser"); at++; });
		c.eq(at, p + w, "number of sections in a part");
		}
	}
	// splitting
	std::list<std::remove_cvref_t<decltype(r)>> v{r};
	for (int k = 0; k < 12; k++) {
		auto i = std::next(v.begin(), c.draw(v.size()));
		if (!i->is_divisible()) { c.expect(i->size() < 2, "a long range is not divisible"); continue; }
		const u64 b = i->begin_idx, e = i->end_idx;
		std::remove_cvref_t<decltype(r)> second(*i, tbb::split{});
		c.expect(i->size() > 0 && second.size() > 0 && i->size() + second.size() == e - b && (i->begin_idx == b) != (second.begin_idx == b), [&] { return fmt("range [%llu, %llu) split into [%zu, %zu) and [%zu, %zu)", b, e, i->begin_idx, i->end_idx, second.begin_idx, second.end_idx); });
		v.insert(second.begin_idx < i->begin_idx ? i : std::next(i), second);
	}
	u64 at = 0;
	for (auto &q : v) { c.eq((u64)q.begin_idx, at, "the parts of a split range do not adjoin"); at = q.end_idx; }
	c.eq(at, n, "the parts of a split range do not cover it");
}
}
