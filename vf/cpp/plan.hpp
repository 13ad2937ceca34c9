// Planners against the model's nested execution.
#pragma once
#include "ranges.hpp"
#include "bags.hpp"

namespace vf {

struct Plan {
	struct Ending {
		G sig;                // per-element: the original signature
		std::vector<int> sel; // per-section: the original dimensions that must be known
		bool section;
		std::function<void(const Plan &)> act;
		bool active(const std::map<int, u64> &known) const;
	};
	G g;
	N mo;
	std::vector<Ending> es;
	Plan with(G g2, N m2) const { return Plan{std::move(g2), std::move(m2), es}; }
	Plan each(G sig, std::function<void(const Plan &)> act) const {
		Plan r = *this;
		r.es.push_back({std::move(sig), {}, false, std::move(act)});
		return r;
	}
	Plan sections(std::vector<int> sel, std::function<void(const Plan &)> act) const {
		Plan r = *this;
		r.es.push_back({{}, std::move(sel), true, std::move(act)});
		return r;
	}
	void execute() const;
};

inline bool Plan::Ending::active(const std::map<int, u64> &known) const {
	if (section) {
		for (int d : sel) if (!known.count(d)) return false;
		return true;
	}
	return remaining(sig, known)->dim < 0;
}
inline void Plan::execute() const {
	const auto known = mo->reach({}).idx;
	int at = -1;
	for (size_t i = 0; i < es.size(); i++) if (es[i].active(known)) {
		if (at >= 0) std::abort(); // the generator does not produce this
		at = (int)i;
	}
	if (at >= 0) {
		Plan in = *this;
		in.es.erase(in.es.begin() + at);
		es[at].act(in);
		return;
	}
	if (g->dim < 0) std::abort();
	const u64 n = g->dep ? g->subs.size() : mlen(mo, g->dim);
	for (u64 i = 0; i < n; i++) Plan{g->subs[g->dep ? i : 0], fix(g->dim, i, mo), es}.execute();
}

// positions of a planner range reached in many ways
template<class R>
void planner_laws(Ctx &c, R range, const std::vector<u64> &cuts, int node, Log &got) {
	{
		const auto b = cut_points(range.size(), cuts);
		if (cuts[4] % 3) { range.begin_idx = b[1]; range.end_idx = b[b.size() - 2]; }
	}
	const R &r = range;
	typedef std::ptrdiff_t P;
	const P n = (P)r.size();
	const auto b = r.begin(), e = r.end();
	c.expect(e - b == n && b - e == -n, "end() - begin()");
	c.expect(r.cbegin() == b && r.cend() == e && r.empty() == !n && r.is_divisible() == (n > 1), "cbegin(), cend(), empty(), is_divisible()");
	auto it = b;
	for (P k = 0; k < n; k++) {
		got.add(node, read_state((*it).state()));
		const P j = (P)(cuts[3] * 31 + k * 7) % (n + 1);
		const auto other = b + j;
		c.expect(it - b == k && e - it == n - k && it - other == k - j && other - it == j - k, "difference of iterators");
		c.expect(it == b + k && k + b == it && e - (n - k) == it && other + (k - j) == it && it - (k - j) == other, "iterator arithmetic");
		c.expect((it == other) == (k == j) && (it != other) == (k != j) && (it < other) == (k < j) && (it <= other) == (k <= j) && (it > other) == (k > j) && (it >= other) == (k >= j), "iterator comparison");
		auto x = b + j;
		x += k - j;
		c.expect(x == it, "+=");
		x -= k - j;
		c.expect(x == other, "-=");
		const St here = read_state((*it).state());
		c.expect(read_state(b[k].state()) == here && read_state(r[(size_t)k].state()) == here && read_state(other[k - j].state()) == here && read_state((*(e - (n - k))).state()) == here, "the same position gives different sections");
		auto y = it;
		auto z = y++;
		c.expect(z == it && y - it == 1, "post-increment");
		auto w = y--;
		c.expect(w - it == 1 && y == it, "post-decrement");
		c.expect(++y - it == 1, "pre-increment");
		c.expect(--y == it, "pre-decrement");
		++it;
		if (!c.fail_msg.empty()) return;
	}
	c.expect(it == e, "end() not reached after size() increments");
}
inline void planner_laws_model(const Plan &p, int d, const std::vector<u64> &cuts, int node, Log &exp) {
	const u64 n = mlen(p.mo, d);
	u64 lo = 0, hi = n;
	const auto b = cut_points(n, cuts);
	if (cuts[4] % 3) { lo = b[1]; hi = b[b.size() - 2]; }
	u64 k = 0;
	sections(p.g, p.mo, {d}, false, [&](const G &, const N &m) { if (k >= lo && k < hi) exp.add(node, m->reach({})); k++; });
}

} // namespace vf
