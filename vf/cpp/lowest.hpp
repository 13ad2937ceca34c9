// C16: lower bounds of the offset along a dimension against the offsets of all elements
#pragma once
#include "intro.hpp"
#include <noarr/structures/introspection/lower_bound_along.hpp>

namespace vf {

inline u64 low_u64(auto v) {
	if constexpr (requires { decltype(v)::value; }) return (u64)decltype(v)::value;
	else return (u64)v;
}

struct Low {
	Pool &p;
	u64 whole = 0, ranged = 0, values = 0, inner = 0;

	// the offsets that indices a..b-1 of d yield: a group per choice of the other indices that has them all
	// (every: all choices taken together, for the index that tells the body of static blocks from the border)
	typedef std::vector<std::map<u64, u64>> Groups;
	Groups groups(int d, const Idx &i, bool every) const {
		std::map<Idx, std::map<u64, u64>> g;
		for (const Elem *e : p.within(i)) {
			auto k = e->idx.find(d);
			if (k == e->idx.end()) continue;
			auto [it, fresh] = g[every ? i : less(e->idx, d)].try_emplace(k->second, e->off);
			if (!fresh) it->second = std::min(it->second, e->off);
		}
		Groups r;
		for (auto &[x, m] : g) r.push_back(m);
		return r;
	}
	static std::optional<std::pair<u64, u64>> lowest(const std::map<u64, u64> &m, u64 a, u64 b, bool every) {
		std::optional<std::pair<u64, u64>> r;
		for (u64 k = a; k < b; k++) {
			auto it = m.find(k);
			if (it == m.end()) { if (every) continue; return {}; }
			if (!r || it->second < r->second) r = *it;
		}
		return r;
	}
};

// lengths of tuple dimensions; Border: the index that tells the body of static blocks from the border
static constexpr size_t Border = 999;
template<auto Dim, size_t N> struct TD { template<auto Q> static constexpr size_t of() { if constexpr (id<Q> == id<Dim>) return N; else return 0; } };
template<class... T> struct TL { template<auto Q> static constexpr size_t of() { return (size_t(0) + ... + T::template of<Q>()); } };

// with static blocks of something inside a tuple, nothing is asked between the choice of body or border and that of the tuple members
template<class... T> struct GuardRule;
template<auto... Gs, auto... Ts> struct GuardRule<Need<Gs...>, Need<Ts...>> {
	template<class NS> static constexpr bool ok = Need<Ts...>::template met<NS> || (true && ... && !NS::template contains<noarr::index_in<Gs>>);
};

// Abs: the values themselves are comparable with partial offsets
template<class Struct, class Tup, class Rule, bool Abs, auto... Dims>
struct LowReport {
	Low &low;
	const Struct &s;
	u64 skip;     // bit per dimension: recorded defects excluded
	u64 every;    // bit per dimension: blocks of different lengths, which are taken together
	int other;    // the dimension within those
	bool reversed;
	const N &mm;
	bool ragged = false;
	u64 leaves = 0;

	template<auto Dim, class NS> void level(NS ns, const St &st, u64) { with(ns, st.idx); }
	template<class T, class NS> void leaf(NS ns, const St &st) { if (leaves++ % (low.p.el.size() / 16 + 1) == 0) (..., minus<Dims>(ns, st)); }
	template<auto Dim, class NS> void minus(NS ns, const St &st) {
		if constexpr (NS::template contains<noarr::index_in<Dim>> && Tup::template of<Dim>() != Border) one<Dim>(ns.template remove<noarr::index_in<Dim>>(), less(st.idx, id<Dim>));
	}
	template<class NS> void with(NS ns, const Idx &i) { (..., one<Dims>(ns, i)); }

	struct Asked { u64 a, b, value, at; std::optional<u64> along; };

	template<auto Dim, class NS>
	void one(NS ns, const Idx &i) {
		static constexpr int K = [] { int k = 0, r = -1; (..., (id<Dims> == id<Dim> ? (void)(r = k++) : (void)k++)); return r; }();
		if constexpr (NS::template contains<noarr::index_in<Dim>> || !Rule::template ok<NS>) {
		} else if constexpr (noarr::HasLowerBoundAlong<Struct, Dim, NS>) {
			if (skip >> K & 1) return;
			Ctx &c = low.p.c;
			static constexpr bool border = Tup::template of<Dim>() == Border;
			const bool ev = border || ((every >> K & 1) && !i.count(other));
			const bool vals = ev || !(ragged && reversed);
			const auto gs = low.groups(id<Dim>, i, ev);
			u64 n = 0;
			for (auto &g : gs) n = std::max(n, g.rbegin()->first + 1);
			if (!n) return;
			if (auto len = mm->length(id<Dim>, St{i, {}})) n = *len;
			std::vector<Asked> asked;
			asked.push_back({0, n, low_u64(noarr::lower_bound_along<Dim>(s, ns)), low_u64(noarr::lower_bound_at<Dim>(s, ns)), std::nullopt});
			low.whole++;
			static constexpr size_t len = border ? 0 : Tup::template of<Dim>();
			if constexpr (len) {
				along_lit<Dim, len>(ns, asked[0]);
				[&]<size_t... I>(std::index_sequence<I...>) { (..., literal<Dim, len, I / len, I % len + 1>(ns, asked)); }(std::make_index_sequence<len * len>());
			} else {
				along<Dim>(ns, asked[0]);
				auto ask = [&](u64 a, u64 b) {
					asked.push_back({a, b, low_u64(noarr::lower_bound_along<Dim>(s, ns, (size_t)a, (size_t)b)), low_u64(noarr::lower_bound_at<Dim>(s, ns, (size_t)a, (size_t)b)), std::nullopt});
					along<Dim>(ns, asked.back());
					low.ranged++;
				};
				if (n <= 4) {
					for (u64 a = 0; a < n; a++) for (u64 b = a + 1; b <= n; b++) if (has(gs, a, b, ev)) ask(a, b);
				} else {
					for (int k = 0; k < 10; k++) {
						const u64 a = c.draw(n), b = a + 1 + c.draw(n - a);
						if (has(gs, a, b, ev)) ask(a, b);
					}
				}
			}
			for (auto &q : asked) {
				if (q.a || q.value) low.values++;
				auto where = [&, i] { return "along " + dim_name(id<Dim>) + fmt(" [%llu, %llu)", q.a, q.b) + (&q == &asked[0] ? " (asked without a range)" : "") + " with state " + idx_str(i); };
				c.expect(q.at >= q.a && q.at < q.b, [&] { return fmt("lower_bound_at is %llu, not an index of the range ", q.at) + where(); });
				if (q.along) c.eq(q.value, *q.along, [&] { return "lower bound " + where() + " (expected: the least of the partial offsets)"; });
				if constexpr (!len) for (auto &g : gs) {
					const auto l = Low::lowest(g, q.a, q.b, ev);
					if (!l) continue;
					auto at = g.find(q.at);
					c.expect(at != g.end(), [&] { return fmt("lower_bound_at is %llu, where there is no element, ", q.at) + where(); });
					if (at == g.end()) break;
					c.eq(at->second, l->second, [&] { return fmt("offset at the index %llu reported by lower_bound_at ", q.at) + where() + " (expected: the least offset)"; });
					if (l->first != q.a) low.inner++;
					if (!vals) continue;
					const auto l0 = Low::lowest(g, asked[0].a, asked[0].b, ev);
					if (l0) c.eq(q.value - asked[0].value, l->second - l0->second, [&] { return "lower bound " + where() + ", relative to that over the whole dimension (expected: the distance of the least offsets)"; });
					else {
						const auto l1 = Low::lowest(g, asked.back().a, asked.back().b, ev);
						if (l1) c.eq(q.value - asked.back().value, l->second - l1->second, [&] { return "lower bound " + where() + fmt(", relative to that over [%llu, %llu) (expected: the distance of the least offsets)", asked.back().a, asked.back().b); });
					}
				}
			}
			c.barrier();
		}
	}
	static bool has(const Low::Groups &gs, u64 a, u64 b, bool ev) {
		for (auto &g : gs) if (Low::lowest(g, a, b, ev)) return true;
		return false;
	}
	template<auto Dim> static constexpr size_t tuple_len();
	template<auto Dim, class NS>
	void along(NS ns, Asked &q) {
		if constexpr (Abs) if constexpr (noarr::HasOffsetAlong<Struct, Dim, decltype(ns.template with<noarr::index_in<Dim>>((size_t)0))>) {
			for (u64 k = q.a; k < q.b; k++) {
				const u64 o = low_u64(noarr::offset_along<Dim>(s, ns.template with<noarr::index_in<Dim>>((size_t)k)));
				if (!q.along || o < *q.along) q.along = o;
			}
		}
	}
	template<auto Dim, size_t Len, class NS>
	void along_lit(NS ns, Asked &q) {
		[&]<size_t... I>(std::index_sequence<I...>) {
			(..., [&] {
				using NS2 = decltype(ns.template with<noarr::index_in<Dim>>(noarr::lit<I>));
				if constexpr (noarr::HasOffsetAlong<Struct, Dim, NS2>) {
					if (I < q.a || I >= q.b) return;
					const u64 o = low_u64(noarr::offset_along<Dim>(s, ns.template with<noarr::index_in<Dim>>(noarr::lit<I>)));
					if (!q.along || o < *q.along) q.along = o;
				}
			}());
		}(std::make_index_sequence<Len>());
	}
	template<auto Dim, size_t Len, size_t A, size_t B, class NS>
	void literal(NS ns, std::vector<Asked> &asked) {
		if constexpr (A < B) {
			asked.push_back({A, B, low_u64(noarr::lower_bound_along<Dim>(s, ns, noarr::lit<A>, noarr::lit<B>)), low_u64(noarr::lower_bound_at<Dim>(s, ns, noarr::lit<A>, noarr::lit<B>)), std::nullopt});
			along_lit<Dim, Len>(ns, asked.back());
			low.ranged++;
		}
	}
};

// structures too long to enumerate, in which offsets are linear in every index: the least one is at an end of the range
template<class Struct, auto... Dims>
struct BigLow {
	Ctx &c;
	const Struct &s;
	const N &m;
	u64 asked = 0;
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS> void leaf(NS ns, const St &st) { (..., one<Dims>(ns, st)); }
	template<auto Dim, class NS> void one(NS ns, const St &st) {
		const auto rest = ns.template remove<noarr::index_in<Dim>>();
		if constexpr (noarr::HasLowerBoundAlong<Struct, Dim, std::remove_cvref_t<decltype(rest)>>) {
			St r = st;
			r.idx.erase(id<Dim>);
			const u64 n = *m->length(id<Dim>, r);
			auto off = [&](u64 k) { St x = r; x.idx[id<Dim>] = k; return m->offset(x); };
			const u64 w = low_u64(noarr::lower_bound_along<Dim>(s, rest)), wat = low_u64(noarr::lower_bound_at<Dim>(s, rest)), wmin = std::min(off(0), off(n - 1));
			auto where = [&](u64 a, u64 b) { return " along " + dim_name(id<Dim>) + fmt(" [%llu, %llu) with state ", a, b) + r.str(); };
			c.expect(wat < n && off(wat) == wmin, [&] { return fmt("the index %llu reported by lower_bound_at does not have the least offset", wat) + where(0, n); });
			for (int k = 0; k < 2; k++) {
				const u64 a = c.draw(n), b = a + 1 + c.draw(n - a), least = std::min(off(a), off(b - 1));
				const u64 v = low_u64(noarr::lower_bound_along<Dim>(s, rest, (size_t)a, (size_t)b)), at = low_u64(noarr::lower_bound_at<Dim>(s, rest, (size_t)a, (size_t)b));
				c.expect(at >= a && at < b && off(at) == least, [&] { return fmt("the index %llu reported by lower_bound_at does not have the least offset", at) + where(a, b); });
				c.eq(v - w, least - wmin, [&] { return "lower bound" + where(a, b) + ", relative to that over the whole dimension (expected: the distance of the least offsets)"; });
				asked++;
			}
		}
	}
};

} // namespace vf
