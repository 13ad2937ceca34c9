// C15: strides, partial offsets, uniformity and contiguity against the offsets themselves
#pragma once
#include "walk.hpp"
#include <noarr/introspection.hpp>
#include <noarr/structures/introspection/offset_along.hpp>
#include <optional>

namespace vf {

typedef std::map<int, u64> Idx;

inline u64 stride_u64(auto v) {
	if constexpr (requires { decltype(v)::value; }) return (u64)(long long)decltype(v)::value;
	else return (u64)(long long)v;
}

struct Elem {
	Idx idx;
	u64 off, size;
	std::map<int, u64> along[3]; // partial offsets: with the full state, with just the own index and given lengths, with just the own index
};

inline Idx less(Idx i, int d) { i.erase(d); return i; }
inline bool extends(const Idx &a, const Idx &p) {
	for (auto &[k, v] : p) { auto it = a.find(k); if (it == a.end() || it->second != v) return false; }
	return true;
}
inline std::string idx_str(const Idx &i) { return St{i, {}}.str(); }

struct Pool {
	Ctx &c;
	std::vector<Elem> el;
	std::map<Idx, u64> at;
	u64 strides = 0, uniforms = 0, alongs = 0, contigs = 0;

	std::vector<const Elem *> within(const Idx &p) const {
		std::vector<const Elem *> r;
		for (auto &e : el) if (extends(e.idx, p)) r.push_back(&e);
		return r;
	}
	void stride(int d, const Idx &p, u64 v) {
		strides++;
		for (const Elem *e : within(p)) {
			auto k = e->idx.find(d);
			if (k == e->idx.end()) continue;
			Idx n = e->idx;
			n[d]++;
			auto o = at.find(n);
			if (o == at.end()) continue;
			c.eq(o->second - e->off, v, [&] { return "distance of " + idx_str(e->idx) + " and its next neighbour in " + dim_name(d) + " (expected: the stride reported with state " + idx_str(p) + ")"; });
		}
		c.barrier();
	}
	void uniform(int d, const Idx &p) {
		uniforms++;
		std::map<Idx, std::map<u64, const Elem *>> groups;
		for (const Elem *e : within(p)) { auto k = e->idx.find(d); if (k != e->idx.end()) groups[less(e->idx, d)][k->second] = e; }
		std::map<std::pair<u64, u64>, std::pair<u64, Idx>> dist;
		for (auto &[rest, g] : groups) {
			auto prev = g.begin();
			for (auto it = std::next(prev); it != g.end(); prev = it++) {
				const u64 v = it->second->off - prev->second->off;
				auto [f, fresh] = dist.try_emplace({prev->first, it->first}, v, rest);
				if (!fresh) c.eq(v, f->second.first, [&] { return dim_name(d) + " is reported uniform with state " + idx_str(p) + fmt(", but the distance of its indices %llu and %llu differs between ", prev->first, it->first) + idx_str(rest) + " and " + idx_str(f->second.second); });
			}
		}
		c.barrier();
	}
	void along(int which, bool additive, bool constant, bool total) {
		const char *nm = which ? "offset along (state with just that index) " : "offset along (full state) ";
		std::map<std::pair<int, Idx>, const Elem *> first;
		if (additive) for (auto &e : el)
			for (auto &[d, v] : e.along[which]) {
				auto [f, fresh] = first.try_emplace({d, less(e.idx, d)}, &e);
				if (fresh) continue;
				alongs++;
				const Elem &o = *f->second;
				c.eq(v - o.along[which].at(d), e.off - o.off, [&] { return std::string(nm) + dim_name(d) + ": difference between " + idx_str(e.idx) + " and " + idx_str(o.idx) + " (expected: that of the offsets)"; });
			}
		c.barrier();
		if (!total) return;
		std::optional<u64> rest;
		for (auto &e : el) {
			if (e.along[which].size() != e.idx.size()) return;
			alongs++;
			u64 s = 0;
			for (auto &[d, v] : e.along[which]) s += v;
			if (!rest) rest = constant ? 0 : e.off - s;
			c.eq(s + *rest, e.off, [&] { return std::string("sum of the partial offsets ") + (constant ? "" : "(up to a constant) ") + "at " + idx_str(e.idx) + " (expected: the full offset)"; });
		}
		c.barrier();
	}
	void contiguous(const Idx &p) {
		contigs++;
		auto v = within(p);
		if (v.empty()) return;
		std::vector<std::pair<u64, u64>> seg;
		for (const Elem *e : v) seg.emplace_back(e->off, e->off + e->size);
		std::sort(seg.begin(), seg.end());
		u64 end = seg[0].second;
		for (auto &[a, b] : seg) {
			c.expect(a <= end, [&] { return "reported contiguous with state " + idx_str(p) + fmt(", but there is a gap between offsets %llu and %llu", end, a); });
			end = std::max(end, b);
		}
		c.barrier();
	}
};

// dimensions whose index must be given before anything is asked
template<auto... Ds> struct Need {
	template<class NS> static constexpr bool met = (true && ... && NS::template contains<noarr::index_in<Ds>>);
	static constexpr bool none = sizeof...(Ds) == 0;
	template<class NS> static constexpr auto keep(NS ns) { return noarr::empty_state & (noarr::empty_state & ... & noarr::empty_state.template with<noarr::index_in<Ds>>(ns.template get<noarr::index_in<Ds>>())); }
};

// pass 1: all elements and their partial offsets
template<class Struct, class L, class Nd, auto... Dims>
struct Collect {
	Pool &p;
	const Struct &s;
	const L &l;
	bool empties = false;
	template<auto Dim, class NS> void level(NS, const St &, u64 len) { empties |= !len; }
	template<class T, class NS>
	void leaf(NS ns, const St &st) {
		Elem e;
		e.idx = st.idx;
		e.off = s | noarr::offset(ns);
		e.size = sizeof(T);
		(..., one<Dims>(ns, e));
		p.at[e.idx] = e.off;
		p.el.push_back(std::move(e));
	}
	template<auto Dim, class NS>
	void one(NS ns, Elem &e) {
		if constexpr (NS::template contains<noarr::index_in<Dim>>) {
			if constexpr (noarr::HasOffsetAlong<Struct, Dim, NS>)
				e.along[0][id<Dim>] = to_u64(noarr::offset_along<Dim>(s, ns));
			const auto own = Nd::keep(ns).template with<noarr::index_in<Dim>>(ns.template get<noarr::index_in<Dim>>());
			if constexpr (noarr::HasOffsetAlong<Struct, Dim, decltype(own)>)
				e.along[2][id<Dim>] = to_u64(noarr::offset_along<Dim>(s, own));
			const auto ownl = l & own;
			if constexpr (noarr::HasOffsetAlong<Struct, Dim, std::remove_cvref_t<decltype(ownl)>>)
				e.along[1][id<Dim>] = to_u64(noarr::offset_along<Dim>(s, ownl));
		}
	}
	template<class V> static u64 to_u64(V v) {
		if constexpr (requires { V::value; }) return (u64)V::value;
		else return (u64)v;
	}
};

// what is reported with the given state
template<class Struct, class Nd, auto... Dims>
struct Report {
	Pool &p;
	const Struct &s;
	u64 no_stride, no_uniform;               // bit per dimension: recorded defects excluded
	std::vector<std::set<int>> contig;       // index sets with which contiguity is checked

	template<auto Dim, class NS> void level(NS ns, const St &st, u64) { with(ns, st.idx); }
	template<class T, class NS> void leaf(NS ns, const St &st) {
		// all indices but one
		(..., minus<Dims>(ns, st));
	}
	template<auto Dim, class NS> void minus(NS ns, const St &st) {
		if constexpr (NS::template contains<noarr::index_in<Dim>> && Nd::template met<decltype(ns.template remove<noarr::index_in<Dim>>())>) one<Dim>(ns.template remove<noarr::index_in<Dim>>(), less(st.idx, id<Dim>));
	}
	template<class NS>
	void with(NS ns, const Idx &i) {
		if constexpr (Nd::template met<NS>) with2(ns, i);
	}
	template<class NS>
	void with2(NS ns, const Idx &i) {
		(..., one<Dims>(ns, i));
		std::set<int> k;
		for (auto &[d, v] : i) k.insert(d);
		if (std::find(contig.begin(), contig.end(), k) != contig.end())
			if (noarr::is_contiguous(s, ns)) p.contiguous(i);
	}
	template<auto Dim, class NS>
	void one(NS ns, const Idx &i) {
		static constexpr int K = [] { int k = 0, r = -1; (..., (id<Dims> == id<Dim> ? (void)(r = k++) : (void)k++)); return r; }();
		if constexpr (!NS::template contains<noarr::index_in<Dim>>) {
			if constexpr (noarr::HasStrideAlong<Struct, Dim, NS>)
				if (!(no_stride >> K & 1)) p.stride(id<Dim>, i, stride_u64(noarr::stride_along<Dim>(s, ns)));
			if constexpr (noarr::IsUniformAlong<Struct, Dim, NS>)
				if (!(no_uniform >> K & 1)) p.uniform(id<Dim>, i);
		}
	}
};

// strides and partial offsets at sampled indices of structures too long to enumerate
template<class Struct, bool Const, auto... Dims>
struct BigReport {
	Ctx &c;
	const Struct &s;
	const N &m;
	u64 facts = 0;
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS> void leaf(NS ns, const St &st) {
		u64 sum = 0;
		(..., one<Dims>(ns, st, sum));
		if constexpr (Const && (... && noarr::HasOffsetAlong<Struct, Dims, NS>)) c.eq(sum, s | noarr::offset(ns), [&] { return "sum of the partial offsets at " + st.str(); });
	}
	template<auto Dim, class NS> void one(NS ns, const St &st, u64 &sum) {
		const auto rest = ns.template remove<noarr::index_in<Dim>>();
		St r = st, n = st;
		r.idx.erase(id<Dim>);
		n.idx[id<Dim>]++;
		const bool next = n.idx[id<Dim>] < *m->length(id<Dim>, r);
		const u64 dist = next ? m->offset(n) - m->offset(st) : 0;
		if constexpr (noarr::HasStrideAlong<Struct, Dim, std::remove_cvref_t<decltype(rest)>>)
			if (next) { facts++; c.eq(dist, stride_u64(noarr::stride_along<Dim>(s, rest)), [&] { return "distance of " + st.str() + " and its next neighbour in " + dim_name(id<Dim>) + " (expected: the stride reported)"; }); }
		if constexpr (noarr::HasOffsetAlong<Struct, Dim, NS>) {
			const u64 v = Collect<Struct, noarr::state<>, Need<>>::to_u64(noarr::offset_along<Dim>(s, ns));
			sum += v;
			if (next) {
				facts++;
				const auto ns2 = rest.template with<noarr::index_in<Dim>>(std::size_t(n.idx[id<Dim>]));
				c.eq((u64)noarr::offset_along<Dim>(s, ns2) - v, dist, [&] { return "offset along " + dim_name(id<Dim>) + ": difference between " + st.str() + " and its next neighbour (expected: that of the offsets)"; });
			}
		}
	}
};

} // namespace vf
