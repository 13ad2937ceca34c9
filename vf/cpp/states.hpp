// C14: states
#pragma once
#include "walk.hpp"
#include <tuple>

namespace vf {

// a model state: tags are (kind, dim); kind 0 index, 1 length
typedef std::map<std::pair<int, int>, u64> Map;
inline std::string show(const Map &m) {
	std::string r = "{";
	for (auto &[k, v] : m) r += fmt(" %s%s=%lld", k.first ? "len:" : "", dim_name(k.second).c_str(), (long long)v);
	return r + " }";
}

template<class Tag> struct tag_of;
template<auto Dim> struct tag_of<noarr::index_in<Dim>> { static std::pair<int, int> get() { return {0, id<Dim>}; } };
template<auto Dim> struct tag_of<noarr::length_in<Dim>> { static std::pair<int, int> get() { return {1, id<Dim>}; } };

template<class V> u64 to_u64(V v) {
	if constexpr (requires { V::value; }) return (u64)V::value;
	else return (u64)v;
}

template<class... Items>
Map read_map(const noarr::state<Items...> &s) {
	Map m;
	(..., (m[tag_of<typename Items::tag>::get()] = to_u64(s.template get<typename Items::tag>())));
	return m;
}
template<class... Items> constexpr std::size_t n_items(const noarr::state<Items...> &) { return sizeof...(Items); }

// every tag of the universe: presence, and value where present
template<class... Tags, class NS>
void check_state(Ctx &c, const NS &s, const Map &want, const char *what) {
	const auto one = [&]<class Tag>(Tag *) {
		const auto t = tag_of<Tag>::get();
		const bool has = NS::template contains<Tag>;
		c.expect(has == want.count(t) && noarr::state_contains<NS, Tag> == has, [&] { return std::string(what) + ": entry " + (t.first ? "length of " : "index of ") + dim_name(t.second) + (has ? " should not be there" : " is missing") + ", expected " + show(want); });
		if constexpr (NS::template contains<Tag>)
			if (want.count(t)) c.eq(to_u64(s.template get<Tag>()), want.at(t), [&] { return std::string(what) + ": " + (t.first ? "length of " : "index of ") + dim_name(t.second); });
	};
	(..., one((Tags *)nullptr));
	c.expect(n_items(s) == want.size(), [&] { return std::string(what) + fmt(": %zu entries, expected ", n_items(s)) + show(want); });
	c.expect(NS::is_empty == want.empty(), "is_empty");
	c.barrier();
}

template<class A, class B>
void check_cmp(Ctx &c, const A &a, const Map &ma, const B &b, const Map &mb) {
	c.expect((a == b) == (ma == mb), [&] { return "== of " + show(ma) + " and " + show(mb); });
	c.expect((a != b) == (ma != mb), [&] { return "!= of " + show(ma) + " and " + show(mb); });
	c.barrier();
}

inline Map mplus(const Map &a, const Map &b, int sign) {
	Map r = a;
	for (auto &[k, v] : b) r[k] = sign > 0 ? (r.count(k) ? r[k] : 0) + v : (r.count(k) ? r[k] : 0) - v;
	return r;
}
inline Map mmerge(const Map &a, const Map &b) { Map r = b; for (auto &[k, v] : a) r.emplace(k, v); return r; }
inline Map mneg(const Map &a) { Map r = a; for (auto &[k, v] : r) v = 0 - v; return r; }
inline bool mle(const Map &a, const Map &b, bool &def) {
	bool r = true;
	def = true;
	for (auto &[k, v] : a) { if (!b.count(k)) return false; r &= v <= b.at(k); }
	return r;
}

} // namespace vf
