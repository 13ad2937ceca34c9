// C23: signatures and predicates
#pragma once
#include "walk.hpp"
#include <noarr/structures/extra/struct_concepts.hpp>
#include <noarr/structures/extra/struct_traits.hpp>

namespace vf {

// shape of the library's signature against the expected one
template<class E, class A> struct same_shape : std::false_type {};
template<class T> struct same_shape<S<T>, noarr::scalar_sig<T>> : std::true_type {};
template<auto Dim, class ES, class L, class AS>
struct same_shape<F<Dim, ES>, noarr::function_sig<Dim, L, AS>> : same_shape<ES, AS> {};
template<auto Dim, class... ES, class... AS>
requires (sizeof...(ES) == sizeof...(AS))
struct same_shape<D<Dim, ES...>, noarr::dep_function_sig<Dim, AS...>> : std::bool_constant<(... && same_shape<ES, AS>::value)> {};

// every static length in the signature is the actual one
template<class T> void static_lengths(Ctx &, noarr::scalar_sig<T> *, const N &, St &, u64 &) {}
template<auto Dim, class... Subs> void static_lengths(Ctx &c, noarr::dep_function_sig<Dim, Subs...> *, const N &m, St &st, u64 &n);
template<auto Dim, class L, class Sub>
void static_lengths(Ctx &c, noarr::function_sig<Dim, L, Sub> *, const N &m, St &st, u64 &n) {
	auto len = m->length(id<Dim>, st);
	if constexpr (L::is_static) {
		n++;
		c.expect(len.has_value(), [&] { return "the signature has a static length of " + dim_name(id<Dim>) + ", which has none"; });
		if (len) c.eq(L::value, *len, [&] { return "static length of " + dim_name(id<Dim>) + " in the signature, at " + st.str(); });
	}
	if (!len) return;
	for (u64 i = 0; i < *len; i++) {
		st.idx[id<Dim>] = i;
		static_lengths(c, (Sub *)nullptr, m, st, n);
	}
	st.idx.erase(id<Dim>);
}
template<auto Dim, class... Subs>
void static_lengths(Ctx &c, noarr::dep_function_sig<Dim, Subs...> *, const N &m, St &st, u64 &n) {
	auto len = m->length(id<Dim>, st);
	c.expect(len && *len == sizeof...(Subs), "number of branches of a tuple dimension in the signature");
	c.barrier();
	[&]<size_t... I>(std::index_sequence<I...>) {
		(..., (st.idx[id<Dim>] = I, static_lengths(c, (Subs *)nullptr, m, st, n)));
	}(std::index_sequence_for<Subs...>());
	st.idx.erase(id<Dim>);
}

inline bool mdef_offset(const N &m, const St &st) { try { m->offset(st); return true; } catch (Discard &) { return false; } }
inline bool mdef_size(const N &m, const St &st) { try { m->size(st); return true; } catch (Discard &) { return false; } }

// has_length<Dim> at a state, and the length itself when it is there
template<auto Dim, class Struct, class NS>
void pred_length(Ctx &c, const Struct &s, NS ns, const N &m, const St &st) {
	constexpr bool has = Struct::template has_length<Dim, NS>();
	const bool has2 = s | noarr::has_length<Dim, NS>();
	const auto want = m->length(id<Dim>, st);
	c.expect(has == want.has_value() && has2 == has, [&] { return fmt("has_length of %s at %s says %d", dim_name(id<Dim>).c_str(), st.str().c_str(), (int)has); });
	if constexpr (has) {
		if (want) c.eq(s | noarr::get_length<Dim>(ns), *want, [&] { return "length of " + dim_name(id<Dim>) + " at " + st.str(); });
	}
}
template<class Struct, class NS>
void pred_offset(Ctx &c, const Struct &s, NS ns, const N &m, const St &st, bool full) {
	// the predicate is a constant: the type of the result cannot depend on it otherwise
	using P = decltype(noarr::has_offset<NS>());
	const bool has = s | P();
	const bool def = mdef_offset(m, st);
	if (!def || full) c.expect(has == def, [&] { return fmt("has_offset at %s says %d", st.str().c_str(), (int)has); });
	if constexpr (requires { typename noarr::scalar_t<Struct, NS>; }) {
		if constexpr (noarr::has_offset_of<noarr::scalar<noarr::scalar_t<Struct, NS>>, Struct, NS>()) {
			c.expect(has, "has_offset and has_offset_of differ");
			if (def) (void)(s | noarr::offset(ns)); // it compiles; values are compared in C01 to C04
		} else c.expect(!has, "has_offset and has_offset_of differ");
	}
}
template<class Struct, class NS>
void pred_size(Ctx &c, const Struct &s, NS ns, const N &m, const St &st) {
	const bool has = s | noarr::has_size<NS>();
	const bool def = mdef_size(m, st);
	c.expect(has == def, [&] { return fmt("has_size at %s says %d", st.str().c_str(), (int)has); });
	if constexpr (Struct::template has_size<NS>())
		if (def) c.eq(s | noarr::get_size(ns), m->size(st), [&] { return "size at " + st.str(); });
}

} // namespace vf
