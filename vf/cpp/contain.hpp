// Field containers: every field must come back as it was stored.
#pragma once
#include "states.hpp"
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace vf {

struct E0 { bool operator==(const E0 &) const = default; };
struct E1 { bool operator==(const E1 &) const = default; };
struct E2 final { bool operator==(const E2 &) const = default; };
struct E3 : E0 { bool operator==(const E3 &) const = default; };
struct ED { int x() const { return 5; } constexpr ED() {} bool operator==(const ED &) const = default; }; // not trivially constructible
struct Pad { int a; char b; bool operator==(const Pad &) const = default; };
struct Agg { short a[3]; E0 e; bool operator==(const Agg &) const = default; };
struct alignas(16) Al16 { char c; bool operator==(const Al16 &) const = default; };
struct One { E0 e; u64 v; bool operator==(const One &) const = default; };
enum class En : unsigned char { a, b, c };

template<class T>
constexpr bool same(const T &a, const T &b) {
	if constexpr (noarr::helpers::is_contain_v<T>)
		return [&]<size_t... I>(std::index_sequence<I...>) { return (... && same<std::remove_cvref_t<decltype(a.template get<I>())>>(a.template get<I>(), b.template get<I>())); }(std::make_index_sequence<std::tuple_size<T>::value>());
	else if constexpr (std::is_empty_v<T>) return true;
	else if constexpr (requires { *a == *b; a.get(); }) return a && b && *a == *b;
	else if constexpr (requires { a == b; }) return a == b;
	else if constexpr (requires { read_state(a); }) return read_state(a) == read_state(b);
	else return !std::memcmp(&a, &b, sizeof a); // (structures: lengths only, no padding)
}

inline constexpr int pool[64] = {};

template<class T>
void same_object(Ctx &c, const T &a, const T &b) {
	if constexpr (!std::is_empty_v<T>) c.expect(std::addressof(a) == std::addressof(b), "a binding refers to the field");
}

template<class... Ts> struct Fields {};

// checks all the fields of c against the values
template<class C, class... Ts>
void check_fields(Ctx &c, const char *what, const C &x, Fields<Ts...>, const Ts &...vals) {
	c.note("container", what);
	static_assert(std::tuple_size<typename std::remove_cvref_t<C>>::value == sizeof...(Ts));
	struct Range { u64 from, to; };
	std::vector<Range> ranges;
	[&]<size_t... I>(std::index_sequence<I...>) {
		(..., [&](const auto &v) {
			using T = std::remove_cvref_t<decltype(v)>;
			using G = decltype(x.template get<I>());
			static_assert(std::is_same_v<std::remove_cvref_t<G>, T>, "type of the field");
			static_assert(std::is_same_v<std::remove_cvref_t<typename std::tuple_element<I, C>::type>, T>, "tuple_element");
			c.expect(same<T>(x.template get<I>(), v), [&] { return fmt("field %zu of %zu has lost its value", I, sizeof...(Ts)); });
			if constexpr (!std::is_empty_v<T>) {
				static_assert(std::is_same_v<G, const T &>, "a stored field is returned by reference");
				const T &r = x.template get<I>();
				const u64 a = (const char *)std::addressof(r) - (const char *)std::addressof(x);
				c.expect(a <= sizeof(C) && sizeof(T) <= sizeof(C) - a, [&] { return fmt("field %zu is outside the container", I); });
				c.expect((u64)(std::uintptr_t)std::addressof(r) % alignof(T) == 0, [&] { return fmt("field %zu is misaligned", I); });
				ranges.push_back({a, a + sizeof(T)});
			}
		}(vals));
	}(std::index_sequence_for<Ts...>());
	for (size_t i = 0; i < ranges.size(); i++)
		for (size_t j = 0; j < i; j++) c.expect(ranges[i].to <= ranges[j].from || ranges[j].to <= ranges[i].from, "fields overlap");
}

// the container of the non-empty fields alone
template<class Done, class... Ts> struct nonempty;
template<class... Ds> struct nonempty<Fields<Ds...>> { using type = noarr::helpers::contain<Ds...>; static constexpr size_t n = sizeof...(Ds); };
template<class... Ds, class T, class... Ts>
struct nonempty<Fields<Ds...>, T, Ts...> : std::conditional_t<std::is_empty_v<T>, nonempty<Fields<Ds...>, Ts...>, nonempty<Fields<Ds..., T>, Ts...>> {};

template<class C, class... Ts>
void check_layout(Fields<Ts...>) {
	using NE = nonempty<Fields<>, Ts...>;
	static_assert(sizeof(C) == sizeof(typename NE::type), "empty fields take space");
	static_assert(alignof(C) == alignof(typename NE::type), "empty fields change the alignment");
	static_assert(std::is_empty_v<C> == (NE::n == 0), "emptiness of the container");
	if constexpr (NE::n == 1) {
		static_assert((... && (std::is_empty_v<Ts> || sizeof(C) == sizeof(Ts))), "a container of one non-empty field has its size");
		static_assert((... && (std::is_empty_v<Ts> || alignof(C) == alignof(Ts))), "a container of one non-empty field has its alignment");
	}
	if constexpr ((... && std::is_standard_layout_v<Ts>)) static_assert(std::is_standard_layout_v<C>, "standard layout");
	if constexpr ((... && noarr::IsSimple<Ts>)) static_assert(noarr::IsSimple<C>, "simple");
	static_assert(std::is_copy_constructible_v<C> == (... && std::is_copy_constructible_v<Ts>), "copyability");
	static_assert(std::is_move_constructible_v<C>, "movability");
	static_assert(std::is_trivially_copyable_v<C> == (... && (std::is_empty_v<Ts> || std::is_trivially_copyable_v<Ts>)), "trivial copyability");
}

} // namespace vf
