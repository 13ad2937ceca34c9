// Bridges generated programs: ties library structures to the model. Uses only the public API of the library.
#pragma once
#include "vf.hpp"
#include <noarr/structures_extended.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include <algorithm>
#include <cstring>
#include <type_traits>

namespace vf {

// element types of unusual sizes
struct Odd3 { char v[3]; };
struct Tri12 { int v[3]; };
struct Big24 { double v[3]; };

constexpr int get_id(char c) { return (unsigned char)c; }
template<auto I> constexpr int get_id(noarr::dim<I>) { return (int)(1000u + (unsigned)I); }
template<auto Dim> inline constexpr int id = get_id(Dim);

// Expected signature, written by the generator (not taken from the library)
template<auto Dim, class Sub> struct F {};
template<auto Dim, class... Subs> struct D {};
template<class T> struct S {};

// marks a static length in the expected signature: FS<Dim, N, Sub> behaves as F<Dim, Sub>
template<auto Dim, size_t Len, class Sub> struct FS {};

struct no_level { template<auto Dim, class NS> void level(NS, const St &, u64) const {} };

// Visits all indices of sig: at every level calls f.template level<Dim>(noarr_state, model_state, len),
// at the leaves f.template leaf<T>(noarr_state, model_state)
template<class T, class Fn, class NS>
void walk(Ctx &, S<T>, const N &, St &st, NS ns, Fn &f) { f.template leaf<T>(ns, st); }
template<auto Dim, class... Subs, class Fn, class NS>
void walk(Ctx &c, D<Dim, Subs...>, const N &m, St &st, NS ns, Fn &f);
template<auto Dim, class Sub, class Fn, class NS>
void walk(Ctx &c, F<Dim, Sub>, const N &m, St &st, NS ns, Fn &f) {
	auto len = m->length(id<Dim>, st);
	if (!len) { c.fail_msg = "model: length not defined"; throw Discard{}; }
	f.template level<Dim>(ns, st, *len);
	for (u64 i = 0; i < *len; i++) {
		st.idx[id<Dim>] = i;
		walk(c, Sub{}, m, st, ns & noarr::idx<Dim>((std::size_t)i), f);
		c.barrier();
	}
	st.idx.erase(id<Dim>);
}
template<auto Dim, size_t Len, class Sub, class Fn, class NS>
void walk(Ctx &c, FS<Dim, Len, Sub>, const N &m, St &st, NS ns, Fn &f) { walk(c, F<Dim, Sub>{}, m, st, ns, f); }
template<auto Dim, class... Subs, class Fn, class NS>
void walk(Ctx &c, D<Dim, Subs...>, const N &m, St &st, NS ns, Fn &f) {
	f.template level<Dim>(ns, st, sizeof...(Subs));
	[&]<size_t... I>(std::index_sequence<I...>) {
		(..., (st.idx[id<Dim>] = I, walk(c, Subs{}, m, st, ns & noarr::idx<Dim>(noarr::lit<I>), f), c.barrier()));
	}(std::index_sequence_for<Subs...>());
	st.idx.erase(id<Dim>);
}
template<class Sig, class Fn>
void walk_all(Ctx &c, Sig sig, const N &m, Fn &f) {
	St st;
	walk(c, sig, m, st, noarr::empty_state, f);
}

// Visits a few random index combinations (for huge lengths)
template<class T, class Fn, class NS>
bool sample1(Ctx &, S<T>, const N &, St &st, NS ns, Fn &f) { f.template leaf<T>(ns, st); return true; }
template<auto Dim, class... Subs, class Fn, class NS>
bool sample1(Ctx &c, D<Dim, Subs...>, const N &m, St &st, NS ns, Fn &f);
template<auto Dim, class Sub, class Fn, class NS>
bool sample1(Ctx &c, F<Dim, Sub>, const N &m, St &st, NS ns, Fn &f) {
	auto len = m->length(id<Dim>, st);
	if (!len) { c.fail_msg = "model: length not defined"; throw Discard{}; }
	f.template level<Dim>(ns, st, *len);
	if (!*len) return false;
	u64 k = c.draw(4);
	u64 i = k == 0 ? 0 : k == 1 ? *len - 1 : c.draw(*len);
	st.idx[id<Dim>] = i;
	bool r = sample1(c, Sub{}, m, st, ns & noarr::idx<Dim>((std::size_t)i), f);
	st.idx.erase(id<Dim>);
	return r;
}
template<auto Dim, size_t Len, class Sub, class Fn, class NS>
bool sample1(Ctx &c, FS<Dim, Len, Sub>, const N &m, St &st, NS ns, Fn &f) { return sample1(c, F<Dim, Sub>{}, m, st, ns, f); }
template<auto Dim, class... Subs, class Fn, class NS>
bool sample1(Ctx &c, D<Dim, Subs...>, const N &m, St &st, NS ns, Fn &f) {
	f.template level<Dim>(ns, st, sizeof...(Subs));
	u64 k = c.draw(sizeof...(Subs));
	bool r = false;
	[&]<size_t... I>(std::index_sequence<I...>) {
		(..., (I == k ? (st.idx[id<Dim>] = I, r = sample1(c, Subs{}, m, st, ns & noarr::idx<Dim>(noarr::lit<I>), f), 0) : 0));
	}(std::index_sequence_for<Subs...>());
	st.idx.erase(id<Dim>);
	return r;
}
template<class Sig, class Fn>
void sample_some(Ctx &c, Sig sig, const N &m, Fn &f, int n) {
	for (int i = 0; i < n; i++) {
		St st;
		sample1(c, sig, m, st, noarr::empty_state, f);
		c.barrier();
	}
}

// number of leaves, according to the model
template<class T> u64 count(Ctx &, S<T>, const N &, St &) { return 1; }
template<auto Dim, class... Subs> u64 count(Ctx &c, D<Dim, Subs...>, const N &m, St &st);
template<auto Dim, class Sub> u64 count(Ctx &c, F<Dim, Sub>, const N &m, St &st) {
	auto len = m->length(id<Dim>, st);
	if (!len) throw Discard{};
	if (*len > 100000) throw Discard{};
	u64 r = 0;
	for (u64 i = 0; i < *len; i++) { st.idx[id<Dim>] = i; r += count(c, Sub{}, m, st); if (r > 1000000) throw Discard{}; }
	st.idx.erase(id<Dim>);
	return r;
}
template<auto Dim, size_t L, class Sub> u64 count(Ctx &c, FS<Dim, L, Sub>, const N &m, St &st) { return count(c, F<Dim, Sub>{}, m, st); }
template<auto Dim, class... Subs> u64 count(Ctx &c, D<Dim, Subs...>, const N &m, St &st) {
	u64 r = 0;
	[&]<size_t... I>(std::index_sequence<I...>) { (..., (st.idx[id<Dim>] = I, r += count(c, Subs{}, m, st))); }(std::index_sequence_for<Subs...>());
	st.idx.erase(id<Dim>);
	return r;
}
template<class Sig> u64 count_all(Ctx &c, Sig sig, const N &m) { St st; return count(c, sig, m, st); }

// reads a library state into a model state
template<class Item> struct item_reader;
template<auto Dim, class V> struct item_reader<noarr::state_item<noarr::index_in<Dim>, V>> {
	template<class NS> static void get(const NS &ns, St &st) { st.idx[id<Dim>] = (u64)noarr::get_index<Dim>(ns); }
};
template<auto Dim, class V> struct item_reader<noarr::state_item<noarr::length_in<Dim>, V>> {
	template<class NS> static void get(const NS &ns, St &st) { st.len[id<Dim>] = (u64)ns.template get<noarr::length_in<Dim>>(); }
};
template<class... Items>
St read_state(const noarr::state<Items...> &ns) {
	St st;
	(..., item_reader<Items>::get(ns, st));
	return st;
}

// ------------------------------------------------------------------ C01 / C02 / C03 / C04: addresses against the model
template<class Struct>
struct AddressCheck {
	Ctx &c;
	const Struct &s;
	const N &m;
	u64 size;
	u64 leaves = 0;
	Occupancy *occ = nullptr;
	std::vector<u64> *offs = nullptr;
	bool ordered = false;   // elements only have to come in order, instead of at the model's address
	u64 last = 0;

	template<auto Dim, class NS>
	void level(NS ns, const St &st, u64 len) {
		c.eq(s | noarr::get_length<Dim>(ns), len, [&] { return "length of " + dim_name(id<Dim>) + " at " + st.str(); });
	}
	template<class T, class NS>
	void leaf(NS ns, const St &st) {
		leaves++;
		const u64 off = s | noarr::offset(ns);
		if (ordered) { c.expect(off >= last, [&] { return fmt("offset %llu of an element that follows one ending at %llu at ", off, last) + st.str(); }); last = off + sizeof(T); }
		else c.eq(off, m->offset(st), [&] { return "offset at " + st.str(); });
		static_assert(std::is_same_v<noarr::scalar_t<Struct, NS>, T>, "element type");
		c.expect(off <= size && sizeof(T) <= size - off, [&] { return fmt("element at offset %llu + %zu exceeds size %llu at ", off, sizeof(T), size) + st.str(); });
		if (occ) c.expect(occ->put(off, sizeof(T)), [&] { return "elements overlap at " + st.str(); });
		if (offs) offs->push_back(off);
		// get_at designates base + offset
		const char *base = (const char *)(std::uintptr_t)0x1000000;
		const auto &ref = s | noarr::get_at((const void *)base, ns);
		c.eq((u64)((const char *)&ref - base), off, "get_at address");
	}
};

// writing through the structure changes exactly the bytes [offset, offset + sizeof(T))
template<class Struct>
struct WriteCheck {
	Ctx &c;
	const Struct &s;
	u64 size;
	std::vector<unsigned char> buf;
	static constexpr u64 PAD = 64;
	WriteCheck(Ctx &c, const Struct &s, u64 size) : c(c), s(s), size(size), buf(size + 2 * PAD, 0xA5) {}
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS>
	void leaf(NS ns, const St &st) {
		const u64 off = s | noarr::offset(ns);
		auto &ref = s | noarr::get_at((void *)(buf.data() + PAD), ns);
		static_assert(std::is_same_v<decltype(ref), T &>);
		T v;
		std::memset((void *)&v, 0x5A, sizeof v);
		std::memcpy((void *)&ref, &v, sizeof v);
		for (u64 i = 0; i < buf.size(); i++) {
			const bool in = i >= PAD + off && i < PAD + off + sizeof(T);
			if (buf[i] != (in ? 0x5A : 0xA5)) { c.expect(false, fmt("write through the structure changed byte %lld, element is at %llu, at ", (long long)i - (long long)PAD, off) + st.str()); break; }
		}
		c.points++;
		std::memset((void *)&ref, 0xA5, sizeof v);
	}
};

// just collects offsets
template<class Struct>
struct Offsets {
	const Struct &s;
	std::vector<u64> offs;
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS> void leaf(NS ns, const St &) { offs.push_back(s | noarr::offset(ns)); }
};
template<class Struct> Offsets(const Struct &) -> Offsets<Struct>;

// lengths partly given in the state L
template<class Struct, class L>
struct LenCheck {
	Ctx &c;
	const Struct &s;
	const L &l;
	const N &m;
	u64 size;
	u64 leaves = 0;
	template<auto Dim, class NS>
	void level(NS ns, const St &st, u64 len) {
		c.eq(s | noarr::get_length<Dim>(l & ns), len, [&] { return "length of " + dim_name(id<Dim>) + " at " + st.str(); });
	}
	template<class T, class NS>
	void leaf(NS ns, const St &st) {
		leaves++;
		const u64 off = s | noarr::offset(l & ns);
		c.eq(off, m->offset(st), [&] { return "offset at " + st.str(); });
		c.eq(s | noarr::offset(ns & l), off, "offset with the state merged in the other order");
		c.expect(off <= size && sizeof(T) <= size - off, [&] { return fmt("element at offset %llu + %zu exceeds size %llu at ", off, sizeof(T), size) + st.str(); });
	}
};

// a value the compiler does not know
inline std::size_t opaque(u64 v) { volatile u64 x = v; return (std::size_t)x; }

inline bool total_ok(u64 size) { return size < (1ull << 60); }

} // namespace vf
