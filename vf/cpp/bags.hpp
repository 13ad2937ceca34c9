// Bags: every access must reach the bytes the model names.
#pragma once
#include "trav.hpp"
#include <cstdlib>

namespace vf {

template<class Bag, auto... Dims, class... Vs>
decltype(auto) at_state(const Bag &b, const noarr::state<noarr::state_item<noarr::index_in<Dims>, Vs>...> &st) {
	return b.template at<Dims...>(noarr::get_index<Dims>(st)...);
}
template<class Bag, auto... Dims, class... Vs>
u64 offset_state(const Bag &b, const noarr::state<noarr::state_item<noarr::index_in<Dims>, Vs>...> &st) {
	return b.template offset<Dims...>(noarr::get_index<Dims>(st)...);
}

inline void fill(void *p, u64 n, u64 seed) {
	unsigned char *b = (unsigned char *)p;
	u64 x = seed * 0x9E3779B97F4A7C15ull + 1;
	for (u64 i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = (unsigned char)(x >> 24); }
}

// Bag: type of the bag, Const: whether elements must be const
template<bool Const, class Bag>
struct BagCheck {
	Ctx &c;
	const Bag &b;
	const N &m;
	std::vector<unsigned char> image; // the bytes expected in the data
	u64 leaves = 0;
	bool writes;

	template<auto Dim, class NS>
	void level(NS ns, const St &st, u64 len) {
		c.eq(b.template length<Dim>(ns), len, [&] { return "bag length of " + dim_name(id<Dim>) + " at " + st.str(); });
		static_assert(Bag::template has_length<Dim, NS>());
	}
	template<class T, class NS>
	void leaf(NS ns, const St &st) {
		leaves++;
		const u64 off = m->offset(st);
		const unsigned char *base = (const unsigned char *)(const void *)b.data();
		decltype(auto) r1 = b[ns];
		decltype(auto) r2 = at_state(b, ns);
		typedef std::conditional_t<Const, const T &, T &> R;
		static_assert(std::is_same_v<decltype(r1), R> && std::is_same_v<decltype(r2), R>, "type of the accessed element");
		c.eq((const unsigned char *)&r1 - base, off, [&] { return "bag[state] address at " + st.str(); });
		c.eq((const unsigned char *)&r2 - base, off, [&] { return "bag.at address at " + st.str(); });
		c.eq(offset_state(b, ns), off, [&] { return "bag.offset at " + st.str(); });
		c.barrier();
		c.expect(!std::memcmp(&r1, image.data() + off, sizeof(T)), [&] { return "value read through the bag at " + st.str(); });
		if constexpr (!Const) if (writes) {
			T v;
			fill(&v, sizeof v, leaves * 77 + off);
			std::memcpy(&image[off], &v, sizeof v);
			std::memcpy((void *)&r1, &v, sizeof v);
			c.expect(!std::memcmp(base, image.data(), image.size()), [&] { return "write through the bag changed other bytes at " + st.str(); });
		}
	}
};

// fills the data with fresh bytes (or takes them as they are), then reads and writes all elements
template<bool Const, class Bag, class Sig>
u64 check_bag(Ctx &c, const Bag &b, Sig sig, const N &m, u64 size, int mode, const char *what) {
	c.note("bag", what);
	c.eq(b.size(), size, "bag size");
	static_assert(Bag::has_size());
	c.barrier();
	if (size && !b.data()) { c.expect(false, "bag has no data"); c.barrier(); }
	if constexpr (!Const) if (mode) fill((void *)b.data(), size, mode + size);
	BagCheck<Const, Bag> chk{c, b, m, {}, 0, mode != 0};
	const unsigned char *p = (const unsigned char *)(const void *)b.data();
	chk.image.assign(p, p + size);
	walk_all(c, sig, m, chk);
	return chk.leaves;
}

// the expected content as seen through one bag must be reachable through the other, same index
template<class Bag>
struct Values {
	Ctx &c;
	const Bag &b;
	const N &m;
	const std::vector<unsigned char> &image;
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS> void leaf(NS ns, const St &st) { c.expect(!std::memcmp(&b[ns], image.data() + m->offset(st), sizeof(T)), [&] { return "value lost at " + st.str(); }); }
};
template<class Bag> std::vector<unsigned char> bytes(const Bag &b, u64 size) {
	const unsigned char *p = (const unsigned char *)(const void *)b.data();
	return std::vector<unsigned char>(p, p + size);
}
template<class Bag, class Sig>
void check_values(Ctx &c, const Bag &b, Sig sig, const N &m, const std::vector<unsigned char> &image, const char *what) {
	c.note("bag", what);
	c.eq(b.size(), image.size(), "size of the bag");
	Values<Bag> v{c, b, m, image};
	walk_all(c, sig, m, v);
}

// bags over storage too big to exist: only the addresses are compared
template<class Bag>
struct BigBag {
	Ctx &c;
	const Bag &b;
	const N &m;
	u64 leaves = 0;
	template<auto Dim, class NS> void level(NS ns, const St &st, u64 len) { c.eq(b.template length<Dim>(ns), len, [&] { return "bag length of " + dim_name(id<Dim>) + " at " + st.str(); }); }
	template<class T, class NS>
	void leaf(NS ns, const St &st) {
		leaves++;
		const u64 off = m->offset(st), base = (u64)(const void *)b.data();
		c.eq((u64)&b[ns] - base, off, [&] { return "bag[state] address at " + st.str(); });
		c.eq((u64)&at_state(b, ns) - base, off, [&] { return "bag.at address at " + st.str(); });
		c.eq(offset_state(b, ns), off, [&] { return "bag.offset at " + st.str(); });
	}
};
template<class Bag, class Sig>
u64 big_bag(Ctx &c, const Bag &b, Sig sig, const N &m, u64 size, const char *what) {
	c.note("bag", what);
	c.eq(b.size(), size, "bag size");
	BigBag<Bag> v{c, b, m};
	sample_some(c, sig, m, v, 6);
	return v.leaves;
}

// owning bags of real size: some elements are compared with the bytes at the model's offset
template<class Bag>
struct LargeBag : BigBag<Bag> {
	const std::vector<unsigned char> &image;
	template<class T, class NS>
	void leaf(NS ns, const St &st) {
		BigBag<Bag>::template leaf<T>(ns, st);
		this->c.barrier();
		this->c.expect(!std::memcmp(&this->b[ns], image.data() + this->m->offset(st), sizeof(T)), [&] { return "value read through the bag at " + st.str(); });
	}
};
template<class Bag, class Sig>
u64 large_bag(Ctx &c, const Bag &b, Sig sig, const N &m, const std::vector<unsigned char> &image, const char *what) {
	c.note("bag", what);
	c.eq(b.size(), image.size(), "bag size");
	c.barrier();
	if (!image.empty()) c.expect(!std::memcmp((const void *)b.data(), image.data(), image.size()), "the data of the bag");
	LargeBag<Bag> v{{c, b, m, 0}, image};
	sample_some(c, sig, m, v, 8);
	return v.leaves;
}

struct Buffer { // malloc'ed, so that the sanitizer guards its ends
	void *p;
	explicit Buffer(u64 n) : p(std::malloc(n ? n : 1)) {}
	~Buffer() { std::free(p); }
	Buffer(const Buffer &) = delete;
};

} // namespace vf
