// Parallel reduction: any schedule must give the sequential result.
#pragma once
#include "para.hpp"
#include "bags.hpp"
#include <limits>

namespace vf {

struct Acc { u64 n, sum, eor; bool operator==(const Acc &) const = default; };

constexpr u64 mix(u64 h) { h ^= h >> 31; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29); }
inline u64 hash_st(const St &st) {
	u64 h = 12345;
	for (auto &[d, i] : st.idx) h = mix(h ^ ((u64)d * 1000003 + i));
	return h;
}

// commutative monoids: 0 +, 1 max, 2 min, 3 xor, 4 *, 5 |, 6 &
template<class T> struct Mon {
	static constexpr int kinds = std::is_same_v<T, Acc> ? 1 : std::is_floating_point_v<T> ? 3 : 7;
	int k;
	T neutral() const {
		if constexpr (std::is_same_v<T, Acc>) return Acc{0, 0, 0};
		else switch (k) {
		case 1: return std::numeric_limits<T>::lowest();
		case 2: return std::numeric_limits<T>::max();
		case 4: return T(1);
		case 6: if constexpr (std::is_integral_v<T>) return T(~T(0));
		}
		return T(0);
	}
	T value(u64 h) const {
		if constexpr (std::is_same_v<T, Acc>) return Acc{1, h, h};
		else if constexpr (std::is_floating_point_v<T>) return T(h % 2001) - T(1000);
		else return k == 4 ? T(h | 1) : T(h);
	}
	T operator()(T a, T b) const {
		if constexpr (std::is_same_v<T, Acc>) return Acc{a.n + b.n, a.sum + b.sum, a.eor ^ b.eor};
		else {
			if (k == 1) return a < b ? b : a;
			if (k == 2) return a < b ? a : b;
			if constexpr (std::is_integral_v<T>) {
				using U = std::make_unsigned_t<T>;
				const u64 x = (U)a, y = (U)b;
				switch (k) {
				case 3: return T(U(x ^ y));
				case 4: return T(U(x * y));
				case 5: return T(U(x | y));
				case 6: return T(U(x & y));
				}
				return T(U(x + y));
			} else return a + b;
		}
	}
};

// adds pseudo-random indices in those dimensions of the output that the input does not have
template<class T, class Out, class NS, class Fn>
void complete(S<T>, const Out &, NS ns, u64, const Fn &f) { f(ns); }
template<auto Dim, class... Subs, class Out, class NS, class Fn>
void complete(D<Dim, Subs...>, const Out &out, NS ns, u64 h, const Fn &f);
template<auto Dim, class Sub, class Out, class NS, class Fn>
void complete(F<Dim, Sub>, const Out &out, NS ns, u64 h, const Fn &f) {
	if constexpr (NS::template contains<noarr::index_in<Dim>>) complete(Sub{}, out, ns, h, f);
	else {
		const u64 len = out | noarr::get_length<Dim>(ns);
		h = mix(h + 7);
		if (len) complete(Sub{}, out, ns & noarr::idx<Dim>((std::size_t)(h % len)), h, f);
	}
}
template<auto Dim, class... Subs, class Out, class NS, class Fn>
void complete(D<Dim, Subs...>, const Out &out, NS ns, u64 h, const Fn &f) {
	h = mix(h + 7);
	[&]<size_t... I>(std::index_sequence<I...>) {
		(..., (h % sizeof...(Subs) == I ? complete(Subs{}, out, ns & noarr::idx<Dim>(noarr::lit<I>), h, f) : void()));
	}(std::index_sequence_for<Subs...>());
}
inline void mcomplete(const G &g, const N &out, const St &in, St st, u64 h, const std::function<void(const St &)> &f) {
	if (g->dim < 0) return f(st);
	const auto it = in.idx.find(g->dim);
	if (it != in.idx.end()) st.idx[g->dim] = it->second;
	else {
		const u64 len = mlen(out, g->dim, st);
		h = mix(h + 7);
		if (!len) return;
		st.idx[g->dim] = h % len;
	}
	mcomplete(g->subs[g->dep ? st.idx[g->dim] : 0], out, in, st, h, f);
}

struct Jitter {
	u64 seed = 0;
	std::mutex mut;
	std::set<std::thread::id> threads;
	std::atomic<int> naps{200};
	void operator()(u64 h) {
		h = mix(h + seed);
		// long enough for the other threads to wake up and take their share
		if (h % 8 == 5 && naps-- > 0) std::this_thread::sleep_for(std::chrono::microseconds(20));
		if (h % 4 == 0) for (volatile u64 k = 0; k < h / 4 % 600; k++) { }
		else if (h % 4 == 1) std::this_thread::yield();
		if (h % 16 == 3) { std::lock_guard<std::mutex> l(mut); threads.insert(std::this_thread::get_id()); }
	}
};

} // namespace vf
