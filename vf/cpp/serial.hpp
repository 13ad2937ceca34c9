// C17: text written and read by serialize_data / deserialize_data
#pragma once
#include <cmath>
#include "bags.hpp"
#include <noarr/structures/interop/serialize_data.hpp>
#include <iomanip>
#include <limits>
#include <sstream>

namespace vf {

struct Rnd {
	u64 x;
	explicit Rnd(u64 seed) : x(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	u64 operator()() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull; }
	u64 operator()(u64 n) { return ((*this)() >> 11) % n; }
};

template<class T> T text_value(Rnd &r) {
	if constexpr (std::is_same_v<T, bool>) return r(2);
	else if constexpr (sizeof(T) == 1) return (T)('!' + r(94)); // written and read as a character
	else if constexpr (std::is_floating_point_v<T>) {
		typedef std::numeric_limits<T> L;
		switch (r(8)) {
		case 0: return T(0);
		case 1: return -T(0);
		case 2: return L::max();
		case 3: return -L::min();
		case 4: return T(1) / T(3);
		case 5: return (T)(long long)r(1000) - 500;
		default: return std::ldexp(T((double)(r() >> 11)) * (r(2) ? 1 : -1), (int)r(60) - 80);
		}
	} else {
		typedef std::numeric_limits<T> L;
		switch (r(6)) {
		case 0: return L::min();
		case 1: return L::max();
		case 2: return T(0);
		case 3: return (T)r(100);
		default: return (T)r();
		}
	}
}

// puts a value in each element (once)
struct PutValues {
	const N &m;
	unsigned char *p;
	Rnd rnd;
	std::map<u64, u64> seen;
	u64 leaves = 0;
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS> void leaf(NS, const St &st) {
		leaves++;
		const u64 off = m->offset(st);
		if (!seen.emplace(off, sizeof(T)).second) return;
		T v = text_value<T>(rnd);
		std::memcpy(p + off, &v, sizeof v);
	}
};

// the expected text, token by token
struct Tokens {
	const N &m;
	const unsigned char *p;
	std::vector<std::string> tok;
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS> void leaf(NS, const St &st) {
		T v;
		std::memcpy(&v, p + m->offset(st), sizeof v);
		std::ostringstream o;
		o << std::setprecision(17) << v;
		tok.push_back(o.str());
	}
};

// compares the elements reached through another layout with those of the original; counts the bytes they take
struct SameValues {
	Ctx &c;
	const N &ma, &mb;
	const unsigned char *a, *b;
	std::vector<unsigned char> &covered;
	u64 first;
	std::string what;
	u64 k = 0;
	template<auto Dim, class NS> void level(NS, const St &, u64) {}
	template<class T, class NS> void leaf(NS, const St &st) {
		const u64 oa = ma->offset(st), ob = mb->offset(st);
		std::fill(covered.begin() + ob, covered.begin() + ob + sizeof(T), 1);
		if (k++ >= first) return;
		c.expect(!std::memcmp(a + oa, b + ob, sizeof(T)), [&] { return what + ": value of the element at " + st.str(); });
	}
};

template<class S, class SA>
void read_back(Ctx &c, SA siga, const N &ma, const unsigned char *a, const S &s, const N &mb, u64 size, const std::string &text, u64 count, u64 all, const std::string &what, bool dup) {
	c.barrier();
	Buffer buf(size);
	fill(buf.p, size, 5 + count);
	std::vector<unsigned char> before((unsigned char *)buf.p, (unsigned char *)buf.p + size), covered(size, 0);
	std::istringstream in(text);
	auto &r = noarr::deserialize_data(in, s, buf.p);
	c.expect(&r == &in, [&] { return what + ": the stream is not returned"; });
	c.expect(count == all ? !in.fail() : in.fail(), [&] { return what + (count == all ? ": the stream is in a failed state" : ": the stream is not in a failed state"); });
	SameValues v{c, ma, mb, a, (const unsigned char *)buf.p, covered, dup && count < all ? 0 : count, what};
	walk_all(c, siga, ma, v);
	c.barrier();
	for (u64 i = 0; i < size; i++)
		if (!covered[i]) c.expect(((unsigned char *)buf.p)[i] == before[i], [&] { return what + fmt(": byte %llu, which belongs to no element, was changed", i); });
	if (count == all) {
		std::string rest;
		in >> rest;
		c.expect(rest == "rest", [&] { return what + ": the text after the last element was consumed"; });
	}
	c.barrier();
}

// accepts a limited number of characters
struct Limited : std::streambuf {
	std::string got;
	u64 limit;
	explicit Limited(u64 l) : limit(l) {}
	int_type overflow(int_type ch) override { if (got.size() >= limit) return traits_type::eof(); got.push_back((char)ch); return ch; }
};

template<class S, class Sig>
u64 check_serial(Ctx &c, const S &s, Sig sig, const N &m, u64 size, bool more) {
	Buffer buf(size);
	fill(buf.p, size, 3);
	auto *p = (unsigned char *)buf.p;
	PutValues put{m, p, Rnd(c.draw(1000000)), {}, 0};
	walk_all(c, sig, m, put);
	const bool dup = put.seen.size() != put.leaves;
	if (dup) c.tag("elements repeated");
	Tokens tk{m, p, {}};
	walk_all(c, sig, m, tk);
	std::string text;
	for (auto &t : tk.tok) text += t + "\n";
	const std::vector<unsigned char> image(p, p + size);
	const u64 all = tk.tok.size();

	{
		std::ostringstream o;
		o << std::setprecision(17);
		auto &r = noarr::serialize_data(o, s, (const void *)p);
		c.expect(&r == &o, "serialize_data does not return the stream");
		c.expect(o.str() == text, [&] { return "serialized text: got \"" + o.str().substr(0, 200) + "\", expected \"" + text.substr(0, 200) + "\""; });
		c.expect(!std::memcmp(p, image.data(), size), "serialize_data changed the data");
	}
	{
		std::ostringstream o;
		o << std::setprecision(17);
		const auto bag = noarr::make_bag(s, (const void *)p);
		noarr::serialize_data(o, bag);
		noarr::serialize_data(o, noarr::make_bag(s, buf.p));
		c.expect(o.str() == text + text, [&] { return "serialized text of two bags: got \"" + o.str().substr(0, 200) + "\""; });
		c.expect(noarr::serialize_data(std::ostringstream() << std::setprecision(17), bag).rdbuf() != nullptr, "temporary stream");
	}
	c.barrier();
	read_back(c, sig, m, p, s, m, size, text + "rest", all, all, "read back", dup);
	{
		std::string t2;
		for (auto &t : tk.tok) { const u64 k = c.draw(4); t2 += t + (k == 0 ? " " : k == 1 ? "\n\n\t" : k == 2 ? "\n" : "  "); }
		read_back(c, sig, m, p, s, m, size, t2 + "rest", all, all, "read back with other white space", dup);
	}
	if (more && all) {
		const u64 k = c.draw(all);
		std::string t2;
		for (u64 i = 0; i < k; i++) t2 += tk.tok[i] + "\n";
		read_back(c, sig, m, p, s, m, size, t2, k, all, "incomplete input", dup);
		Limited lim(c.draw(text.size()));
		std::ostream o(&lim);
		o << std::setprecision(17);
		auto &r = noarr::serialize_data(o, s, (const void *)p);
		c.expect(!r, "the output stream is not in a failed state after a failed write");
		c.expect(text.compare(0, lim.got.size(), lim.got) == 0, "text written before a failed write");
	}
	{
		// through a bag, and two structures in one stream
		Buffer b1(size), b2(size);
		fill(b1.p, size, 8); fill(b2.p, size, 9);
		auto bag1 = noarr::make_bag(s, b1.p), bag2 = noarr::make_bag(s, b2.p);
		std::stringstream io;
		io << std::setprecision(17);
		noarr::serialize_data(io, s, (const void *)p);
		noarr::serialize_data(io, s, (const void *)p);
		noarr::deserialize_data(noarr::deserialize_data(io, bag1), bag2);
		std::vector<unsigned char> cov(size, 0);
		SameValues v1{c, m, m, p, (const unsigned char *)b1.p, cov, all, "first of two structures in one stream"}, v2{c, m, m, p, (const unsigned char *)b2.p, cov, all, "second of two structures in one stream"};
		walk_all(c, sig, m, v1);
		walk_all(c, sig, m, v2);
		c.expect(!io.fail(), "the stream failed after two structures");
	}
	c.barrier();
	return all;
}

// written through one layout, read through another
template<class SA, class SB, class Sig>
void check_transfer(Ctx &c, const SA &sa, const N &ma, u64 sizea, const SB &sb, const N &mb, u64 sizeb, Sig sig) {
	Buffer buf(sizea);
	fill(buf.p, sizea, 4);
	PutValues put{ma, (unsigned char *)buf.p, Rnd(c.draw(1000000)), {}, 0};
	walk_all(c, sig, ma, put);
	std::ostringstream o;
	o << std::setprecision(17);
	noarr::serialize_data(o, sa, (const void *)buf.p);
	read_back(c, sig, ma, (const unsigned char *)buf.p, sb, mb, sizeb, o.str() + "rest", put.leaves, put.leaves, "read into another layout", false);
	c.tag("another layout");
}

} // namespace vf
