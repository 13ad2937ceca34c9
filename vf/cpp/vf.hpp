// Run-time part of the property-based testing machinery: choice sequences, shrinking, reporting,
// and the reference model of structures.  Independent of the library under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace vf {

using std::size_t;
typedef unsigned long long u64;

struct Discard {};
struct Fail {};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// One execution of a generated case. All randomness comes from draw().
struct Ctx {
	// choice sequence
	std::vector<u64> given; // replayed prefix
	bool replaying = false; // when replaying, missing choices are 0
	u64 rng = 0;
	std::vector<u64> taken;
	// outcome
	std::string fail_msg;
	std::vector<std::pair<std::string, std::string>> notes;
	std::map<std::string, u64> tags;
	bool is_nontrivial = false;
	u64 points = 0; // oracle comparisons
	u64 budget = 0;
	int mode = -1; // lengths: 0 free, 1 all nominal
	bool huge = false;

	u64 draw(u64 n); // uniform in [0, n), n >= 1
	u64 range(u64 lo, u64 hi) { return hi < lo ? throw Discard{} : lo + draw(hi - lo + 1); }
	// a length in [lo, hi], rarely lo
	u64 some(u64 lo, u64 hi) { return hi < lo ? throw Discard{} : hi == lo ? lo : draw(10) ? lo + 1 + draw(hi - lo) : lo; }
	bool flip(unsigned percent) { return draw(100) >= 100 - percent; }
	// a length: the nominal one with some probability, else 0..max
	u64 len(u64 nominal, u64 max);
	u64 biglen(u64 nominal, u64 max);
	u64 divisor(u64 l); // a divisor of l (1..4 if l == 0)
	u64 pick(std::initializer_list<u64> l) { return l.begin()[draw(l.size())]; }

	void require(bool b) { if (!b) throw Discard{}; }
	void note(const char *k, const std::string &v) { notes.emplace_back(k, v); }
	void note(const char *k, u64 v) { notes.emplace_back(k, std::to_string(v)); }
	void tag(const char *t, u64 n = 1) { tags[t] += n; }
	void nontrivial(bool b = true) { is_nontrivial |= b; }

	// record a failure without unwinding (usable inside noexcept callbacks)
	void expect(bool b, const std::string &msg) { points++; if (!b && fail_msg.empty()) fail_msg = msg; }
	template<class F> requires requires(F f) { std::string(f()); }
	void expect(bool b, F f) { points++; if (!b && fail_msg.empty()) fail_msg = f(); }
	template<class A, class B>
	bool eq(A a, B b, const char *what) {
		points++;
		if ((u64)a == (u64)b) return true;
		if (fail_msg.empty()) fail_msg = fmt("%s: got %llu, expected %llu", what, (u64)a, (u64)b);
		return false;
	}
	template<class F> requires requires(F f) { std::string(f()); }
	bool eq(u64 a, u64 b, F what) {
		points++;
		if (a == b) return true;
		if (fail_msg.empty()) fail_msg = std::string(what()) + fmt(": got %llu, expected %llu", a, b);
		return false;
	}
	// unwind if something failed
	void barrier() { if (!fail_msg.empty()) throw Fail{}; }
	// bound on callbacks: unwinds when more than expected
	void tick(u64 limit) { if (++budget > limit) { if (fail_msg.empty()) fail_msg = fmt("more than %llu calls", limit); throw Fail{}; } }
	void reset_tick() { budget = 0; }
};

struct Prog {
	const char *name;
	void (*fn)(Ctx &);
};
void register_prog(int idx, const char *name, void (*fn)(Ctx &));
struct Reg { Reg(int i, const char *n, void (*f)(Ctx &)) { register_prog(i, n, f); } };

// ---------------------------------------------------------------- model
// A dimension is an int id; a model state holds indices and lengths.
struct St {
	std::map<int, u64> idx, len;
	std::string str() const;
	St only_len() const { St s; s.len = len; return s; }
	St no_idx(int d) const { St s = *this; s.idx.erase(d); return s; }
	bool operator==(const St &) const = default;
};
std::string dim_name(int d);

struct Node;
using N = std::shared_ptr<const Node>;
typedef std::optional<u64> Opt;

struct Node {
	virtual ~Node() = default;
	virtual u64 size(St st) const = 0;
	virtual Opt length(int d, St st) const = 0;
	virtual u64 offset(St st) const = 0;
	// the state that reaches the innermost probe (see probe())
	virtual St reach(St st) const = 0;
};

N scalar(u64 size);
N vec(int d, N sub);
N tuple(int d, std::vector<N> subs);
N bcast(int d, N sub);
N setlen(int d, u64 v, N sub);
N fix(int d, u64 v, N sub);
N shift(int d, u64 v, N sub);
N slice(int d, u64 start, u64 len, N sub);
N span(int d, u64 start, u64 end, N sub);
N step(int d, u64 start, u64 stride, N sub);
N reverse(int d, N sub);
N rename(std::vector<std::pair<int, int>> from_to, N sub);
N pass(N sub);
N join(int a, int b, int d, N sub);
N blocks(int d, int major, int minor, N sub);
N blocks_dyn(int d, int major, int minor, int present, N sub);
N blocks_static(int d, int border, int major, int minor, u64 minor_len, N sub);
N merge(int major, int minor, int d, N sub);
N zcurve(std::vector<int> dims, int d, N sub);
N probe(N sub); // marks the structure in whose terms reach() answers

// several structures traversed together: a length is that of the first one that has the dimension
N uni(std::vector<std::pair<N, std::vector<int>>> subs);

// ---------------------------------------------------------------- traversal model
// A signature as run-time data: leaf (dim < 0), one sub-signature, or one per tuple member
struct Sg {
	int dim = -1;
	bool dep = false;
	std::vector<std::shared_ptr<const Sg>> subs;
};
using G = std::shared_ptr<const Sg>;
G gs();
G gf(int d, G sub);
G gd(int d, std::vector<G> subs);
// all index combinations in order, as states of the probe
void visit(const G &g, const N &mo, const std::function<void(const St &)> &f);
// what remains after the given indices are fixed
G remaining(const G &g, const std::map<int, u64> &fixed);
// one call per section over the selected dimensions, in the order of the signature or in the given order
void sections(const G &g, const N &mo, const std::vector<int> &sel, bool given_order, const std::function<void(const G &, const N &)> &f);

struct Ev {
	int node;
	St st;
	std::vector<u64> off;
	bool operator==(const Ev &) const = default;
	std::string str() const;
};
struct Log {
	std::vector<Ev> ev;
	u64 cap = 200000;
	bool model = false;      // too many calls: not this case
	void add(int node, St st, std::vector<u64> off = {}) {
		if (ev.size() >= cap) { if (model) throw Discard{}; throw Fail{}; }
		ev.push_back(Ev{node, std::move(st), std::move(off)});
	}
	void compare(Ctx &c, const Log &expected, const char *what) const;
	void compare_unordered(Ctx &c, const Log &expected, const char *what) const;
};

// length with no indices; discards the case when it is not defined
u64 mlen(const N &n, int d, const St &st = {});
// over several contexts (tuple branches): the minimum / gcd
u64 mlen_min(const N &n, int d, const std::vector<St> &sts);
u64 mlen_gcd(const N &n, int d, const std::vector<St> &sts);
bool mlen_all(const N &n, int d, const std::vector<St> &sts, const std::function<bool(u64)> &f);

// the model's size, unless it exceeds 2^60 (in which case the case is not generated)
bool total_ok_model(const N &n);

u64 hash_str(const std::string &s);

// byte occupancy, for disjointness
struct Occupancy {
	std::vector<unsigned char> used;
	u64 total = 0;
	explicit Occupancy(u64 size) : used(size) {}
	bool put(u64 off, u64 n) {
		if (off > used.size() || n > used.size() - off) return false;
		bool ok = true;
		for (u64 i = 0; i < n; i++) { ok &= !used[off + i]; used[off + i] = 1; }
		total += n;
		return ok;
	}
};

} // namespace vf
