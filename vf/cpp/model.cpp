#include "vf.hpp"
#include <algorithm>
#include <numeric>
#include <tuple>

namespace vf {

std::string dim_name(int d) {
	if (d < 256) return std::string("'") + (char)d + "'";
	return "d" + std::to_string(d - 1000);
}
std::string St::str() const {
	std::string r = "{";
	for (auto [k, v] : idx) r += dim_name(k) + "=" + std::to_string(v) + " ";
	for (auto [k, v] : len) r += "len " + dim_name(k) + "=" + std::to_string(v) + " ";
	if (r.size() > 1) r.pop_back();
	return r + "}";
}

namespace {

const u64 LIMIT = 1ull << 60;
u64 mul(u64 a, u64 b) {
	u64 r;
	if (__builtin_mul_overflow(a, b, &r) || r > LIMIT) throw Discard{};
	return r;
}
bool has(const std::map<int, u64> &m, int d) { return m.count(d); }
Opt take(std::map<int, u64> &m, int d) {
	auto it = m.find(d);
	if (it == m.end()) return {};
	u64 v = it->second;
	m.erase(it);
	return v;
}
Opt peek(const std::map<int, u64> &m, int d) {
	auto it = m.find(d);
	if (it == m.end()) return {};
	return it->second;
}

struct Scalar : Node {
	u64 sz;
	explicit Scalar(u64 s) : sz(s) {}
	u64 size(St) const override { return sz; }
	Opt length(int, St) const override { return {}; }
	u64 offset(St) const override { return 0; }
	St reach(St st) const override { return st; }
};

struct Vec : Node {
	int d; N sub;
	Vec(int d, N s) : d(d), sub(std::move(s)) {}
	u64 size(St st) const override {
		auto l = take(st.len, d);
		if (!l) throw Discard{};
		st.idx.erase(d);
		return mul(*l, sub->size(st));
	}
	Opt length(int q, St st) const override {
		auto l = take(st.len, d);
		auto i = take(st.idx, d);
		if (q == d) return i ? Opt{} : l;
		return sub->length(q, st);
	}
	u64 offset(St st) const override {
		take(st.len, d);
		auto i = take(st.idx, d);
		if (!i) throw Discard{};
		return *i * sub->size(st) + sub->offset(st);
	}
	St reach(St st) const override { take(st.len, d); take(st.idx, d); return sub->reach(st); }
};

struct Tup : Node {
	int d; std::vector<N> subs;
	Tup(int d, std::vector<N> s) : d(d), subs(std::move(s)) {}
	u64 size(St st) const override {
		take(st.idx, d);
		u64 r = 0;
		for (auto &s : subs) r += s->size(st);
		if (r > LIMIT) throw Discard{};
		return r;
	}
	Opt length(int q, St st) const override {
		auto i = take(st.idx, d);
		if (q == d) return i ? Opt{} : Opt{subs.size()};
		if (!i) return {};
		return subs.at(*i)->length(q, st);
	}
	u64 offset(St st) const override {
		auto i = take(st.idx, d);
		if (!i) throw Discard{};
		u64 r = 0;
		for (u64 k = 0; k < *i; k++) r += subs[k]->size(st);
		return r + subs.at(*i)->offset(st);
	}
	St reach(St st) const override { auto i = take(st.idx, d); return subs.at(*i)->reach(st); }
};

struct Bcast : Node {
	int d; N sub;
	Bcast(int d, N s) : d(d), sub(std::move(s)) {}
	u64 size(St st) const override { take(st.idx, d); take(st.len, d); return sub->size(st); }
	Opt length(int q, St st) const override {
		auto l = take(st.len, d);
		auto i = take(st.idx, d);
		if (q == d) return i ? Opt{} : l;
		return sub->length(q, st);
	}
	u64 offset(St st) const override { take(st.idx, d); take(st.len, d); return sub->offset(st); }
	St reach(St st) const override { take(st.idx, d); take(st.len, d); return sub->reach(st); }
};

// Views: map a state down, everything else follows
struct View : Node {
	N sub;
	explicit View(N s) : sub(std::move(s)) {}
	virtual St down(St st) const = 0;
	u64 size(St st) const override { st.idx.clear(); return sub->size(down(st)); }
	u64 offset(St st) const override { return sub->offset(down(st)); }
	St reach(St st) const override { return sub->reach(down(st)); }
	Opt length(int q, St st) const override { return sub->length(q, down(st)); }
};

struct SetLen : View {
	int d; u64 v;
	SetLen(int d, u64 v, N s) : View(s), d(d), v(v) {}
	St down(St st) const override { st.len[d] = v; return st; }
};
struct Fix : View {
	int d; u64 v;
	Fix(int d, u64 v, N s) : View(s), d(d), v(v) {}
	St down(St st) const override { st.len.erase(d); st.idx[d] = v; return st; }
	u64 size(St st) const override { st.len.erase(d); return sub->size(st); }
	Opt length(int q, St st) const override { return q == d ? Opt{} : sub->length(q, down(st)); }
};
struct Shift : View {
	int d; u64 v;
	Shift(int d, u64 v, N s) : View(s), d(d), v(v) {}
	St down(St st) const override {
		if (has(st.idx, d)) st.idx[d] += v;
		if (has(st.len, d)) st.len[d] += v;
		return st;
	}
	Opt length(int q, St st) const override {
		if (q != d) return sub->length(q, down(st));
		if (has(st.idx, d)) return {};
		if (auto l = peek(st.len, d)) return l;
		auto l = sub->length(d, down(st));
		if (l) return *l - v;
		return {};
	}
};
struct Slice : View {
	int d; u64 start, len;
	Slice(int d, u64 a, u64 l, N s) : View(s), d(d), start(a), len(l) {}
	St down(St st) const override { if (has(st.idx, d)) st.idx[d] += start; return st; }
	Opt length(int q, St st) const override {
		auto l = sub->length(q, down(st));
		if (q == d && l) return len;
		return l;
	}
};
struct Step : View {
	int d; u64 start, stride;
	Step(int d, u64 a, u64 l, N s) : View(s), d(d), start(a), stride(l) {}
	St down(St st) const override { if (auto i = peek(st.idx, d)) st.idx[d] = start + *i * stride; return st; }
	Opt length(int q, St st) const override {
		auto l = sub->length(q, down(st));
		if (q != d || !l) return l;
		// the number of i >= 0 with start + i * stride < l
		if (*l <= start) return 0;
		return (*l - start - 1) / stride + 1;
	}
};
struct Reverse : View {
	int d;
	Reverse(int d, N s) : View(s), d(d) {}
	St down(St st) const override {
		if (auto i = take(st.idx, d)) {
			auto l = sub->length(d, st);
			if (!l) throw Discard{};
			st.idx[d] = *l - 1 - *i;
		}
		return st;
	}
};
struct Rename : View {
	std::vector<std::pair<int, int>> m; // internal -> external
	Rename(std::vector<std::pair<int, int>> m, N s) : View(s), m(std::move(m)) {}
	Opt inner(int e) const {
		for (auto [i, x] : m) if (x == e) return (u64)i;
		for (auto [i, x] : m) if (i == e) return {}; // hidden
		return (u64)e;
	}
	St down(St st) const override {
		St r;
		for (auto [k, v] : st.idx) if (auto i = inner(k)) r.idx[(int)*i] = v;
		for (auto [k, v] : st.len) if (auto i = inner(k)) r.len[(int)*i] = v;
		return r;
	}
	Opt length(int q, St st) const override {
		auto i = inner(q);
		if (!i) return {};
		return sub->length((int)*i, down(st));
	}
};
struct Pass : View {
	using View::View;
	St down(St st) const override { return st; }
};
struct Join : View {
	int a, b, d;
	Join(int a, int b, int d, N s) : View(s), a(a), b(b), d(d) {}
	St down(St st) const override {
		auto i = take(st.idx, d), l = take(st.len, d);
		for (int x : {a, b}) { st.idx.erase(x); st.len.erase(x); }
		if (i) st.idx[a] = st.idx[b] = *i;
		if (l) st.len[a] = st.len[b] = *l;
		return st;
	}
	Opt length(int q, St st) const override {
		if (q == d) return has(st.idx, d) ? Opt{} : sub->length(a, down(st));
		if (q == a || q == b) return {};
		return sub->length(q, down(st));
	}
};
struct Blocks : View {
	int d, M, m;
	Blocks(int d, int M, int m, N s) : View(s), d(d), M(M), m(m) {}
	virtual u64 other(u64 full, u64 part) const {
		if (part == 0 || full % part) throw Discard{};
		return full / part;
	}
	virtual void clean(St &st) const { for (int x : {d, M, m}) { st.idx.erase(x); st.len.erase(x); } }
	// lengths of the two new dimensions
	std::pair<Opt, Opt> lens(const St &st) const {
		auto lM = peek(st.len, M), lm = peek(st.len, m);
		if (lM && lm) return {lM, lm};
		St c = st;
		clean(c);
		auto l = sub->length(d, c);
		if (!l) return {lM, lm};
		if (lM) return {lM, other(*l, *lM)};
		if (lm) return {other(*l, *lm), lm};
		return {};
	}
	St down(St st) const override {
		auto iM = peek(st.idx, M), im = peek(st.idx, m), lM0 = peek(st.len, M), lm0 = peek(st.len, m);
		auto [lM, lm] = lens(st);
		clean(st);
		if (lM0 && lm0) st.len[d] = *lM0 * *lm0;
		if (iM && im && lm) st.idx[d] = *iM * *lm + *im;
		return st;
	}
	Opt length(int q, St st) const override {
		if (q == M) return has(st.idx, M) ? Opt{} : lens(st).first;
		if (q == m) return has(st.idx, m) ? Opt{} : lens(st).second;
		if (q == d) return {};
		return sub->length(q, down(st));
	}
};
struct BlocksDyn : Blocks {
	int p;
	BlocksDyn(int d, int M, int m, int p, N s) : Blocks(d, M, m, s), p(p) {}
	u64 other(u64 full, u64 part) const override {
		if (part == 0) throw Discard{};
		return (full + part - 1) / part;
	}
	void clean(St &st) const override { Blocks::clean(st); st.idx.erase(p); }
	Opt length(int q, St st) const override {
		if (q == p) {
			auto iM = peek(st.idx, M), im = peek(st.idx, m);
			if (!iM || !im || has(st.idx, p)) return {};
			auto lm = lens(st).second;
			if (!lm) return {};
			St c = st;
			auto lM0 = peek(st.len, M), lm0 = peek(st.len, m);
			clean(c);
			Opt l;
			if (lM0 && lm0) l = *lM0 * *lm0; else l = sub->length(d, c);
			if (!l) return {};
			return *iM * *lm + *im < *l ? 1 : 0;
		}
		return Blocks::length(q, st);
	}
};
struct BlocksStatic : View {
	int d, B, M, m; u64 ml;
	BlocksStatic(int d, int B, int M, int m, u64 ml, N s) : View(s), d(d), B(B), M(M), m(m), ml(ml) {}
	St clean(St st) const { for (int x : {d, B, M, m}) { st.idx.erase(x); st.len.erase(x); } return st; }
	St down(St st) const override {
		auto iB = peek(st.idx, B), iM = peek(st.idx, M), im = peek(st.idx, m);
		st = clean(st);
		if (iB && iM && im) {
			if (*iB == 0) st.idx[d] = *iM * ml + *im;
			else {
				auto l = sub->length(d, st);
				if (!l) throw Discard{};
				st.idx[d] = *l / ml * ml + *im;
			}
		}
		return st;
	}
	Opt length(int q, St st) const override {
		if (has(st.idx, q)) return {};
		if (q == B) return 2;
		if (q == M || q == m) {
			auto iB = peek(st.idx, B);
			if (!iB) return {};
			auto l = sub->length(d, clean(st));
			if (*iB == 0) return q == m ? Opt{ml} : l ? Opt{*l / ml} : Opt{};
			return q == M ? Opt{1} : l ? Opt{*l % ml} : Opt{};
		}
		if (q == d) return {};
		return sub->length(q, down(st));
	}
};
struct Merge : View {
	int M, m, d;
	Merge(int M, int m, int d, N s) : View(s), M(M), m(m), d(d) {}
	St clean(St st) const { for (int x : {d, M, m}) { st.idx.erase(x); st.len.erase(x); } return st; }
	St down(St st) const override {
		auto i = peek(st.idx, d), l = peek(st.len, d);
		st = clean(st);
		auto lM = sub->length(M, st), lm = sub->length(m, st);
		if (l && lM && !lm) {
			if (!*lM || *l % *lM) throw Discard{};
			lm = *l / *lM;
			st.len[m] = *lm;
		} else if (l && lm && !lM) {
			if (!*lm || *l % *lm) throw Discard{};
			st.len[M] = *l / *lm;
		}
		if (i && lm) {
			if (*lm == 0) throw Discard{};
			st.idx[M] = *i / *lm;
			st.idx[m] = *i % *lm;
		}
		return st;
	}
	Opt length(int q, St st) const override {
		if (q == d) {
			if (has(st.idx, d)) return {};
			if (auto l = peek(st.len, d)) return l;
			St c = down(st);
			auto lM = sub->length(M, c), lm = sub->length(m, c);
			if (lM && lm) return *lM * *lm;
			return {};
		}
		if (q == M || q == m) return {};
		return sub->length(q, down(st));
	}
};
struct Zcurve : View {
	std::vector<int> ds; int d;
	Zcurve(std::vector<int> ds, int d, N s) : View(s), ds(std::move(ds)), d(d) {}
	St clean(St st) const {
		st.idx.erase(d);
		for (int x : ds) { st.idx.erase(x); st.len.erase(x); }
		return st;
	}
	// The i-th point of the box in Morton order (bit b of dimension k is more significant than bit b of dimension k+1):
	// decide the bits from the most significant one, counting the points of the box on the zero side.
	static std::vector<u64> unrank(const std::vector<u64> &lens, u64 i) {
		const size_t n = lens.size();
		int top = 0;
		for (u64 l : lens) while (top < 63 && (l - 1) >> top) top++;
		std::vector<u64> pre(n, 0); // decided high bits
		std::vector<int> low(n, top); // number of undecided low bits
		auto cnt = [&](size_t k) -> u64 {
			u64 a = pre[k] << low[k];
			if (a >= lens[k]) return 0;
			u64 w = 1ull << low[k];
			return std::min(w, lens[k] - a);
		};
		for (int b = top; b-- > 0;)
			for (size_t k = 0; k < n; k++) {
				pre[k] <<= 1; low[k]--;
				u64 zero = 1;
				for (size_t q = 0; q < n; q++) zero *= cnt(q);
				if (i >= zero) { i -= zero; pre[k] |= 1; }
			}
		return pre;
	}
	St down(St st) const override {
		auto i = peek(st.idx, d);
		st = clean(st);
		if (i) {
			std::vector<u64> lens;
			for (int x : ds) { auto l = sub->length(x, st); if (!l) throw Discard{}; lens.push_back(*l); }
			u64 total = 1;
			for (u64 l : lens) total = mul(total, l);
			if (*i >= total) throw Discard{};
			auto t = unrank(lens, *i);
			for (size_t k = 0; k < ds.size(); k++) st.idx[ds[k]] = t[k];
		}
		return st;
	}
	Opt length(int q, St st) const override {
		if (has(st.idx, q)) return {};
		if (q == d) {
			u64 r = 1;
			St c = clean(st);
			for (int x : ds) { auto l = sub->length(x, c); if (!l) return {}; r *= *l; }
			return r;
		}
		for (int x : ds) if (x == q) return {};
		return sub->length(q, down(st));
	}
};
struct Probe : View {
	using View::View;
	St down(St st) const override { return st; }
	St reach(St st) const override { return st; }
};

struct Uni : Node {
	std::vector<std::pair<N, std::vector<int>>> subs;
	explicit Uni(std::vector<std::pair<N, std::vector<int>>> s) : subs(std::move(s)) {}
	u64 size(St) const override { throw Discard{}; }
	u64 offset(St) const override { throw Discard{}; }
	St reach(St st) const override { return st; }
	Opt length(int q, St st) const override {
		for (auto &[n, ds] : subs)
			if (std::find(ds.begin(), ds.end(), q) != ds.end()) return n->length(q, st);
		return {};
	}
};

} // namespace

N uni(std::vector<std::pair<N, std::vector<int>>> s) { return std::make_shared<Uni>(std::move(s)); }
N scalar(u64 s) { return std::make_shared<Scalar>(s); }
N vec(int d, N s) { return std::make_shared<Vec>(d, s); }
N tuple(int d, std::vector<N> s) { return std::make_shared<Tup>(d, s); }
N bcast(int d, N s) { return std::make_shared<Bcast>(d, s); }
N setlen(int d, u64 v, N s) { return std::make_shared<SetLen>(d, v, s); }
N fix(int d, u64 v, N s) { return std::make_shared<Fix>(d, v, s); }
N shift(int d, u64 v, N s) { return std::make_shared<Shift>(d, v, s); }
N slice(int d, u64 a, u64 l, N s) { return std::make_shared<Slice>(d, a, l, s); }
N span(int d, u64 a, u64 b, N s) { return std::make_shared<Slice>(d, a, b - a, s); }
N step(int d, u64 a, u64 b, N s) { return std::make_shared<Step>(d, a, b, s); }
N reverse(int d, N s) { return std::make_shared<Reverse>(d, s); }
N rename(std::vector<std::pair<int, int>> m, N s) { return std::make_shared<Rename>(m, s); }
N pass(N s) { return std::make_shared<Pass>(s); }
N join(int a, int b, int d, N s) { return std::make_shared<Join>(a, b, d, s); }
N blocks(int d, int M, int m, N s) { return std::make_shared<Blocks>(d, M, m, s); }
N blocks_dyn(int d, int M, int m, int p, N s) { return std::make_shared<BlocksDyn>(d, M, m, p, s); }
N blocks_static(int d, int B, int M, int m, u64 ml, N s) {
	if (ml == 0) throw Discard{};
	return std::make_shared<BlocksStatic>(d, B, M, m, ml, s);
}
N merge(int M, int m, int d, N s) { return std::make_shared<Merge>(M, m, d, s); }
N zcurve(std::vector<int> ds, int d, N s) { return std::make_shared<Zcurve>(ds, d, s); }
N probe(N s) { return std::make_shared<Probe>(s); }

bool total_ok_model(const N &n) { return n->size({}) <= LIMIT; }

u64 mlen(const N &n, int d, const St &st) {
	auto l = n->length(d, st);
	if (!l) throw Discard{};
	return *l;
}
u64 mlen_min(const N &n, int d, const std::vector<St> &sts) {
	u64 r = ~0ull;
	for (auto &s : sts) r = std::min(r, mlen(n, d, s));
	return r;
}
u64 mlen_gcd(const N &n, int d, const std::vector<St> &sts) {
	u64 r = 0;
	for (auto &s : sts) r = std::gcd(r, mlen(n, d, s));
	return r;
}
bool mlen_all(const N &n, int d, const std::vector<St> &sts, const std::function<bool(u64)> &f) {
	for (auto &s : sts) if (!f(mlen(n, d, s))) return false;
	return true;
}


// ---------------------------------------------------------------- traversal
G gs() { return std::make_shared<Sg>(); }
G gf(int d, G sub) { return std::make_shared<Sg>(Sg{d, false, {sub}}); }
G gd(int d, std::vector<G> subs) { return std::make_shared<Sg>(Sg{d, true, std::move(subs)}); }

static u64 level_len(const G &g, const N &mo, const St &st) {
	if (g->dep) return g->subs.size();
	auto l = mo->length(g->dim, st);
	if (!l) throw Discard{};
	return *l;
}
static void visit_rec(const G &g, const N &mo, St &st, const std::function<void(const St &)> &f) {
	if (g->dim < 0) { f(mo->reach(st)); return; }
	const u64 n = level_len(g, mo, st);
	for (u64 i = 0; i < n; i++) {
		st.idx[g->dim] = i;
		visit_rec(g->subs[g->dep ? i : 0], mo, st, f);
	}
	st.idx.erase(g->dim);
}
void visit(const G &g, const N &mo, const std::function<void(const St &)> &f) { St st; visit_rec(g, mo, st, f); }

G remaining(const G &g, const std::map<int, u64> &fixed) {
	if (g->dim < 0) return g;
	auto it = fixed.find(g->dim);
	if (it != fixed.end()) return remaining(g->subs[g->dep ? it->second : 0], fixed);
	auto r = std::make_shared<Sg>(Sg{g->dim, g->dep, {}});
	for (auto &s : g->subs) r->subs.push_back(remaining(s, fixed));
	return r;
}
namespace {
struct Sections {
	const G &g;
	const N &mo;
	const std::vector<int> &sel;
	const std::function<void(const G &, const N &)> &f;
	std::vector<std::pair<int, u64>> path;
	St st;
	bool selected(int d) const { return std::find(sel.begin(), sel.end(), d) != sel.end(); }
	void call() {
		N m = mo;
		for (auto [d, i] : path) m = fix(d, i, m);
		f(remaining(g, st.idx), m);
	}
	template<class Next>
	void loop(const G &x, Next next) {
		const u64 n = level_len(x, mo, st);
		for (u64 i = 0; i < n; i++) {
			st.idx[x->dim] = i;
			path.emplace_back(x->dim, i);
			next(x->subs[x->dep ? i : 0]);
			path.pop_back();
		}
		st.idx.erase(x->dim);
	}
	void by_signature(const G &x) {
		if (x->dim < 0) call();
		else if (selected(x->dim)) loop(x, [&](const G &s) { by_signature(s); });
		else if (x->subs.size() == 1) by_signature(x->subs[0]);
		else call();
	}
	G find(const G &x, int d) const {
		if (x->dim < 0) return {};
		if (x->dim == d) return x;
		if (!x->dep) return find(x->subs[0], d);
		auto it = st.idx.find(x->dim);
		return it == st.idx.end() ? G{} : find(x->subs[it->second], d);
	}
	void by_given(size_t k) {
		if (k == sel.size()) { call(); return; }
		G x = find(g, sel[k]);
		if (!x) throw Discard{};
		loop(x, [&](const G &) { by_given(k + 1); });
	}
};
}
void sections(const G &g, const N &mo, const std::vector<int> &sel, bool given, const std::function<void(const G &, const N &)> &f) {
	Sections s{g, mo, sel, f, {}, {}};
	if (given) s.by_given(0);
	else s.by_signature(g);
}

std::string Ev::str() const {
	std::string r = "step " + std::to_string(node) + " " + st.str();
	for (u64 o : off) r += " offset " + std::to_string(o);
	return r;
}
void Log::compare(Ctx &c, const Log &e, const char *what) const {
	c.points += e.ev.size() + 1;
	for (size_t i = 0; i < ev.size() || i < e.ev.size(); i++) {
		if (i >= ev.size()) { c.expect(false, fmt("%s: call %zu missing, expected ", what, i) + e.ev[i].str()); return; }
		if (i >= e.ev.size()) { c.expect(false, fmt("%s: unexpected call %zu ", what, i) + ev[i].str()); return; }
		if (!(ev[i] == e.ev[i])) { c.expect(false, fmt("%s: call %zu is ", what, i) + ev[i].str() + ", expected " + e.ev[i].str()); return; }
	}
}
void Log::compare_unordered(Ctx &c, const Log &e, const char *what) const {
	auto key = [](const Ev &a, const Ev &b) { return std::tie(a.node, a.st.idx, a.st.len, a.off) < std::tie(b.node, b.st.idx, b.st.len, b.off); };
	Log x = *this, y = e;
	std::sort(x.ev.begin(), x.ev.end(), key);
	std::sort(y.ev.begin(), y.ev.end(), key);
	x.compare(c, y, what);
}

} // namespace vf
