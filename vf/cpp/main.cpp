// Driver: runs the registered programs over seeded choice sequences, shrinks failures, prints JSON lines.
#include "vf.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {

std::string fmt(const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	char buf[1024];
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

static u64 mix(u64 z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
u64 hash_str(const std::string &s) {
	u64 h = 1469598103934665603ull;
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
	return h;
}

// choices of the running child, kept in shared memory so that a crash does not lose them
static const size_t SH = 1 << 14;
static u64 *g_sh = nullptr;

u64 Ctx::draw(u64 n) {
	if (n == 0) throw Discard{};
	u64 v;
	if (taken.size() < given.size()) {
		v = given[taken.size()];
		if (v >= n) v = n - 1;
	} else if (replaying) {
		v = 0;
	} else {
		rng = mix(rng);
		v = n == 1 ? 0 : rng % n;
	}
	taken.push_back(v);
	if (g_sh && taken.size() < SH) { g_sh[0] = taken.size(); g_sh[taken.size()] = v; }
	return v;
}
u64 Ctx::len(u64 nominal, u64 max) {
	if (mode < 0) mode = (int)draw(3);
	if (mode == 2) return nominal;
	u64 k = draw(12);
	if (k == 0) return 0;
	if (k >= 9 || max == 0) return nominal;
	return 1 + draw(max);
}
u64 Ctx::biglen(u64 nominal, u64 max) {
	u64 k = draw(5);
	if (k == 4 && !huge) { huge = true; return draw(max << 13) + 1; }      // one length beyond 2^32 at most
	if (k == 0) return draw(4);
	if (k == 1) return nominal;
	if (k == 2) return draw(max) + 1;
	u64 sh = draw(40);
	u64 m = max >> (sh % 40);
	return m ? draw(m) + 1 : 1;
}
u64 Ctx::divisor(u64 l) {
	if (l == 0) return draw(4) + 1;
	std::vector<u64> ds;
	for (u64 i = 1; i * i <= l && i < 100000; i++)
		if (l % i == 0) { ds.push_back(i); if (i != l / i) ds.push_back(l / i); }
	std::sort(ds.begin(), ds.end());
	return ds[draw(ds.size())];
}

static std::map<int, Prog> &progs() { static std::map<int, Prog> p; return p; }
void register_prog(int i, const char *n, void (*f)(Ctx &)) { progs()[i] = {n, f}; }

static std::string esc(const std::string &s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32) r += fmt("\\u%04x", c);
		else r += c;
	}
	return r;
}
static std::string notes_json(const Ctx &c) {
	std::string r = "{";
	for (auto &[k, v] : c.notes) { if (r.size() > 1) r += ","; r += "\"" + esc(k) + "\":\"" + esc(v) + "\""; }
	return r + "}";
}

enum Res { OK, DISCARD, FAIL };
static Res run(const Prog &p, Ctx &c) {
	try {
		p.fn(c);
	} catch (Discard) {
		return c.fail_msg.empty() ? DISCARD : FAIL;
	} catch (Fail) {
		if (c.fail_msg.empty()) c.fail_msg = "failed";
		return FAIL;
	} catch (std::exception &e) {
		if (c.fail_msg.empty()) c.fail_msg = std::string("exception: ") + e.what();
		return FAIL;
	}
	return c.fail_msg.empty() ? OK : FAIL;
}

// run in a child so that crashes and endless loops are contained
struct ChildRes { Res res; std::string msg, notes; std::vector<u64> taken; };
static ChildRes run_child(const Prog &p, const std::vector<u64> *given, u64 seed) {
	int fd[2];
	if (!g_sh) g_sh = (u64 *)mmap(nullptr, SH * sizeof(u64), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_sh[0] = 0;
	fflush(stdout);
	if (pipe(fd)) _exit(3);
	pid_t pid = fork();
	if (pid == 0) {
		close(fd[0]);
		signal(SIGSEGV, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGXCPU, SIG_DFL); signal(SIGVTALRM, SIG_IGN);
		rlimit rl{20, 22};
		setrlimit(RLIMIT_CPU, &rl);
		rlimit rc{0, 0};
		setrlimit(RLIMIT_CORE, &rc);
		Ctx c;
		if (given) { c.given = *given; c.replaying = true; } else c.rng = seed;
		Res r = run(p, c);
		std::string out = fmt("%d\n", r) + esc(c.fail_msg) + "\n" + notes_json(c) + "\n";
		for (u64 v : c.taken) out += fmt("%llu ", v);
		size_t off = 0;
		while (off < out.size()) { ssize_t w = write(fd[1], out.data() + off, out.size() - off); if (w <= 0) break; off += w; }
		_exit(0);
	}
	close(fd[1]);
	std::string buf;
	char tmp[4096];
	ssize_t n;
	while ((n = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, n);
	close(fd[0]);
	int st;
	waitpid(pid, &st, 0);
	ChildRes cr{};
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !buf.empty()) {
		size_t a = buf.find('\n'), b = buf.find('\n', a + 1), d = buf.find('\n', b + 1);
		cr.res = (Res)atoi(buf.c_str());
		cr.msg = buf.substr(a + 1, b - a - 1);
		cr.notes = buf.substr(b + 1, d - b - 1);
		const char *q = buf.c_str() + d + 1;
		char *e;
		for (;;) { u64 v = strtoull(q, &e, 10); if (e == q) break; cr.taken.push_back(v); q = e; }
	} else {
		cr.res = FAIL;
		if (WIFSIGNALED(st)) cr.msg = WTERMSIG(st) == SIGXCPU ? "did not terminate within 20 s of CPU time" : fmt("killed by signal %d", WTERMSIG(st));
		else cr.msg = fmt("abnormal exit %d", WEXITSTATUS(st));
		cr.notes = "{}";
		for (u64 i = 1; i <= g_sh[0]; i++) cr.taken.push_back(g_sh[i]);
	}
	return cr;
}

static u64 case_seed(u64 seed, const Prog &p, u64 k) { return mix(mix(seed * 1000003 + hash_str(p.name)) + k); }

static std::string choices_str(const std::vector<u64> &v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]);
	return r + "]";
}

static void shrink_and_report(int idx, const Prog &p, std::vector<u64> best, bool forked) {
	auto attempt = [&](const std::vector<u64> &cand, std::vector<u64> &taken, std::string &msg, std::string &notes) {
		if (forked) {
			auto r = run_child(p, &cand, 0);
			taken = r.taken; msg = r.msg; notes = r.notes;
			return r.res == FAIL;
		}
		Ctx c;
		c.given = cand;
		c.replaying = true;
		Res r = run(p, c);
		taken = c.taken; msg = esc(c.fail_msg); notes = notes_json(c);
		return r == FAIL;
	};
	std::vector<u64> t;
	std::string msg, notes, m2, n2;
	if (!attempt(best, t, msg, notes)) {
		// not reproducible from its choices (an outside influence): report as flaky
		printf("{\"prog\":%d,\"name\":\"%s\",\"flaky\":true,\"choices\":%s}\n", idx, p.name, choices_str(best).c_str());
		return;
	}
	int budget = forked ? 200 : 3000;
	bool improved = true;
	while (improved && budget > 0) {
		improved = false;
		for (size_t w : {8, 4, 2, 1}) {
			for (size_t i = 0; i + w <= best.size() && budget > 0;) {
				auto cand = best;
				cand.erase(cand.begin() + i, cand.begin() + i + w);
				budget--;
				if (attempt(cand, t, m2, n2)) { best = cand; msg = m2; notes = n2; improved = true; } else i++;
			}
		}
		for (size_t i = 0; i < best.size() && budget > 0; i++) {
			u64 lo = 0, hi = best[i];
			while (lo < hi && budget > 0) {
				u64 mid = lo + (hi - lo) / 2;
				auto cand = best;
				cand[i] = mid;
				budget--;
				if (attempt(cand, t, m2, n2)) { best = cand; msg = m2; notes = n2; hi = mid; improved = true; } else lo = mid + 1;
			}
		}
	}
	// replay three times
	int again = 0;
	for (int k = 0; k < 3; k++) again += attempt(best, t, msg, notes);
	printf("{\"prog\":%d,\"name\":\"%s\",\"fail\":true,\"replays\":%d,\"choices\":%s,\"msg\":\"%s\",\"notes\":%s}\n", idx, p.name, again, choices_str(best).c_str(), msg.c_str(), notes.c_str());
}

static int cur_prog = -1;
static u64 cur_case = 0;
static void on_crash(int sig) {
	char buf[128];
	int n = snprintf(buf, sizeof buf, "\n{\"crash\":%d,\"prog\":%d,\"case\":%llu}\n", sig, cur_prog, cur_case);
	fflush(stdout);
	if (write(1, buf, n)) {}
	_exit(77);
}

} // namespace vf

using namespace vf;

int main(int argc, char **argv) {
	u64 seed = 1, cases = 10;
	int only = -1;
	std::string mode = "run", choices;
	u64 casek = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&] { return std::string(argv[++i]); };
		if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--cases") cases = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--prog") only = atoi(nxt().c_str());
		else if (a == "--case") casek = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--choices") choices = nxt();
		else mode = a;
	}
	if (mode == "replay") {
		std::vector<u64> v;
		for (char *p = choices.data(); *p;) { char *e; u64 x = strtoull(p, &e, 10); if (e == p) { p++; continue; } v.push_back(x); p = e; }
		auto &p = progs().at(only);
		auto r = run_child(p, &v, 0);
		printf("%s: %s\n  parameters %s\n", r.res == FAIL ? "FAIL" : r.res == OK ? "OK" : "DISCARDED", r.msg.c_str(), r.notes.c_str());
		return r.res == FAIL ? 1 : 0;
	}
	if (mode == "crash") { // shrink a crashing case
		auto &p = progs().at(only);
		auto r = run_child(p, nullptr, case_seed(seed, p, casek));
		if (r.res == FAIL) shrink_and_report(only, p, r.taken, true);
		else printf("{\"prog\":%d,\"name\":\"%s\",\"flaky\":true,\"choices\":[]}\n", only, p.name);
		return 0;
	}
	rlimit rc{0, 0};
	setrlimit(RLIMIT_CORE, &rc);
	for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGXCPU, SIGVTALRM}) signal(s, on_crash);
	for (auto &[idx, p] : progs()) {
		if (only >= 0 && idx != only) continue;
		u64 ok = 0, disc = 0, nt = 0, points = 0;
		std::set<u64> distinct;
		std::map<std::string, u64> tags;
		std::vector<std::string> samples;
		cur_prog = idx;
		bool failed = false;
		u64 tries = 0;
		while (ok < cases && tries < cases * 8 + 8) {
			cur_case = tries;
			itimerval tv{{0, 0}, {20, 0}};
			setitimer(ITIMER_VIRTUAL, &tv, nullptr);
			Ctx c;
			c.rng = case_seed(seed, p, tries);
			tries++;
			Res r = run(p, c);
			if (r == FAIL) {
				fflush(stdout);
				shrink_and_report(idx, p, c.taken, false);
				failed = true;
				break;
			}
			if (r == DISCARD) { disc++; continue; }
			ok++;
			points += c.points;
			std::string key;
			for (u64 v : c.taken) key += std::to_string(v) + ",";
			bool fresh = distinct.insert(hash_str(key)).second;
			if (c.is_nontrivial && fresh) {
				nt++;
				if (samples.size() < 1) samples.push_back(notes_json(c));
			}
			for (auto &[k, v] : c.tags) tags[k] += v;
		}
		std::string tj = "{", sj = "[";
		for (auto &[k, v] : tags) { if (tj.size() > 1) tj += ","; tj += "\"" + k + "\":" + std::to_string(v); }
		for (auto &s : samples) { if (sj.size() > 1) sj += ","; sj += s; }
		printf("{\"prog\":%d,\"name\":\"%s\",\"done\":true,\"failed\":%s,\"ok\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"points\":%llu,\"tags\":%s},\"samples\":%s]}\n", idx, p.name, failed ? "true" : "false", ok, disc, nt, points, tj.c_str(), sj.c_str());
		fflush(stdout);
	}
	return 0;
}
