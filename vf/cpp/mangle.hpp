// C18: mangled text, given back to the compiler
#pragma once
#include "walk.hpp"
#include <noarr/structures/extra/mangle.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include <cstdlib>
#include <fstream>
#include <limits>
#include <sstream>
#include <unistd.h>

namespace vf {

template<class... Ts> std::index_sequence_for<Ts...> parts(const noarr::flexible_contain<Ts...> &);

// equality of structures by their parameters
template<class T>
bool same_structure(const T &a, const T &b) {
	if constexpr (std::is_integral_v<T>) return a == b;
	else if constexpr (requires { parts(a); })
		return [&]<size_t... I>(std::index_sequence<I...>) { return (... && same_structure<std::remove_cvref_t<decltype(a.template get<I>())>>(a.template get<I>(), b.template get<I>())); }(decltype(parts(a))());
	else { static_assert(std::is_empty_v<T>); return true; }
}

template<class T> T edge_value(Ctx &c) {
	using L = std::numeric_limits<T>;
	switch (c.draw(9)) {
	case 0: return 0;
	case 1: return L::max();
	case 2: return L::min();
	case 3: return (T)-1;
	case 4: return (T)(c.draw(9) + 1);
	case 5: return (T)-(long long)(c.draw(9) + 1);
	case 6: return (T)-(long long)(c.draw(90) + 10);
	case 7: { u64 p = 1; for (u64 k = c.draw(20); k; k--) p *= 10; return (T)(p - c.draw(2)); }
	default: return (T)(c.draw(1ull << 32) << 32 | c.draw(1ull << 32));
	}
}

// as little as mangle_expr may use
struct MiniString {
	std::string s;
	void push_back(char ch) { s.push_back(ch); }
	void append(const char *p, std::size_t n) { s.append(p, n); }
};

struct Mangled {
	Ctx &c;
	std::string defs;
	template<class T> void def(const char *type, const char *name, T v) { defs += fmt("\tconst %s %s = (%s)0x%llxull;\n", type, name, type, (unsigned long long)v); }

	template<class S, char... C>
	void check(const S &s, const char *name, const char *build, std::integer_sequence<char, C...>) {
		using str = noarr::mangle_to_str<S>;
		const std::string type(str::c_str, str::length), expr = noarr::mangle_expr<std::string>(s);
		c.note("type", type.substr(0, 400));
		c.note("expression", expr.substr(0, 600));
		c.eq((u64)std::strlen(str::c_str), (u64)str::length, "length of the mangled text");
		c.expect(type == std::string{C...}, "mangle and mangle_to_str differ");
		c.expect(noarr::mangle_expr<MiniString>(s).s == expr, "mangle_expr with another string type");
		const char *cc = std::getenv("VF_CC"), *dir = std::getenv("VF_WORK");
		c.expect(cc && dir, "environment");
		c.barrier();
		const std::string base = std::string(dir) + "/mangled" + std::to_string(getpid());
		{
			std::ofstream f(base + ".cpp");
			f << "static auto vf_build() {\n" << defs << build << "\treturn " << name << ";\n}\n"
			  << "using vf_orig = std::remove_cvref_t<decltype(vf_build())>;\n"
			  << "using namespace noarr;\n"
			  << "static_assert(std::is_same_v<\n" << type << "\n, vf_orig>, \"the mangled text denotes another type\");\n"
			  << "int main() {\n\tconst vf_orig orig = vf_build();\n\tconst auto copy = \n" << expr << "\n;\n"
			  << "\tstatic_assert(std::is_same_v<decltype(copy), const vf_orig>, \"the mangled expression has another type\");\n"
			  << "\tif (!vf::same_structure<vf_orig>(orig, copy)) return 3;\n\treturn 0;\n}\n";
		}
		int rc = std::system((std::string(cc) + " " + base + ".cpp -o " + base + ".exe > " + base + ".log 2>&1").c_str());
		if (rc) {
			std::ifstream f(base + ".log");
			std::string line, msg;
			while (std::getline(f, line)) if (auto p = line.find("error"); p != line.npos) { msg = line.substr(p, 400); break; }
			c.expect(false, [&] { return "the mangled text is not accepted: " + msg; });
		} else {
			rc = std::system((base + ".exe").c_str());
			c.expect(rc == 0, "the mangled expression has another value");
		}
		for (const char *e : {".cpp", ".exe", ".log"}) unlink((base + e).c_str());
		c.barrier();
	}
	template<class S> void check(const S &s, const char *name, const char *build) { check(s, name, build, noarr::mangle<S>()); }
};

} // namespace vf
