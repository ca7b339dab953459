// The log of an integration.
#ifndef LOGS_HPP
#define LOGS_HPP
#include "mc.hpp"

// what is written to std::cout and std::cerr while it lives, with all digits
struct Catch {
	std::ostringstream o, e; std::streambuf *so, *se; std::streamsize po, pe;
	Catch() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())), po(std::cout.precision(17)), pe(std::cerr.precision(17)) {}
	~Catch() { std::cout.rdbuf(so); std::cerr.rdbuf(se); std::cout.precision(po); std::cerr.precision(pe); }
};
struct Line { long step; std::vector<double> v; std::string text; };

// the lines of the log: a step number, then numbers
inline std::vector<Line> log_lines(const std::string &s)
{
	std::vector<Line> out; std::stringstream ss(s); std::string l;
	while (std::getline(ss, l)) {
		std::string m = l; std::size_t p = m.find("Rehuel:"); if (p != std::string::npos) m = m.substr(p + 7);
		std::stringstream ls(m); std::string w; std::vector<double> v; bool ok = true, whole = false;
		while (ls >> w) {
			char *e = nullptr; double x = std::strtod(w.c_str(), &e);
			if (*e) { ok = false; break; }
			if (v.empty()) whole = w.find_first_not_of("0123456789") == std::string::npos;
			v.push_back(x);
		}
		if (!ok || !whole || v.size() < 4) continue;
		out.push_back(Line{(long)v[0], std::vector<double>(v.begin() + 1, v.end()), l});
	}
	return out;
}
#endif
