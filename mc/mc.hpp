// A small stateless explorer: an execution is a function of the choices it
// makes; all choices are enumerated depth first.  Two kinds of choice points:
//   cfg(n)  - configuration / input choices, made before begin(); all explored
//   dev(n)  - environment answers; 0 is the default answer, every other answer
//             costs one deviation, and executions have at most `bound` of them
// Executions are replayed from their choice list (a replay file holds one).
#ifndef MC_HPP
#define MC_HPP

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <streambuf>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>

namespace mc {

struct Violation { std::string key, msg; };   // not a std::exception on purpose
struct Horizon { long calls; };               // the execution made too many calls
struct SkipConfig {};                         // owned by another shard

struct Pt { int n; int chosen; bool dev; int devs_before; };

struct Engine;
// which shard a configuration belongs to: mixed, so that expensive ones are spread
inline std::uint64_t mc_shard_hash(std::uint64_t k) { k *= 0x9e3779b97f4a7c15ull; return k >> 33; }

struct Run {
	std::vector<int> prefix;
	std::vector<Pt> trail;
	int devs = 0;
	bool begun = false;
	Engine *eng = nullptr;
	std::string desc;        // what this execution is, for people

	int pick(int n, bool dev)
	{
		int c = 0;
		std::size_t i = trail.size();
		if (i < prefix.size()) {
			c = prefix[i];
			if (c < 0 || c >= n) {
				std::fprintf(stderr, "mc: replay diverged: choice %d of %d at %zu\n", c, n, i);
				_exit(77);
			}
		}
		trail.push_back(Pt{n, c, dev, devs});
		if (dev && c) ++devs;
		return c;
	}
	int cfg(int n) { if (begun) { std::fprintf(stderr, "mc: cfg after begin\n"); _exit(77); } return pick(n, false); }
	template <typename T> const T &of(const std::vector<T> &v) { return v[cfg((int)v.size())]; }
	int dev(int n) { return pick(n, true); }
	void begin();
	bool prefix_done() const { return trail.size() >= prefix.size(); }
};

struct Found { std::string key, msg, choices, desc; };

struct Engine {
	std::string tier = "quick";
	int shard = 0, nshards = 1, bound = 0;
	bool replaying = false;
	long cfg_seen = 0, cfg_run = 0, executions = 0, transitions = 0, validated = 0;
	std::unordered_set<std::uint64_t> states, outcomes;
	std::map<std::string, double> extra;          // summed over shards
	std::vector<std::string> samples;
	std::vector<Found> found;
	std::map<std::string, Found> by_key;
	std::function<void(Run &)> body;
	char *progress = nullptr;
	double deadline = 0;
	bool capped = false;
	int max_found = 40;
	std::set<std::string> known;     // keys of the listed findings
	long fresh = 0;

	bool thorough() const { return tier == "thorough"; }
	static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9*ts.tv_nsec; }

	static std::string str(const std::vector<int> &v)
	{ std::string s; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s; }

	void note(const std::string &s)
	{
		if (!progress) return;
		std::size_t n = std::min<std::size_t>(s.size(), 8190);
		std::memcpy(progress, s.data(), n); progress[n] = 0;
	}

	// one execution
	void run_one(Run &r)
	{
		r.eng = this;
		note(str(r.prefix));
		try {
			body(r);
			++executions;
		} catch (SkipConfig &) {
			return;
		} catch (Violation &v) {
			++executions; add(v.key, v.msg, r);
		} catch (Horizon &h) {
			++executions; add("no-termination", "no end after " + std::to_string(h.calls) + " evaluations", r);
		} catch (std::exception &e) {
			++executions; add("exception", std::string("unexpected exception: ") + e.what(), r);
		}
		if (!r.prefix_done()) { std::fprintf(stderr, "mc: replay diverged: prefix not used up\n"); _exit(77); }
		if (r.begun && samples.size() < 3 && (executions % 97) == 1) samples.push_back(r.desc);
	}
	void add(const std::string &key, const std::string &msg, Run &r)
	{
		std::vector<int> ch; for (auto &p : r.trail) ch.push_back(p.chosen);
		while (!ch.empty() && ch.size() > r.prefix.size() && ch.back() == 0) ch.pop_back();
		if (ch.size() < r.prefix.size()) ch = r.prefix;
		Found f{key, msg, str(ch), r.desc};
		if (!by_key.count(key)) { by_key[key] = f; if ((int)found.size() < max_found) found.push_back(f); }
		extra["violating executions"] += 1;
		if (!known.count(key)) ++fresh;
	}
	void explore(const std::vector<int> &prefix)
	{
		Run r; r.prefix = prefix;
		run_one(r);
		std::vector<Pt> tr; tr.swap(r.trail);
		for (std::size_t i = prefix.size(); i < tr.size(); ++i) {
			if (tr[i].dev && tr[i].devs_before + 1 > bound) continue;
			for (int alt = 1; alt < tr[i].n; ++alt) {
				if (deadline > 0 && now() > deadline) { capped = true; return; }
				if (fresh >= 400) { capped = true; return; }
				std::vector<int> p; for (std::size_t j = 0; j < i; ++j) p.push_back(tr[j].chosen);
				p.push_back(alt);
				explore(p);
			}
		}
	}

	void state(std::uint64_t h) { if (states.size() < 1000000) states.insert(h); }
	void outcome(std::uint64_t h) { if (outcomes.size() < 1000000) outcomes.insert(h); }
};

inline void Run::begin()
{
	begun = true;
	long k = eng->cfg_seen;
	bool first = true;                  // the default-answer run of a configuration
	for (auto c : prefix) (void)c;
	for (std::size_t i = trail.size(); i < prefix.size(); ++i) first = false;
	if (eng->replaying) return;
	if (first) {
		eng->cfg_seen++;
		if (long(mc_shard_hash(k) % eng->nshards) != eng->shard) throw SkipConfig();
		eng->cfg_run++;
	}
}

[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }

template <typename... A> std::string fmt(const char *f, A... a)
{
	int n = std::snprintf(nullptr, 0, f, a...);
	std::string s(n + 1, 0); std::snprintf(&s[0], n + 1, f, a...); s.pop_back(); return s;
}

inline std::uint64_t hmix(std::uint64_t h, std::uint64_t v)
{ h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
inline std::uint64_t hd(std::uint64_t h, double d) { std::uint64_t b; if (d == 0) d = 0; std::memcpy(&b, &d, 8); return hmix(h, b); }
inline std::uint64_t hs(std::uint64_t h, const std::string &s) { for (unsigned char c : s) h = hmix(h, c); return h; }

// std::cout/cerr go to a buffer that is never destroyed.
struct NullBuf : std::streambuf {
	char b[4096];
	unsigned long n = 0;
	int overflow(int c) override { ++n; return c == EOF ? 0 : c; }
	std::streamsize xsputn(const char *, std::streamsize k) override { n += k; return k; }
};
inline NullBuf &null_out() { static NullBuf *p = new NullBuf; return *p; }
inline NullBuf &null_err() { static NullBuf *p = new NullBuf; return *p; }
inline void silence() { std::cout.rdbuf(&null_out()); std::cerr.rdbuf(&null_err()); }

inline std::string json_str(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32) { char t[8]; std::snprintf(t, 8, "\\u%04x", c); o += t; }
		else o += c;
	}
	return o + "\"";
}

inline int main_(int argc, char **argv, std::function<void(Run &)> body, int bound_quick = 0, int bound_thorough = 0)
{
	Engine e; e.body = body;
	std::string out, prog, rep; bool has_rep = false; double limit = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto v = [&]() { return std::string(argv[++i]); };
		if (a == "--tier") e.tier = v();
		else if (a == "--shard") e.shard = std::stoi(v());
		else if (a == "--nshards") e.nshards = std::stoi(v());
		else if (a == "--out") out = v();
		else if (a == "--progress") prog = v();
		else if (a == "--limit") limit = std::stod(v());
		else if (a == "--replay") { rep = v(); has_rep = true; }
	}
	if (getenv("MC_KNOWN")) { std::stringstream ks(getenv("MC_KNOWN")); std::string k; while (std::getline(ks, k, ',')) e.known.insert(k); }
	e.bound = e.thorough() ? bound_thorough : bound_quick;
	if (limit > 0) e.deadline = Engine::now() + limit;
	if (!prog.empty()) {
		int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
		if (fd >= 0 && ftruncate(fd, 8192) == 0)
			e.progress = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (e.progress == MAP_FAILED) e.progress = nullptr;
	}
	if (!getenv("MC_LOUD")) silence();
	if (has_rep) {
		e.replaying = true;
		Run r; std::stringstream ss(rep); std::string x;
		while (std::getline(ss, x, ',')) r.prefix.push_back(std::stoi(x));
		e.run_one(r);
	} else {
		e.explore({});
	}
	std::ofstream o(out.empty() ? "/dev/stdout" : out.c_str());
	o << "{\"executions\":" << e.executions << ",\"configurations\":" << e.cfg_run
	  << ",\"states\":" << e.states.size() << ",\"outcomes\":" << e.outcomes.size()
	  << ",\"transitions\":" << e.transitions << ",\"validated\":" << e.validated
	  << ",\"bound\":" << e.bound << ",\"capped\":" << (e.capped ? "true" : "false") << ",\"extra\":{";
	bool c = false;
	for (auto &p : e.extra) { if (c) o << ","; c = true; o << json_str(p.first) << ":" << p.second; }
	o << "},\"samples\":[";
	for (std::size_t i = 0; i < e.samples.size(); ++i) o << (i ? "," : "") << json_str(e.samples[i]);
	o << "],\"violations\":[";
	for (std::size_t i = 0; i < e.found.size(); ++i)
		o << (i ? "," : "") << "{\"key\":" << json_str(e.found[i].key) << ",\"msg\":" << json_str(e.found[i].msg)
		  << ",\"choices\":" << json_str(e.found[i].choices) << ",\"desc\":" << json_str(e.found[i].desc) << "}";
	o << "]}\n";
	o.close();
	if (!out.empty()) {
		std::ofstream so(out + ".states", std::ios::binary);
		for (auto h : e.states) so.write((const char *)&h, 8);
	}
	_exit(0);   // skip destructors: nothing below is of interest
}

} // namespace mc
#endif
