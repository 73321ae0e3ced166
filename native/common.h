// Shared plumbing of the native drivers: random numbers, case bookkeeping, failure reporting.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <csignal>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace drv
{
struct Rng
{
	std::uint64_t s;
	explicit Rng(std::uint64_t seed = 0) : s(seed) {}
	std::uint64_t next()
	{
		std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27))*0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	std::uint32_t below(std::uint32_t n) { return n ? std::uint32_t(next() % n) : 0; }
	bool chance(std::uint32_t num, std::uint32_t den) { return below(den) < num; }
};

struct Options
{
	std::string prop;
	std::uint64_t seed = 1;
	double budget = 5;
	std::string replay;    // file to replay, if any
	std::string out;       // where a failing case is written
};
inline Options& opt() { static Options o; return o; }

// Text of the case being evaluated, produced lazily so that it costs nothing per case.
using Describe = std::string (*)();
inline Describe& describer() { static Describe d = nullptr; return d; }

inline std::uint64_t& evals() { static std::uint64_t n = 0; return n; }
inline std::uint64_t& distinctCount() { static std::uint64_t n = 0; return n; }
inline std::unordered_set<std::uint64_t>& seen() { static std::unordered_set<std::uint64_t> s; return s; }
inline std::vector<std::string>& samples() { static std::vector<std::string> s; return s; }
inline std::map<std::string, std::string>& knownMap() { static std::map<std::string, std::string> m; return m; }
inline std::map<std::string, std::uint64_t>& covers() { static std::map<std::string, std::uint64_t> m; return m; }

inline void sample(const std::string& s)
{
	if (samples().size() < 12)
	{
		std::string t;
		for (unsigned char c : s)
			t += c == '\n' ? ' ' : c < 32 || c > 126 ? '?' : char(c);
		samples().push_back(t);
	}
}
inline void known(const std::string& key, const std::string& text)
{
	knownMap().emplace(key, text);
}
inline void cover(const char* what) { ++covers()[what]; }

inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL)
{
	auto b = static_cast<const unsigned char*>(p);
	for (std::size_t i = 0; i < n; ++i)
		h = (h ^ b[i])*1099511628211ULL;
	return h;
}
inline void countDistinct(std::uint64_t h)
{
	if (seen().size() < 4000000)
	{
		if (seen().insert(h).second)
			++distinctCount();
	}
}

inline void report()
{
	for (auto& k : knownMap())
		std::printf("KNOWN %s\t%s\n", k.first.c_str(), k.second.c_str());
	for (auto& s : samples())
		std::printf("SAMPLE %s\n", s.c_str());
	for (auto& c : covers())
		std::printf("COVER %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
	std::printf("RESULT evals=%llu distinct=%llu\n", (unsigned long long)evals(),
		(unsigned long long)distinctCount());
	std::fflush(stdout);
}

inline void writeReplay(const std::string& why)
{
	std::string text = "property " + opt().prop + "\n";
	if (describer())
		text += describer()();
	text += "\nfailure " + why + "\n";
	if (!opt().out.empty())
	{
		if (FILE* f = std::fopen(opt().out.c_str(), "w"))
		{
			std::fputs(text.c_str(), f);
			std::fclose(f);
		}
	}
	std::fputs(text.c_str(), stdout);
}

[[noreturn]] inline void fail(const std::string& why)
{
	writeReplay(why);
	report();
	std::printf("FAIL %s\n", why.c_str());
	std::fflush(stdout);
	_exit(1);
}

inline void onDeath(const char* why)
{
	static bool once = false;
	if (once)
		return;
	once = true;
	writeReplay(why);
	std::printf("FAIL %s\n", why);
	std::fflush(stdout);
	_exit(1);
}
} // namespace drv

extern "C" void __sanitizer_set_death_callback(void (*)());

namespace drv
{
inline void install()
{
	for (int s : {SIGABRT, SIGFPE, SIGSEGV, SIGBUS, SIGILL})
		std::signal(s, [](int sig) {
			onDeath(sig == SIGABRT ? "internal assertion or abort" :
				sig == SIGFPE ? "arithmetic trap" : "memory fault");
		});
	std::signal(SIGALRM, [](int) { onDeath("case did not terminate"); });
#if defined(__SANITIZE_ADDRESS__) || defined(DRV_ASAN)
	__sanitizer_set_death_callback([]() { onDeath("sanitizer: memory or undefined behaviour error"); });
#endif
}

inline bool parse(int argc, char** argv)
{
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--seed" && i + 1 < argc) opt().seed = std::strtoull(argv[++i], nullptr, 0);
		else if (a == "--budget" && i + 1 < argc) opt().budget = std::atof(argv[++i]);
		else if (a == "--replay" && i + 1 < argc) opt().replay = argv[++i];
		else if (a == "--out" && i + 1 < argc) opt().out = argv[++i];
		else if (opt().prop.empty()) opt().prop = a;
		else return false;
	}
	return !opt().prop.empty();
}
inline double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}
inline std::string fmt(const char* f, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	std::vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}
inline std::string hex(const void* p, std::size_t n)
{
	auto b = static_cast<const unsigned char*>(p);
	std::string s;
	for (std::size_t i = 0; i < n; ++i)
		s += fmt("%02x", b[i]);
	return s.empty() ? "-" : s;
}
inline std::vector<std::uint8_t> unhex(const std::string& s)
{
	std::vector<std::uint8_t> r;
	if (s == "-")
		return r;
	for (std::size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back(std::uint8_t(std::strtoul(s.substr(i, 2).c_str(), nullptr, 16)));
	return r;
}
} // namespace drv
