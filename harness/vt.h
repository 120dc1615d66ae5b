// Trace recorder shared by all conformance harnesses.
//
// A harness exercises the public API of /repo's planner library and writes one
// JSON object per line.  Only integers, strings and arrays are written (TLC has
// 32-bit integers and no reals), so real quantities are written in fixed point.
#pragma once
#include <csignal>
#include <exception>
#include <utility>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <functional>
#include <limits>

namespace vt {
	inline FILE* g_out = nullptr;
	inline unsigned g_randomDevice = 1;

	// ---- deterministic generator, independent of the library's --------------
	struct Rng {
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 8; i++) next(); }
		uint64_t next()
		{
			s ^= s << 13; s ^= s >> 7; s ^= s << 17;
			return s * 0x2545F4914F6CDD1Dull;
		}
		// uniform in [lo, hi]
		int range(int lo, int hi) { return lo + (int)((next() >> 11) % (uint64_t)(hi - lo + 1)); }
		bool chance(int num, int den) { return range(1, den) <= num; }
		double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
		double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
		template <typename T> const T& pick(const std::vector<T>& v) { return v[range(0, (int)v.size() - 1)]; }
	};

	// ---- one ndjson line ------------------------------------------------------
	class Line {
	public:
		explicit Line(const char* e) { m_s = std::string("{\"e\":\"") + e + "\""; }
		Line& i(const char* k, long long v)
		{
			if (v > 2147483647LL) v = 2147483647LL;
			if (v < -2147483647LL) v = -2147483647LL;
			key(k); m_s += std::to_string(v); return *this;
		}
		Line& b(const char* k, bool v) { key(k); m_s += v ? "true" : "false"; return *this; }
		Line& s(const char* k, const std::string& v) { key(k); m_s += "\"" + v + "\""; return *this; }
		Line& raw(const char* k, const std::string& v) { key(k); m_s += v; return *this; }
		template <typename V> Line& arr(const char* k, const V& v)
		{
			key(k); m_s += "[";
			bool first = true;
			for (auto x : v) {
				if (!first) m_s += ",";
				first = false;
				long long y = (long long)x;
				if (y > 2147483647LL) y = 2147483647LL;
				if (y < -2147483647LL) y = -2147483647LL;
				m_s += std::to_string(y);
			}
			m_s += "]";
			return *this;
		}
		// array of arrays
		template <typename V> Line& arr2(const char* k, const V& v)
		{
			key(k); m_s += "[";
			bool f1 = true;
			for (auto& row : v) {
				if (!f1) m_s += ",";
				f1 = false;
				m_s += "[";
				bool f2 = true;
				for (auto x : row) {
					if (!f2) m_s += ",";
					f2 = false;
					m_s += std::to_string((long long)x);
				}
				m_s += "]";
			}
			m_s += "]";
			return *this;
		}
		void end()
		{
			m_s += "}\n";
			fwrite(m_s.data(), 1, m_s.size(), g_out);
		}

	private:
		void key(const char* k) { m_s += ",\""; m_s += k; m_s += "\":"; }
		std::string m_s;
	};

	// fixed point; NaN and overflow become the sentinel +-2147483647
	inline long long fx(double v, double scale)
	{
		double y = v * scale;
		if (std::isnan(y)) return -2147483647LL;
		if (y >= 2147483646.0) return 2147483647LL;
		if (y <= -2147483646.0) return -2147483647LL;
		return std::llround(y);
	}
	// true if v*scale is exactly an integer
	inline bool exact(double v, double scale) { double y = v * scale; return std::isfinite(y) && y == std::floor(y); }

	// ---- a picture written by the code under test -----------------------------
	struct Ppm {
		std::string magic;
		long long w = -1, h = -1, max = -1, extra = 0;
		std::vector<std::vector<long long>> px;
		explicit Ppm(const std::string& file)
		{
			FILE* f = fopen(file.c_str(), "rb");
			if (!f) return;
			std::string s;
			for (int c; (c = fgetc(f)) != EOF;) s += (char)c;
			fclose(f);
			size_t p = 0;
			auto word = [&]() {
				while (p < s.size() && (isspace((unsigned char)s[p]) || s[p] == '#')) {
					if (s[p] == '#') while (p < s.size() && s[p] != '\n') p++;
					else p++;
				}
				std::string r;
				while (p < s.size() && !isspace((unsigned char)s[p]) && r.size() < 9) r += s[p++];
				return r;
			};
			for (char c : word()) magic += isalnum((unsigned char)c) ? c : '?';
			w = atoll(word().c_str());
			h = atoll(word().c_str());
			max = atoll(word().c_str());
			p++;
			for (; p + 3 <= s.size(); p += 3) px.push_back({ (unsigned char)s[p], (unsigned char)s[p + 1], (unsigned char)s[p + 2] });
			extra = p <= s.size() ? (long long)(s.size() - p) : -1;
		}
		Line& log(Line& l) const { return l.s("magic", magic).i("w", w).i("h", h).i("max", max).i("extra", extra).arr2("px", px); }
	};

	// ---- crashes and hangs of the code under test become trace events ---------
	inline void emergency(const char* what)
	{
		char buf[64];
		fflush(g_out);
		int n = snprintf(buf, sizeof buf, "{\"e\":\"%s\"}\n", what);
		if (write(fileno(g_out), buf, n) != n) _exit(3);
		_exit(0);
	}
	inline void onSignal(int sig) { emergency(sig == SIGPROF ? "hang" : "crash"); }

	inline void watchdog(int cpuSeconds)
	{
		itimerval t {};
		t.it_value.tv_sec = cpuSeconds;
		setitimer(ITIMER_PROF, &t, nullptr);
	}

	struct Args {
		uint64_t seed = 1;
		int shard = 0, shards = 1;
		long cases = 100;
		std::string mode, tier = "quick", aux;
	};

	inline Args init(int argc, char** argv)
	{
		Args a;
		const char* out = nullptr;
		for (int i = 1; i + 1 < argc; i += 2) {
			std::string k = argv[i], v = argv[i + 1];
			if (k == "--out") out = argv[i + 1];
			else if (k == "--seed") a.seed = std::stoull(v);
			else if (k == "--shard") a.shard = std::stoi(v);
			else if (k == "--shards") a.shards = std::stoi(v);
			else if (k == "--cases") a.cases = std::stol(v);
			else if (k == "--mode") a.mode = v;
			else if (k == "--tier") a.tier = v;
			else if (k == "--aux") a.aux = v;
		}
		g_out = out ? fopen(out, "w") : stdout;
		if (!g_out) { perror("open"); exit(3); }
		static char stack[1 << 16];
		stack_t ss {}; ss.ss_sp = stack; ss.ss_size = sizeof stack;
		sigaltstack(&ss, nullptr);
		struct sigaction sa {};
		sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
		for (int sgn : { SIGTRAP, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF })
			sigaction(sgn, &sa, nullptr);
		std::set_terminate([] { emergency("throw"); });
		g_randomDevice = (unsigned)(a.seed * 7919 + a.shard * 104729 + 17);
		return a;
	}
	inline int finish() { fclose(g_out); return 0; }
	inline void flush() { fflush(g_out); }
}

// The library seeds its generators from std::random_device.  Make that
// deterministic, so that a rejected trace can be reproduced from its seed.
#ifndef VT_NO_RANDOM_DEVICE
std::random_device::result_type std::random_device::_M_getval() { return vt::g_randomDevice; }
#endif
