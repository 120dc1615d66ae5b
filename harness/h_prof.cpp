// Conformance harness: the profiler (the file it writes, scopes of several threads).
#define PP_ENABLE_PROFILING
#include "vt.h"
#include <sstream>
#include "core/base.h"
#include "debug/profiler.h"
#include "debug/profiler.cpp"
#include <atomic>
#include <cctype>
#include <climits>
#include <dirent.h>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <thread>
using namespace Planner;
using VI = std::vector<long long>;
using Clock = std::chrono::steady_clock;

// ------------------------------------------------------------ a strict JSON reader
struct Json {
	enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
	std::string text;
	std::vector<Json> items;
	std::vector<std::pair<std::string, Json>> fields;
	const Json* get(const std::string& k) const
	{
		const Json* r = nullptr;
		for (auto& f : fields) if (f.first == k) { if (r) return nullptr; r = &f.second; }
		return r;
	}
};
struct Reader {
	const std::string& s;
	size_t p = 0;
	bool ok = true;
	Reader(const std::string& s) : s(s) { }
	void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) p++; }
	bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { p++; return true; } return false; }
	Json fail() { ok = false; return {}; }
	bool str(std::string& out)
	{
		if (!eat('"')) return false;
		while (p < s.size() && s[p] != '"') {
			unsigned char c = s[p++];
			if (c < 0x20) return false;
			if (c != '\\') { out += (char)c; continue; }
			if (p >= s.size()) return false;
			char q = s[p++];
			const char* from = "\"\\/bfnrt";
			const char* to = "\"\\/\b\f\n\r\t";
			if (q == 'u') {
				if (p + 4 > s.size()) return false;
				int v = 0;
				for (int i = 0; i < 4; i++) { if (!isxdigit((unsigned char)s[p])) return false; v = v * 16 + (isdigit((unsigned char)s[p]) ? s[p] - '0' : (tolower(s[p]) - 'a' + 10)); p++; }
				if (v >= 0xd800 && v < 0xe000) return false;
				if (v < 0x80) out += (char)v;
				else if (v < 0x800) { out += (char)(0xc0 | v >> 6); out += (char)(0x80 | (v & 63)); }
				else { out += (char)(0xe0 | v >> 12); out += (char)(0x80 | (v >> 6 & 63)); out += (char)(0x80 | (v & 63)); }
			} else {
				const char* f = strchr(from, q);
				if (!q || !f) return false;
				out += to[f - from];
			}
		}
		return p < s.size() && s[p++] == '"';
	}
	Json value()
	{
		ws();
		Json j;
		if (!ok || p >= s.size()) return fail();
		if (s[p] == '{') {
			p++;
			j.kind = Json::Obj;
			if (eat('}')) return j;
			do {
				std::string k;
				ws();
				if (!str(k) || !eat(':')) return fail();
				j.fields.push_back({ k, value() });
				if (!ok) return j;
			} while (eat(','));
			if (!eat('}')) return fail();
		} else if (s[p] == '[') {
			p++;
			j.kind = Json::Arr;
			if (eat(']')) return j;
			do { j.items.push_back(value()); if (!ok) return j; } while (eat(','));
			if (!eat(']')) return fail();
		} else if (s[p] == '"') {
			j.kind = Json::Str;
			if (!str(j.text)) return fail();
		} else {
			size_t b = p;
			while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '-' || s[p] == '+' || s[p] == '.')) p++;
			j.text = s.substr(b, p - b);
			if (j.text == "null") j.kind = Json::Null;
			else if (j.text == "true" || j.text == "false") j.kind = Json::Bool;
			else {
				j.kind = Json::Num;
				size_t i = j.text.size() > 0 && j.text[0] == '-' ? 1 : 0;
				if (i >= j.text.size() || !isdigit((unsigned char)j.text[i]) || (j.text[i] == '0' && i + 1 < j.text.size() && isdigit((unsigned char)j.text[i + 1]))) return fail();
			}
		}
		return j;
	}
	Json document() { Json j = value(); ws(); if (p != s.size()) ok = false; return j; }
};

// ------------------------------------------------------------- what the threads did
struct Done { std::string name; int outer; long long lo, hi, start, dur; bool exact; };
struct Thread { std::string id; std::vector<Done> done; size_t reported = 0; };
static std::map<std::string, int> g_ids;
static VI codes(const std::string& s) { VI v; for (unsigned char c : s) v.push_back(c); return v; }
// Names are numbered; a new one is recorded with its characters.
static std::map<std::string, int> g_names;
static int number(const std::string& s)
{
	auto it = g_names.find(s);
	if (it != g_names.end()) return it->second;
	int n = (int)g_names.size() + 1;
	g_names[s] = n;
	vt::Line("name").i("no", n).arr("chars", codes(s)).end();
	return n;
}
static long long us(Clock::duration d) { return std::chrono::duration_cast<std::chrono::microseconds>(d).count(); }

#define NAMES(X) X(0, "search") X(1, "Planner::AStar::SearchPath()") X(2, "say \"hello\"") X(3, "void __cdecl run(int)") X(4, "") X(5, "__cdecl tail") \
	X(6, "ends with __cdecl ") X(7, "a 'quoted' \"name\" with __cdecl inside") X(8, "__cdecl") X(9, "std::vector<std::pair<int, double> > f() [with T = int]") X(10, "_") \
	X(11, "back\\slash") X(12, "tab\tin the name") X(13, "bell\a line\n feed\r escape\033[0m unit\037 delete\177 end") X(14, "\303\234berfahrt") \
	X(15, "std::map<std::string, std::vector<int>> __cdecl Planner::HybridAStar::StatePropagator::GetNeighborStates(const State&) __cdecl noexcept, __cdec l")
static const int NN = 16;
struct Plan { int name, depth, wait, mode; std::vector<Plan> inner; };
static Plan makePlan(vt::Rng& g, int depth)
{
	Plan p { g.range(0, NN - 1), depth, g.chance(1, 12) ? g.range(20, 400) : 0, g.range(0, 9), {} };
	if (depth < 3) { int k = g.chance(1, 2) ? 0 : g.range(1, 3); for (int i = 0; i < k; i++) p.inner.push_back(makePlan(g, depth + 1)); }
	return p;
}
static void execute(const Plan& p, Thread& t);
static void body(const Plan& p, Thread& t)
{
	if (p.wait) std::this_thread::sleep_for(std::chrono::microseconds(p.wait));
	for (auto& q : p.inner) execute(q, t);
}
template <typename T>
static std::string signature(const Plan& p, Thread& t, T)
{
	PP_PROFILE_FUNCTION();
	body(p, t);
	return __PRETTY_FUNCTION__;
}
static void execute(const Plan& p, Thread& t)
{
	size_t first = t.done.size();
	auto before = Clock::now();
	std::string name;
	long long start = 0, dur = 0;
	bool exact = false;
	if (p.mode == 0) {
		// a result written directly, by another measurement
		start = 1000000LL * (p.name + 1) + p.wait, dur = p.wait * 7LL;
		exact = true;
		body(p, t);
		name = "direct " + std::to_string(p.name) + (p.name % 2 ? " \\ \"x\"" : "") + std::string(1, (char)((p.name * 7 + p.wait) % 32));
		Profiler::Get().WriteProfile({ name, start, start + dur, std::this_thread::get_id() });
	} else if (p.mode == 1) {
		name = signature(p, t, 1.5f);
	} else if (p.mode == 2) {
		name = "timer";
		ProfilingTimer timer("timer");
		body(p, t);
		timer.Stop();
	} else {
		switch (p.name) {
#define ONE(i, s) case i: { PP_PROFILE_SCOPE(s); body(p, t); name = s; } break;
		NAMES(ONE)
		}
	}
	auto after = Clock::now();
	for (size_t i = first; i < t.done.size(); i++) if (t.done[i].outer < 0) t.done[i].outer = (int)t.done.size();
	t.done.push_back({ name, -1, (long long)p.wait, us(after - before) + 1, start, dur, exact });
}
static void report(Thread& t, int th)
{
	std::string s = "[";
	for (size_t i = t.reported; i < t.done.size(); i++) {
		auto& d = t.done[i];
		s += std::string(i > t.reported ? "," : "") + "{\"name\":" + std::to_string(number(d.name)) + ",\"outer\":" + std::to_string(d.outer + 1) + ",\"lo\":" + std::to_string(d.lo) + ",\"hi\":" + std::to_string(d.hi)
			+ ",\"exact\":" + (d.exact ? "true" : "false") + ",\"start\":" + std::to_string(d.start) + ",\"dur\":" + std::to_string(d.dur) + "}";
	}
	t.reported = t.done.size();
	vt::Line("work").i("th", th).raw("done", s + "]").end();
}
static const char* FILENAME = "profiling.json";
static long long small(long long v, long long base) { v -= base; return v > 2000000000LL ? 2000000000LL : v < -2000000000LL ? -2000000000LL : v; }
// The content of the file, in the order written.  An open session lacks the end.
static void file(bool open)
{
	std::ifstream f(FILENAME, std::ios::binary);
	std::ostringstream o;
	o << f.rdbuf();
	std::string s = o.str();
	if (open) s += "]}";
	Reader r(s);
	Json j = r.document();
	const Json* ev = r.ok ? j.get("traceEvents") : nullptr;
	bool ok = r.ok && j.kind == Json::Obj && ev && ev->kind == Json::Arr;
	std::string out = "[";
	long long base = LLONG_MAX;
	struct E { int th, name; long long ts, dur; bool keys; };
	std::vector<E> es;
	if (ok)
		for (auto& e : ev->items) {
			if (e.kind != Json::Obj) { ok = false; break; }
			if (e.fields.empty()) continue;
			const Json *n = e.get("name"), *tid = e.get("tid"), *ts = e.get("ts"), *dur = e.get("dur"), *ph = e.get("ph"), *pid = e.get("pid");
			bool keys = n && n->kind == Json::Str && tid && ts && ts->kind == Json::Num && dur && dur->kind == Json::Num && ph && ph->kind == Json::Str && ph->text == "X" && pid;
			if (!keys) { es.push_back({ 0, 0, 0, 0, false }); continue; }
			auto it = g_ids.find(tid->text);
			es.push_back({ it == g_ids.end() ? 0 : it->second, number(n->text), strtoll(ts->text.c_str(), 0, 10), strtoll(dur->text.c_str(), 0, 10), true });
			if (es.back().ts > 1000000000LL) base = std::min(base, es.back().ts);
		}
	if (base == LLONG_MAX) base = 0;
	for (size_t i = 0; i < es.size(); i++) {
		auto& e = es[i];
		// results written directly have small times, all others are relative to the first
		long long ts = e.ts > 1000000000LL ? small(e.ts, base) : small(e.ts, 0);
		out += std::string(i ? "," : "") + "{\"th\":" + std::to_string(e.th) + ",\"name\":" + std::to_string(e.name) + ",\"ts\":" + std::to_string(ts) + ",\"dur\":" + std::to_string(small(e.dur, 0)) + ",\"keys\":" + (e.keys ? "true" : "false") + "}";
	}
	vt::Line(open ? "snap" : "file").b("ok", ok).raw("evs", out + "]").end();
}
static void oneCase(vt::Rng& g)
{
	Profiler::Release();
	remove(FILENAME);
	rmdir(FILENAME);
	g_names.clear();
	bool blocked = g.chance(1, 12);
	if (blocked) mkdir(FILENAME, 0700);
	int nt = g.range(1, 6);
	vt::Line("case").i("threads", nt).b("blocked", blocked).end();
	int sessions = g.range(1, 3);
	for (int s = 0; s < sessions; s++) {
		if (g.chance(2, 3)) { PP_INIT_PROFILER; if (g.chance(1, 3)) PP_INIT_PROFILER; } else Profiler::Get();
		vt::Line("begin").end();
		int phases = g.range(0, 4);
		std::vector<std::vector<std::vector<Plan>>> plans(phases, std::vector<std::vector<Plan>>(nt));
		for (auto& ph : plans) {
			bool storm = g.chance(1, 3);
			for (auto& p : ph) { int k = storm ? g.range(20, 60) : g.range(0, 4); for (int i = 0; i < k; i++) p.push_back(makePlan(g, storm ? 2 : 0)); }
		}
		std::vector<Thread> ts(nt);
		g_ids.clear();
		std::atomic<int> turn { 0 }, finished { 0 }, named { 0 };
		std::vector<std::thread> th;
		auto run = [&](int i) {
			std::ostringstream o;
			o << std::this_thread::get_id();
			ts[i].id = o.str();
			named++;
			for (int ph = 0; ph < phases; ph++) {
				while (turn <= ph) std::this_thread::yield();
				for (auto& p : plans[ph][i]) execute(p, ts[i]);
				finished++;
			}
		};
		for (int i = 1; i < nt; i++) th.emplace_back(run, i);
		std::ostringstream o;
		o << std::this_thread::get_id();
		ts[0].id = o.str();
		while (named < nt - 1) std::this_thread::yield();
		for (int i = 0; i < nt; i++) g_ids[ts[i].id] = i + 1;
		for (int ph = 0; ph < phases; ph++) {
			turn++;
			for (auto& p : plans[ph][0]) execute(p, ts[0]);
			finished++;
			while (finished < nt * (ph + 1)) std::this_thread::yield();
			for (int i = 0; i < nt; i++) { report(ts[i], i + 1); }
			if (blocked) vt::Line("nothing").end(); else file(true);
		}
		for (auto& x : th) x.join();
		Profiler::Release();
		if (!blocked) file(false); else vt::Line("nothing").end();
		vt::Line("end").end();
	}
}
int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	char dir[] = "./prof_XXXXXX";
	if (!mkdtemp(dir) || chdir(dir)) return 3;
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::watchdog(60);
		oneCase(g);
		vt::flush();
	}
	Profiler::Release();
	remove(FILENAME);
	rmdir(FILENAME);
	if (chdir("..") == 0) rmdir(dir);
	return vt::finish();
}
