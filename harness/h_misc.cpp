// Conformance harness: state spaces (mode space), singletons (modes single, threads).
#include "vt.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
#include "utils/random.h"
#include "utils/singleton.h"
#include <array>
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <mutex>
#include <thread>
using namespace Planner;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;

// ---------------------------------------------------------------- state spaces
// A coordinate is v/8, or the next double below or above it: 2v-1, 2v, 2v+1.
static double val(long long c)
{
	double base = std::floor((c + 1) / 2.0) / 8;
	long long r = c - 2 * (long long)std::floor((c + 1) / 2.0);
	return r == 0 ? base : std::nextafter(base, -1e300);
}
static long long code(double v, const std::vector<long long>& known)
{
	for (long long c : known) if (val(c) == v) return c;
	return 2147483647LL;
}
struct R2 {
	using State = Point2d;
	using Space = StateSpaceR2;
	static const int n = 2;
	static State make(const std::vector<double>& v) { return State(v[0], v[1]); }
	static std::vector<double> get(const State& s) { return { s.x(), s.y() }; }
};
struct SE2 {
	using State = Pose2d;
	using Space = StateSpaceSE2;
	static const int n = 3;
	static State make(const std::vector<double>& v) { State s; s.position = { v[0], v[1] }; s.theta = v[2]; return s; }
	static std::vector<double> get(const State& s) { return { s.x(), s.y(), s.theta }; }
};
template <typename K>
static void space(vt::Rng& g)
{
	VI lb, ub;
	std::vector<double> l, u;
	for (int i = 0; i < K::n; i++) {
		int a = i == 2 ? g.range(-20, 10) : g.range(-80, 60), b = a + (g.chance(1, 10) ? 0 : i == 2 ? g.range(0, 10) : g.range(0, 60));
		lb.push_back(2 * a); ub.push_back(2 * b);
		l.push_back(a / 8.0); u.push_back(b / 8.0);
	}
	typename K::Space one(K::make(l), K::make(u));
	typename K::Space two(std::array<typename K::State, 2> { K::make(l), K::make(u) });
	bool useOne = g.chance(1, 2);
	typename K::Space& sp = useOne ? one : two;
	vt::Line("case").i("n", K::n).arr("lb", lb).arr("ub", ub).end();
	VI gl, gu;
	for (double x : K::get(sp.bounds[0])) gl.push_back(vt::fx(x, 16));
	for (double x : K::get(sp.bounds[1])) gu.push_back(vt::fx(x, 16));
	vt::Line("bounds").arr("lb", gl).arr("ub", gu).i("dim", K::Space::dimension).end();
	for (int q = 0; q < 30; q++) {
		VI c;
		std::vector<double> v;
		for (int i = 0; i < K::n; i++) {
			int k = g.range(0, 9);
			long long x = k == 0 ? lb[i] : k == 1 ? ub[i] : k == 2 ? lb[i] - 1 : k == 3 ? ub[i] + 1 : k == 4 ? lb[i] + 1 : k == 5 ? ub[i] - 1
				: k <= 8 ? lb[i] + g.range(0, (int)(ub[i] - lb[i])) : lb[i] + g.range(-60, 120);
			c.push_back(x);
			v.push_back(val(x));
		}
		auto s = K::make(v);
		bool in = sp.ValidateBounds(s);
		auto e = s;
		sp.EnforceBounds(e);
		auto e2 = e;
		sp.EnforceBounds(e2);
		VI ec, e2c;
		auto ev = K::get(e), e2v = K::get(e2);
		for (int i = 0; i < K::n; i++) { ec.push_back(code(ev[i], { c[i], lb[i], ub[i] })); e2c.push_back(code(e2v[i], { c[i], lb[i], ub[i] })); }
		vt::Line("state").arr("s", c).b("in", in).arr("f", ec).b("ein", sp.ValidateBounds(e)).arr("e2", e2c).end();
	}
	// samples: all in bounds, and every tenth of the range is drawn
	std::vector<std::vector<long long>> bucket(K::n, std::vector<long long>(10, 0));
	auto inside = [&](const typename K::State& s) {
		auto v = K::get(s);
		bool ok = true;
		for (int i = 0; i < K::n; i++) ok = ok && v[i] >= l[i] - 1e-12 && v[i] <= u[i] + 1e-12;
		return ok;
	};
	int N = 600, bad = 0;
	auto put = [&](const typename K::State& s) {
		bad += !inside(s);
		auto v = K::get(s);
		for (int i = 0; i < K::n; i++) if (u[i] > l[i]) bucket[i][std::clamp((int)((v[i] - l[i]) / (u[i] - l[i]) * 10), 0, 9)]++;
	};
	for (int i = 0; i < N / 2; i++) put(sp.SampleUniform());
	StateSpace<typename K::State, K::n, double>& base = sp;
	auto many = base.SampleUniform(N / 2);
	for (auto& s : many) put(s);
	vt::Line("uniform").i("n", N).i("got", N / 2 + (long long)many.size()).i("bad", bad).arr2("buckets", bucket).end();
	int few = g.range(0, 3);
	long long fu = base.SampleUniform((unsigned)few).size(), fg = base.SampleGaussian(K::make(l), K::make(u), (unsigned)few).size();
	vt::Line("few").i("n", few).i("u", fu).i("g", fg).end();
	// Gaussian: means inside, deviations small or large
	std::vector<double> mean, dev;
	for (int i = 0; i < K::n; i++) {
		mean.push_back(g.chance(1, 4) ? l[i] + g.real(-3, 3) : g.real(l[i], u[i]));
		dev.push_back(g.chance(1, 6) ? 0.0 : g.chance(1, 2) ? g.real(0.01, 0.1) : g.real(1, 20));
	}
	bad = 0;
	std::vector<double> sum(K::n, 0), sq(K::n, 0);
	// low/high: clamped to a bound; below: below the mean
	VVI stat(K::n, VI { 0, 0, 0, 0 });
	auto gm = base.SampleGaussian(K::make(mean), K::make(dev), N / 2);
	long long got = gm.size();
	for (int i = 0; i < N / 2; i++) gm.push_back(sp.SampleGaussian(K::make(mean), K::make(dev)));
	for (auto& s : gm) {
		bad += !inside(s);
		auto v = K::get(s);
		for (int i = 0; i < K::n; i++) {
			stat[i][0] += v[i] < mean[i];
			stat[i][1] += v[i] > mean[i];
			stat[i][2] += std::abs(v[i] - mean[i]) <= dev[i];
			stat[i][3] += std::abs(v[i] - mean[i]) <= 1e-9;
		}
	}
	VI free, zero;
	for (int i = 0; i < K::n; i++) {
		free.push_back(mean[i] - 6 * dev[i] > l[i] && mean[i] + 6 * dev[i] < u[i] && dev[i] > 0);
		zero.push_back(dev[i] == 0 && mean[i] >= l[i] && mean[i] <= u[i]);
	}
	vt::Line("gauss").i("n", N).i("got", got * 2).i("bad", bad).arr2("stat", stat).arr("free", free).arr("zero", zero).end();
}
// ------------------------------------------------------------------- singletons
static int g_made = 0, g_alive = 0;
template <template <class> class Base>
struct Thing : Base<Thing<Base>> {
	int no, a, b;
	Thing(int a = 0, int b = 0) : no(++g_made), a(a), b(b) { g_alive++; }
	~Thing() { g_alive--; }
};
template <typename T>
static void history(vt::Rng& g, const char* kind, bool hasInit)
{
	T::Release();
	g_made = 0;
	vt::Line("case").s("kind", kind).end();
	int n = g.range(3, 25);
	for (int i = 0; i < n; i++) {
		int k = g.range(0, 5);
		if (k == 0) { T::Release(); vt::Line("release").i("alive", g_alive).i("made", g_made).end(); }
		else if (k == 1 && hasInit) {
			if constexpr (std::is_same<T, Thing<Singleton>>::value) { T::Init(); vt::Line("init").i("alive", g_alive).i("made", g_made).end(); }
		} else { auto& t = T::Get(); auto& u = T::Get(); vt::Line("get").i("no", t.no).b("same", &t == &u).i("alive", g_alive).i("made", g_made).end(); }
	}
	T::Release();
	vt::Line("release").i("alive", g_alive).i("made", g_made).end();
}
static void historyInit(vt::Rng& g)
{
	using T = Thing<SingletonInit>;
	T::Release();
	g_made = 0;
	vt::Line("case").s("kind", "args").end();
	int n = g.range(1, 8);
	for (int i = 0; i < n; i++) {
		int a = g.range(1, 99), b = g.range(1, 99);
		T::Init(a, b);
		vt::Line("init").i("alive", g_alive).i("made", g_made).end();
		int k = g.range(0, 3);
		for (int j = 0; j < k; j++) { auto& t = T::Get(); vt::Line("get").i("no", t.no).b("same", &t == &T::Get() && t.a == a && t.b == b).i("alive", g_alive).i("made", g_made).end(); }
		T::Release();
		vt::Line("release").i("alive", g_alive).i("made", g_made).end();
	}
}
// Threads asking for the instance at once.  The constructor takes its time, so
// that the others arrive while it runs.  Events are numbered in a total order.
struct Ev { long long t; const char* e; int th, no; bool ready; };
static std::mutex g_m;
static std::vector<Ev> g_ev;
static std::atomic<int> g_no { 0 };
static thread_local int g_th = 0;
static void ev(const char* e, int no, bool ready)
{
	std::lock_guard<std::mutex> k(g_m);
	g_ev.push_back({ 0, e, g_th, no, ready });
}
static int g_spin = 0;
struct Slow : SingletonThreadSafe<Slow> {
	int no;
	std::atomic<int> done { 0 };
	Slow() : no(++g_no)
	{
		ev("ctor", no, false);
		std::this_thread::sleep_for(std::chrono::microseconds(g_spin));
		done = 1;
		ev("made", no, true);
	}
	~Slow() { done = 2; ev("gone", no, false); }
};
static void threadsCase(vt::Rng& g)
{
	Slow::Release();
	g_ev.clear();
	g_no = 0;
	vt::Line("case").s("kind", "threads").end();
	int rounds = g.range(1, 3), nt = g.range(2, 6);
	for (int r = 0; r < rounds; r++) {
		g_spin = g.chance(1, 4) ? 0 : g.range(50, 1500);
		std::vector<int> delay;
		for (int i = 0; i < nt; i++) delay.push_back(g.chance(1, 2) ? 0 : g.range(0, 1500));
		std::atomic<int> arrived { 0 };
		std::vector<std::thread> ts;
		for (int i = 0; i < nt; i++)
			ts.emplace_back([&, i] {
				g_th = i + 1;
				arrived++;
				while (arrived < nt) std::this_thread::yield();
				if (delay[i]) std::this_thread::sleep_for(std::chrono::microseconds(delay[i]));
				for (int q = 0; q < 2; q++) {
					ev("ask", 0, false);
					Slow& s = Slow::Get();
					int d = s.done;
					ev("got", s.no, d == 1);
				}
			});
		for (auto& t : ts) t.join();
		g_th = 0;
		Slow::Release();
		ev("released", 0, false);
	}
	for (auto& e : g_ev) vt::Line(e.e).i("th", e.th).i("no", e.no).b("ready", e.ready).end();
}
int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::watchdog(30);
		if (a.mode == "space") { if (g.chance(1, 2)) space<R2>(g); else space<SE2>(g); }
		else if (a.mode == "single") {
			int k = g.range(0, 2);
			if (k == 0) history<Thing<Singleton>>(g, "plain", true);
			else if (k == 1) history<Thing<SingletonThreadSafe>>(g, "safe", false);
			else historyInit(g);
		} else if (a.mode == "threads") threadsCase(g);
		else return 3;
		vt::flush();
	}
	return vt::finish();
}
