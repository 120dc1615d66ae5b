// Conformance harness: AStar (graph and tree search) and BidirectionalAStar on
// random weighted digraphs.  Modes: uni, bi.
#include "vt.h"
#include "core/base.h"
#include "algo/a_star.h"
#include "algo/bidirectional_a_star.h"
using namespace Planner;

static double UNIT = 1.0; // of the costs of a case
static double SC = 16.0;  // all costs are multiples of UNIT / 16

struct St { int key = 0; int via = -1; };
struct HashS { std::size_t operator()(const St& s) const { return std::hash<int>()(s.key); } };
struct HashBad { std::size_t operator()(const St& s) const { return (std::size_t)(s.key & 1); } };
struct EqS { bool operator()(const St& a, const St& b) const { return a.key == b.key; } };

struct EdgeT { int u, v; double c; };
struct Graph {
	int n = 0;
	std::vector<EdgeT> e;
	std::vector<std::vector<int>> out, in;
	void index()
	{
		out.assign(n + 1, {}); in.assign(n + 1, {});
		for (int i = 0; i < (int)e.size(); i++) { out[e[i].u].push_back(i); in[e[i].v].push_back(i); }
	}
	// distances to (rev) or from (fwd) a node
	std::vector<double> dist(int src, bool toSrc) const
	{
		std::vector<double> d(n + 1, INFINITY);
		d[src] = 0;
		for (int r = 0; r < n; r++)
			for (auto& x : e) {
				int a = toSrc ? x.v : x.u, b = toSrc ? x.u : x.v;
				if (d[a] + x.c < d[b]) d[b] = d[a] + x.c;
			}
		return d;
	}
};

struct Prop : public AStarStatePropagator<St, int> {
	const Graph* g; bool rev; int dir; long* budget;
	Prop(const Graph* g, bool rev, long* b) : g(g), rev(rev), dir(rev), budget(b) { }
	std::vector<std::tuple<St, int, double>> GetNeighborStates(const St& s) override
	{
		vt::Line ln("expand");
		ln.i("s", s.key).i("dir", dir);
		ln.end();
		if (--*budget < 0) vt::emergency("hang");
		std::vector<std::tuple<St, int, double>> r;
		if (s.key < 1 || s.key > g->n) return r;
		for (int i : (rev ? g->in : g->out)[s.key]) {
			St t; t.key = rev ? g->e[i].u : g->e[i].v; t.via = i + 1;
			r.push_back({ t, i + 1, g->e[i].c });
		}
		return r;
	}
};

using HTable = std::vector<std::vector<double>>; // h[goal][state]
static std::vector<long long> row(const std::vector<double>& h)
{
	std::vector<long long> r;
	for (size_t i = 1; i < h.size(); i++) r.push_back(vt::fx(h[i], SC));
	return r;
}

static double q8(double v) { return std::floor(v / UNIT * 8.0) / 8.0 * UNIT; }

// A consistent heuristic towards every goal: distances derived in several ways
static HTable makeH(vt::Rng& g, const Graph& gr, int kind, bool toGoal)
{
	HTable h(gr.n + 1, std::vector<double>(gr.n + 1, 0));
	double cap = g.range(0, 60) / 8.0 * UNIT, sub = g.range(1, 30) / 8.0 * UNIT;
	for (int t = 1; t <= gr.n; t++) {
		auto d = gr.dist(t, toGoal);
		// unreachable states: a value above every finite one keeps consistency
		double big = 0;
		for (int v = 1; v <= gr.n; v++) if (std::isfinite(d[v])) big = std::max(big, d[v]);
		for (int v = 1; v <= gr.n; v++) {
			double dv = std::isfinite(d[v]) ? d[v] : big;
			switch (kind) {
			case 0: h[t][v] = 0; break;
			case 1: h[t][v] = dv; break;
			case 2: h[t][v] = std::min(dv, cap); break;
			case 3: h[t][v] = std::max(dv - sub, 0.0); break;
			case 4: h[t][v] = dv / 2; break;
			default: h[t][v] = std::isfinite(d[v]) ? q8(dv * g.unit()) : 0; break; // admissible only
			}
		}
	}
	return h;
}

static Graph makeGraph(vt::Rng& g, int n, bool positive, int style)
{
	Graph gr; gr.n = n;
	int m = style == 3 ? 3 * n : g.range(n / 2, 3 * n);
	bool big = style == 2 && n <= 30;
	auto cost = [&]() -> double {
		if (big && g.chance(1, 3)) return (262144.0 * g.range(1, 16) + g.range(1, 7) / 8.0) * UNIT;
		if (style == 1) return UNIT;
		double c = g.range(positive ? 1 : 0, 40) / 8.0;
		if (style == 4) c = g.range(positive ? 1 : 0, 3);
		return c * UNIT;
	};
	for (int i = 0; i < m; i++) {
		int u = g.range(1, n), v = g.range(1, n);
		double c = cost();
		gr.e.push_back({ u, v, c });
		if (g.chance(1, 4)) gr.e.push_back({ v, u, cost() });
		if (g.chance(1, 10)) gr.e.push_back({ u, v, cost() });
	}
	if (g.chance(1, 2)) // a long detour chain, so that shortcuts matter
		for (int v = 1; v < n; v++) gr.e.push_back({ v, v + 1, cost() });
	gr.index();
	return gr;
}

static void logGraph(const Graph& gr)
{
	std::vector<std::vector<long long>> e;
	for (auto& x : gr.e) e.push_back({ x.u, x.v, vt::fx(x.c, SC) });
	vt::Line ln("graph");
	ln.i("n", gr.n).arr2("edges", e);
	ln.end();
}

template <typename P>
static void logResult(const char* ev, const P& path, const std::vector<int>& acts, Status st, double cost, std::vector<int> exf, std::vector<int> exr)
{
	std::vector<std::vector<int>> pp;
	for (auto& s : path) pp.push_back({ s.key, s.via });
	vt::Line ln(ev);
	ln.b("ok", st == Status::Success).arr2("path", pp).arr("acts", acts);
	ln.i("cost", std::isinf(cost) && cost > 0 ? -1 : (vt::exact(cost, SC) ? vt::fx(cost, SC) : -2));
	ln.arr("exf", exf).arr("exr", exr);
	ln.end();
	vt::flush();
}

template <typename C> static std::vector<int> keysOf(const C&) { return {}; }
template <typename H> static std::vector<int> keysOf(const Explored<St, H, EqS>& c) { std::vector<int> r; for (auto& s : c) r.push_back(s.key); return r; }
template <typename H> static std::vector<int> keysOf(const ExploredMap<St, int, H, EqS>& c) { std::vector<int> r; for (auto& s : c) r.push_back(s.first.key); return r; }

using FcnH = AStarConcreteHeuristicFcn<St, std::function<double(const St&, const St&)>>;
using FcnI = AStarConcreteHeuristicFcn<int, std::function<double(const int&, const int&)>>;

static Ref<AStarHeuristic<St>> wrap(vt::Rng& g, const HTable* h)
{
	auto fcn = [h](const St& s, const St& t) { return (*h)[t.key][s.key]; };
	int k = g.range(0, 3);
	if (k == 0) {
		// adapter from plain integers
		Ref<AStarHeuristic<int>> inner = makeRef<FcnI>([h](const int& s, const int& t) { return (*h)[t][s]; });
		auto f = [](const St& s) { return s.key; };
		return makeRef<AStarHeuristicAdapter<St, int, decltype(f)>>(inner, f);
	}
	if (k == 1) {
		// the maximum of several lower bounds
		auto c = makeRef<AStarCombinedHeuristic<St>>();
		Ref<AStarHeuristic<St>> a = makeRef<FcnH>([h](const St& s, const St& t) { return (*h)[t.key][s.key] / 2; });
		Ref<AStarHeuristic<St>> b = makeRef<FcnH>(fcn);
		Ref<AStarHeuristic<St>> z = makeRef<FcnH>([](const St&, const St&) { return 0.0; });
		int o = g.range(0, 3);
		if (o == 0) c->Add(b, a, z); else if (o == 1) c->Add(a, b); else if (o == 2) c->Add(z, a, b); else { c->Add(z); c->Add(a); c->Add(b); }
		return c;
	}
	return makeRef<FcnH>(fcn);
}

template <bool GraphS, typename Planner_, typename H>
static void runUni(vt::Rng& g, long id)
{
	Planner_ planner;
	if (g.chance(1, 6)) {
		// not initialised: fails and stays empty
		bool r = planner.Initialize(nullptr, nullptr);
		Status st = planner.SearchPath();
		vt::Line l0("null"); l0.b("r", r); l0.end();
		logResult("noinit", planner.GetPath(), planner.GetActions(), st, planner.GetOptimalCost(), {}, {});
	}
	std::vector<Scope<Graph>> graphs;
	std::vector<Scope<HTable>> tables;
	long budget = 200000;
	int nsearch = g.range(2, 6);
	const Graph* gr = nullptr;
	for (int k = 0; k < nsearch; k++) {
		if (!gr || g.chance(1, 3)) {
			int n = g.chance(1, 6) ? (g.chance(1, 8) ? g.range(60, 140) : g.range(15, 30)) : g.range(2, 9);
			if (!GraphS) n = g.range(2, 8);
			graphs.push_back(makeScope<Graph>(makeGraph(g, n, !GraphS, GraphS ? g.range(0, 4) : g.pick(std::vector<int> { 0, 1, 4 }))));
			gr = graphs.back().get();
			logGraph(*gr);
			int hk = GraphS ? g.range(0, 4) : g.range(0, 5);
			tables.push_back(makeScope<HTable>(makeH(g, *gr, hk, true)));
			planner.Initialize(makeRef<Prop>(gr, false, &budget), wrap(g, tables.back().get()));
		}
		const HTable& h = *tables.back();
		if (g.chance(1, 12)) { // initialisation withdrawn
			auto p = planner.GetStatePropagator();
			auto hh = planner.GetHeuristic();
			bool r = g.chance(1, 2) ? planner.Initialize(nullptr, hh) : planner.Initialize(p, nullptr);
			vt::Line("null").b("r", r).end();
			vt::Line("refuse").b("ok", planner.SearchPath() == Status::Success).end();
			planner.Initialize(p, hh);
		}
		St s, t;
		int tries = 0;
		do {
			s.key = g.range(1, gr->n); t.key = g.range(1, gr->n);
			if (++tries > 60) { t.key = s.key; break; }
		} while (!GraphS && !std::isfinite(gr->dist(t.key, true)[s.key]));
		s.via = -1; t.via = -7;
		planner.SetInitState(s);
		planner.SetGoalState(t);
		vt::Line ln("search");
		ln.i("start", s.key).i("goal", t.key).b("tree", !GraphS).arr("h", row(h[t.key])).arr("hr", std::vector<int>());
		ln.end();
		budget = 100000;
		Status st = planner.SearchPath();
		logResult("result", planner.GetPath(), planner.GetActions(), st, planner.GetOptimalCost(), keysOf(planner.GetExploredStates()), {});
		if (g.chance(1, 4)) // the result can be read again
			logResult("again", planner.GetPath(), planner.GetActions(), st, planner.GetOptimalCost(), {}, {});
	}
}

template <typename Planner_, typename H>
static void runBi(vt::Rng& g, long id, bool tree)
{
	Ref<AStarStatePropagator<St, int>> cur[2];
	Planner_ planner;
	if (g.chance(1, 6)) {
		bool r = planner.Initialize(nullptr, nullptr, nullptr, nullptr);
		Status st = planner.SearchPath();
		vt::Line l0("null"); l0.b("r", r); l0.end();
		logResult("noinit", planner.GetPath(), {}, st, planner.GetOptimalCost(), {}, {});
	}
	std::vector<Scope<Graph>> graphs;
	std::vector<Scope<HTable>> tables;
	long budget = 200000;
	int nsearch = g.range(2, 6);
	const Graph* gr = nullptr;
	for (int k = 0; k < nsearch; k++) {
		if (!gr || g.chance(1, 3)) {
			int n = g.chance(1, 6) ? (g.chance(1, 8) ? g.range(60, 140) : g.range(15, 30)) : g.range(2, 9);
			if (tree) n = g.range(2, 8);
			graphs.push_back(makeScope<Graph>(makeGraph(g, n, tree, tree ? g.pick(std::vector<int> { 0, 1, 4 }) : g.range(0, 4))));
			gr = graphs.back().get();
			logGraph(*gr);
			auto fp = makeRef<Prop>(gr, false, &budget), rp = makeRef<Prop>(gr, true, &budget);
			cur[0] = fp;
			cur[1] = rp;
			if (g.chance(1, 5)) {
				// the zero pair is consistent as it is
				tables.push_back(makeScope<HTable>(makeH(g, *gr, 0, true)));
				tables.push_back(makeScope<HTable>(makeH(g, *gr, 0, false)));
				planner.Initialize(fp, rp, makeRef<FcnH>([](const St&, const St&) { return 0.0; }), makeRef<FcnH>([](const St&, const St&) { return 0.0; }));
			} else {
				tables.push_back(makeScope<HTable>(makeH(g, *gr, g.range(0, 4), true)));
				tables.push_back(makeScope<HTable>(makeH(g, *gr, g.range(0, 4), false)));
				auto [hf, hr] = Planner_::GetAverageHeuristicPair(wrap(g, tables[tables.size() - 2].get()), wrap(g, tables.back().get()));
				planner.Initialize(fp, rp, hf, hr);
			}
		}
		if (g.chance(1, 12)) { // initialisation withdrawn
			auto ps = planner.GetStatePropagators();
			auto hs = planner.GetHeuristics();
			vt::Line("parts").b("same", std::get<0>(ps) == cur[0] && std::get<1>(ps) == cur[1] && std::get<0>(hs) && std::get<1>(hs)).end();
			Ref<AStarStatePropagator<St, int>> p[2] = { std::get<0>(ps), std::get<1>(ps) };
			Ref<AStarHeuristic<St>> h[2] = { std::get<0>(hs), std::get<1>(hs) };
			int w = g.range(0, 3);
			bool r = planner.Initialize(w == 0 ? nullptr : p[0], w == 1 ? nullptr : p[1], w == 2 ? nullptr : h[0], w == 3 ? nullptr : h[1]);
			vt::Line("null").b("r", r).end();
			vt::Line("refuse").b("ok", planner.SearchPath() == Status::Success).end();
			planner.Initialize(p[0], p[1], h[0], h[1]);
		}
		St s, t;
		int tries = 0;
		do {
			s.key = g.range(1, gr->n); t.key = g.range(1, gr->n);
			if (++tries > 60) { t.key = s.key; break; }
		} while (tree && !std::isfinite(gr->dist(t.key, true)[s.key]));
		s.via = -1; t.via = -7;
		planner.SetInitState(s);
		planner.SetGoalState(t);
		vt::Line ln("search");
		ln.i("start", s.key).i("goal", t.key).b("tree", tree);
		ln.arr("h", row((*tables[tables.size() - 2])[t.key])).arr("hr", row((*tables.back())[s.key]));
		ln.end();
		budget = 100000;
		Status st = planner.SearchPath();
		auto ex = planner.GetExploredStates();
		logResult("result", planner.GetPath(), {}, st, planner.GetOptimalCost(), keysOf(std::get<0>(ex)), keysOf(std::get<1>(ex)));
		auto hs = planner.GetHeuristics();
		std::vector<long long> hf, hr;
		for (int v = 1; v <= gr->n; v++) {
			St x;
			x.key = v;
			hf.push_back(vt::fx(std::get<0>(hs)->GetHeuristicValue(x), 2 * SC));
			hr.push_back(vt::fx(std::get<1>(hs)->GetHeuristicValue(x), 2 * SC));
		}
		vt::Line("pair").i("start", s.key).i("goal", t.key).arr("h", row((*tables[tables.size() - 2])[t.key])).arr("hr", row((*tables.back())[s.key])).arr("af", hf).arr("ar", hr).end();
		if (g.chance(1, 4))
			logResult("again", planner.GetPath(), {}, st, planner.GetOptimalCost(), {}, {});
	}
}

int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard + (a.mode == "bi" ? 500 : 0));
	for (long c = 0; c < a.cases; c++) {
		vt::Line("case").i("id", c).end();
		vt::flush();
		vt::watchdog(30);
		int k = g.range(0, 3);
		UNIT = g.pick(std::vector<double> { 1.0, 1.0, 1.0 / (1 << 14), 1.0 / (1 << 26), 1 << 20 });
		SC = 16.0 / UNIT;
		if (a.mode == "bi") {
			if (k == 0) runBi<BidirectionalAStar<St, int, HashBad, EqS, true>, HashBad>(g, c, false);
			else if (k == 1) runBi<BidirectionalAStar<St, int, HashS, EqS, false>, HashS>(g, c, true);
			else runBi<BidirectionalAStar<St, int, HashS, EqS>, HashS>(g, c, false);
		} else {
			if (k == 0) runUni<true, AStar<St, int, HashBad, EqS, true>, HashBad>(g, c);
			else if (k == 1) runUni<false, AStar<St, int, HashS, EqS, false, ExploredVoid<St>>, HashS>(g, c);
			else if (k == 2) runUni<true, AStar<St, int, HashS, EqS, true, ExploredMap<St, int, HashS, EqS>>, HashS>(g, c);
			else runUni<true, AStar<St, int, HashS, EqS>, HashS>(g, c);
		}
	}
	return vt::finish();
}
