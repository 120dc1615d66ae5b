// Conformance harness: sampling-based planners (modes rrt, star).  The state
// space, the validator and the path connection are recorded, so the trace shows
// which samples were drawn, which paths were built and which were found valid.
#include "vt.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "paths/path_r2.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include <map>
using namespace Planner;
using VI = std::vector<long long>;
static std::map<std::pair<double, double>, int> g_ids;
static int id(const Point2d& p)
{
	auto key = std::make_pair(p.x(), p.y());
	auto it = g_ids.find(key);
	if (it != g_ids.end()) return it->second;
	int n = (int)g_ids.size() + 1;
	g_ids[key] = n;
	vt::Line("pt").i("id", n).i("x", vt::fx(p.x(), 1000)).i("y", vt::fx(p.y(), 1000)).end();
	return n;
}
struct Space : StateSpace<Point2d, 2, double> {
	vt::Rng* g;
	int grid; // samples lie on a grid of this pitch (mm), 0: anywhere
	double w;
	const Point2d* goal = nullptr; // samples come very close to it at times
	Space(vt::Rng* g, double w, int grid) : StateSpace(std::array<Point2d, 2> { Point2d(-w, -w), Point2d(w, w) }), g(g), grid(grid), w(w) { }
	void EnforceBounds(Point2d& s) override { s.x() = std::clamp(s.x(), -w, w); s.y() = std::clamp(s.y(), -w, w); }
	bool ValidateBounds(const Point2d& s) override { return std::abs(s.x()) <= w && std::abs(s.y()) <= w; }
	Point2d draw() { return grid ? Point2d(g->range(-(int)(w * 1000 / grid), (int)(w * 1000 / grid)) * grid / 1000.0, g->range(-(int)(w * 1000 / grid), (int)(w * 1000 / grid)) * grid / 1000.0) : Point2d(g->real(-w, w), g->real(-w, w)); }
	Point2d SampleUniform() override
	{
		Point2d p = draw();
		if (goal && g->chance(1, 12)) p = Point2d(goal->x() + g->real(-5e-4, 5e-4), goal->y() + g->real(-5e-4, 5e-4));
		int n = id(p);
		vt::Line("sample").i("q", n).end();
		return p;
	}
	Point2d SampleGaussian(const Point2d&, const Point2d&) override { return SampleUniform(); }
};
struct Wall { double x0, y0, x1, y1; };
struct Validator : StateValidator<Point2d, 2, double> {
	std::vector<Wall> walls;
	using StateValidator::StateValidator;
	bool inside(const Point2d& s)
	{
		for (auto& w : walls) if (s.x() >= w.x0 && s.x() <= w.x1 && s.y() >= w.y0 && s.y() <= w.y1) return true;
		return false;
	}
	bool IsStateValid(const Point2d& s) override { return !inside(s) && m_stateSpace->ValidateBounds(s); }
	bool IsPathValid(const Path<Point2d>& p, float* last = nullptr) override
	{
		bool ok = true;
		int n = std::max(2, (int)(p.GetLength() / 0.02));
		if (last) *last = 1.0f;
		for (int i = 0; i <= n && ok; i++)
			if (inside(p.Interpolate((double)i / n))) { ok = false; if (last) *last = i ? (float)(i - 1) / n : 0.0f; }
		int a = id(p.GetInitialState()), b = id(p.GetFinalState());
		vt::Line("valid").i("a", a).i("b", b).b("ok", ok).end();
		return ok;
	}
};
// a path along x, then along y: a connection which is not straight
struct CornerPath : Path<Point2d> {
	CornerPath(const Point2d& a, const Point2d& b) : Path<Point2d>(a, (b - a).lpNorm<1>()), m_to(b) { m_final = b; }
	Point2d Interpolate(double r) const override
	{
		if (r >= 1.0) return m_final;
		double s = r * m_length, dx = m_to.x() - m_init.x(), dy = m_to.y() - m_init.y();
		if (s <= std::abs(dx)) return Point2d(m_init.x() + (dx < 0 ? -s : s), m_init.y());
		s -= std::abs(dx);
		return Point2d(m_to.x(), m_init.y() + (dy < 0 ? -s : s));
	}
	void Truncate(double r) override { m_final = Interpolate(r); m_length *= r; m_to = m_final; }
	Point2d m_to;
};
struct Connection : PathConnectionR2Base {
	PathConnectionR2 real;
	bool corner = false;
	Ref<Path<Point2d>> Connect(const Point2d& from, const Point2d& to) override
	{
		int a = id(from), b = id(to);
		auto p = corner ? Ref<Path<Point2d>>(makeRef<CornerPath>(from, to)) : real.Connect(from, to);
		vt::Line("conn").i("a", a).i("b", b).i("len", vt::fx(p->GetLength(), 1000)).end();
		return p;
	}
};
template <typename Planner_, typename Params>
static void run(vt::Rng& g, bool star)
{
	g_ids.clear();
	auto conn = makeRef<Connection>();
	conn->corner = g.chance(1, 3);
	vt::Line("case").b("star", star).b("corner", conn->corner).end();
	double w = g.real(3, 10);
	auto space = makeRef<Space>(&g, w, g.chance(1, 3) ? g.range(1, 3) * 500 : 0);
	auto val = makeRef<Validator>(space);
	// a dense grid: the samples repeat, and the states are in the tree already
	bool dense = g.chance(1, 6);
	if (dense) space->grid = std::max(500, (int)(w * 1000 / g.range(3, 5)));
	int nw = dense ? g.range(1, 8) : g.range(0, 5);
	for (int i = 0; i < nw; i++) {
		double x = g.real(-w, w), y = g.real(-w, w), a = g.real(0.05, 0.3), b = g.real(1, w);
		if (g.chance(1, 2)) std::swap(a, b);
		val->walls.push_back({ x, y, x + a, y + b });
	}
	Planner_ planner(space, val, conn);
	int searches = g.chance(1, 3) ? 2 : 1;
	for (int s = 0; s < searches; s++) {
		Params par;
		par.maxIteration = g.chance(1, 8) ? g.range(0, 5) : g.chance(1, 40) ? g.range(250, 450) : g.range(20, 120);
		if (dense) par.maxIteration = g.range(80, 250);
		par.maxNumberTreeNode = g.chance(1, 6) ? g.range(1, 12) : 10000;
		int dist = g.chance(1, space->grid ? 2 : 4) ? g.range(3000, 30000) : g.range(100, 2500); // mm
		if (dense) dist = g.range(3000, 30000);
		if (!dense && g.chance(1, 25)) dist = g.chance(1, 2) ? g.range(2, 9) : g.range(10, 60);
		par.maxConnectionDistance = dist / 1000.0;
		par.goalBias = g.chance(1, 5) ? 0.0 : g.chance(1, 4) ? 0.5 : g.real(0, 0.4);
		planner.SetParameters(par);
		Point2d init = space->draw(), goal = space->draw();
		if (g.chance(1, 15)) goal = init;
		// a goal that is hard or impossible to reach
		for (int k = 0; k < 40 && dense && !val->inside(goal); k++) goal = space->draw();
		space->goal = !dense && g.chance(1, 8) ? &goal : nullptr;
		for (int k = 0; k < 30 && val->inside(init); k++) init = space->draw();
		planner.SetInitState(init);
		planner.SetGoalState(goal);
		int a = id(init), b = id(goal);
		vt::Line("start").i("init", a).i("goal", b).i("iters", par.maxIteration).i("nodes", par.maxNumberTreeNode).i("dist", dist).end();
		bool ok = planner.SearchPath() == Status::Success;
		VI path;
		for (auto& p : planner.GetPath()) path.push_back(id(p));
		// the planner reports what it was given
		bool kept = planner.GetInitState() == init && planner.GetGoalState() == goal && planner.GetParameters().maxIteration == par.maxIteration;
		space->goal = nullptr;
		vt::Line("done").b("ok", ok).arr("path", path).b("kept", kept).end();
	}
}
int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::watchdog(30);
		if (a.mode == "rrt") run<RRTR2, RRTParameters>(g, false);
		else if (a.mode == "star") run<RRTStarR2, RRTStarParameters>(g, true);
		else return 3;
		vt::flush();
	}
	return vt::finish();
}
