// Conformance harness: path objects, composite paths, bicycle model, poses.
// Modes: path, comp, bike, pose.
#include "vt.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "geometry/reeds_shepp.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_r2.h"
#include "paths/path_se2.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_constant_steer.h"
#include "paths/path_composite.h"
#include "utils/maths.h"
#include "utils/grid.h"
using namespace Planner;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;
static const double U = 1e4;
static int sgn(Direction d) { return d == Direction::Forward ? 1 : d == Direction::Backward ? -1 : 0; }
static int sgn(Steer s) { return s == Steer::Left ? 1 : s == Steer::Right ? -1 : 0; }
static VI pose(const Pose2d& p) { return { vt::fx(p.x(), U), vt::fx(p.y(), U), vt::fx(p.theta, U) }; }
static VI pose(const Point2d& p) { return { vt::fx(p.x(), U), vt::fx(p.y(), U), 0 }; }
static Pose2d randomPose(vt::Rng& g, double w) { return Pose2d(g.real(-w, w), g.real(-w, w), g.chance(1, 5) ? g.range(-2, 2) * M_PI_2 : g.real(-M_PI, M_PI)); }

// A path with what the specification needs to know about it
template <typename State>
struct Made {
	Ref<Path<State>> path;
	struct Piece { double first; int second; double curv = 0; }; // length, direction, curvature (left is positive)
	std::vector<Piece> pieces;
	bool rear = true; // the position is the point that moves along its heading
};
static Made<Point2d> makeR2(vt::Rng& g, Point2d from)
{
	Point2d to(g.real(-9, 9), g.real(-9, 9));
	if (g.chance(1, 12)) to = from;
	Made<Point2d> m;
	m.path = g.chance(1, 2) ? Ref<Path<Point2d>>(makeRef<PathR2>(from, to)) : PathConnectionR2().Connect(from, to);
	m.pieces = { { (to - from).norm(), 0 } };
	return m;
}
static Made<Pose2d> makeSE2(vt::Rng& g, Pose2d from, int kind)
{
	Made<Pose2d> m;
	if (kind == 0) {
		Pose2d to = randomPose(g, 9);
		m.path = g.chance(1, 2) ? Ref<Path<Pose2d>>(makeRef<PathSE2>(from, to)) : PathConnectionSE2().Connect(from, to);
		m.pieces = { { (to.position - from.position).norm(), 0 } };
	} else if (kind == 1) {
		double R = g.real(0.5, 4);
		Pose2d to = g.chance(1, 3) ? randomPose(g, 3 * R) : randomPose(g, 9);
		if (g.chance(1, 12)) to = from;
		auto seg = g.chance(1, 2) ? ReedsShepp::Solver::GetShortestPath(from, to, R)
								   : ReedsShepp::Solver::GetOptimalPath(from, to, R, g.range(1, 24) / 8.0f, g.range(1, 24) / 8.0f, g.range(0, 16) / 8.0f);
		m.path = makeRef<PathReedsShepp>(from, seg, R);
		for (int i = 0; i < seg.GetNumMotions(); i++) m.pieces.push_back({ seg.GetMotion(i).length * R, sgn(seg.GetMotion(i).direction), sgn(seg.GetMotion(i).steer) / R });
	} else {
		double len = g.chance(1, 12) ? 0.0 : g.real(0.05, 12);
		bool back = g.chance(1, 2);
		double wheelbase = g.real(1, 4), ahead = g.chance(1, 2) ? 0.0 : g.real(0, 2), steer = g.chance(1, 5) ? 0.0 : g.real(-0.7, 0.7);
		m.path = makeRef<PathConstantSteer>(makeRef<KinematicBicycleModel>(wheelbase, ahead), from, steer, len, back ? Direction::Backward : Direction::Forward);
		m.pieces = { { len, back ? -1 : 1, tan(steer) / wheelbase } };
		m.rear = ahead == 0;
	}
	return m;
}
static std::vector<double> cuspsOf(const Path<Point2d>&) { return {}; }
static std::vector<double> cuspsOf(const Path<Pose2d>& p)
{
	std::vector<double> r;
	if (auto n = dynamic_cast<const PathNonHolonomicSE2Base*>(&p)) for (double c : n->GetCuspPointRatios()) r.push_back(c);
	return r;
}
static long long dirOf(const Path<Point2d>&, double) { return 0; }
static long long dirOf(const Path<Pose2d>& p, double q) { auto n = dynamic_cast<const PathNonHolonomicSE2Base*>(&p); return n ? sgn(n->GetDirection(q)) : 0; }
static bool directed(const Path<Point2d>&) { return false; }
static bool directed(const Path<Pose2d>& p) { return dynamic_cast<const PathNonHolonomicSE2Base*>(&p) != nullptr; }

template <typename State>
static void summary(const char* ev, const Path<State>& p, long long j)
{
	VI cusps;
	for (double c : cuspsOf(p)) cusps.push_back(vt::fx(c, U));
	vt::Line(ev).i("j", j).i("len", vt::fx(p.GetLength(), U)).arr("init", pose(p.GetInitialState())).arr("fin", pose(p.GetFinalState()))
		.arr("at0", pose(p.Interpolate(0.0))).arr("at1", pose(p.Interpolate(1.0))).arr("cusps", cusps).b("directed", directed(p)).end();
}
struct Table {
	std::vector<double> s; // arc length of each point
	size_t cur = 0;        // index of the end of the path
};
// queries at the recorded points
template <typename State>
static void query(vt::Rng& g, const Path<State>& p, const Table& t, int n)
{
	double L = p.GetLength();
	for (int i = 0; i < n; i++) {
		size_t j = g.range(0, (int)t.cur);
		double q = L > 0 ? std::min(1.0, t.s[j] / L) : g.unit();
		if (j == t.cur) q = 1.0;
		vt::Line("q").i("j", j + 1).arr("p", pose(p.Interpolate(q))).i("dir", dirOf(p, q)).b("directed", directed(p)).end();
	}
	std::vector<double> qs;
	VVI one, all;
	for (int i = 0; i < 3; i++) qs.push_back(g.unit());
	for (double q : qs) one.push_back(pose(p.Interpolate(q)));
	for (auto& x : p.Path<State>::Interpolate(qs)) all.push_back(pose(x));
	vt::Line("many").arr2("one", one).arr2("all", all).end();
}
static const int N = 24;
// the points of a fresh path, and the pieces
static double heading(const Pose2d& p) { return p.theta; }
static double heading(const Point2d&) { return 0; }
template <typename State>
static void pushLine(const char* ev, const Made<State>& m, Table& t, double start)
{
	VVI pts, pcs;
	double L = m.path->GetLength();
	for (int i = t.s.empty() ? 0 : 1; i <= N; i++) {
		double q = (double)i / N;
		t.s.push_back(start + q * L);
		State here = m.path->Interpolate(q);
		VI v = pose(here);
		v.insert(v.begin(), vt::fx(start + q * L, U));
		// heading in the middle since the last point
		double mid = i == 0 ? 0 : heading(m.path->Interpolate((i - 0.5) / N));
		v.push_back(vt::fx(cos(mid), U)); v.push_back(vt::fx(sin(mid), U));
		pts.push_back(v);
	}
	t.cur = t.s.size() - 1;
	// a piece which is too short to be seen is not recorded as null
	for (auto& pc : m.pieces) pcs.push_back({ pc.first > 0 ? std::max(1LL, vt::fx(pc.first, U)) : 0, pc.second, vt::fx(pc.curv, U) });
	vt::Line(ev).arr2("pts", pts).arr2("pieces", pcs).b("rear", m.rear).end();
}
static void cost(vt::Rng&, const Path<Point2d>&) { }
static void cost(vt::Rng& g, const Path<Pose2d>& p)
{
	auto rs = dynamic_cast<const PathReedsShepp*>(&p);
	if (!rs) return;
	bool plain = g.chance(1, 4);
	int f = plain ? 8 : g.range(1, 24), r = plain ? 8 : g.range(1, 24), sw = plain ? 0 : g.range(0, 16);
	vt::Line("cost").i("fwd", f).i("rev", r).i("sw", sw).i("c", vt::fx(rs->ComputeCost(sw / 8.0, r / 8.0, f / 8.0), U)).end();
}
template <typename State>
static void single(vt::Rng& g, Made<State> m, int kind, const State& a, const State& b)
{
	vt::Line("case").i("kind", kind).arr("a", pose(a)).arr("b", pose(b)).end();
	Table t;
	pushLine("make", m, t, 0);
	summary("sum", *m.path, t.cur + 1);
	cost(g, *m.path);
	query(g, *m.path, t, 6);
	int k = g.range(1, 4);
	for (int i = 0; i < k; i++) {
		size_t j = g.chance(1, 10) ? t.cur : g.chance(1, 12) ? 0 : g.range(t.cur > 4 ? 1 : 0, (int)t.cur);
		double L = m.path->GetLength();
		double r = L > 0 ? std::min(1.0, t.s[j] / L) : 1.0;
		if (j == t.cur || L == 0) { r = 1.0; j = t.cur; }
		m.path->Truncate(r);
		t.cur = j;
		summary("trunc", *m.path, t.cur + 1);
		cost(g, *m.path);
		query(g, *m.path, t, 6);
	}
}
static void pathCase(vt::Rng& g)
{
	int kind = g.range(0, 3);
	if (kind == 3) {
		Point2d from(g.real(-9, 9), g.real(-9, 9));
		auto m = makeR2(g, from);
		single<Point2d>(g, m, kind, from, m.path->GetFinalState());
	} else {
		Pose2d from = randomPose(g, 9);
		auto m = makeSE2(g, from, kind);
		single<Pose2d>(g, m, kind, from, m.path->GetFinalState());
	}
}
// composite paths: segments are recorded from a twin which is not in the composite
template <typename State, typename Composite, typename Base, typename Make>
static void composite(vt::Rng& g, State at, Make make)
{
	vt::Line("case").i("kind", 9).arr("a", VI {}).arr("b", VI {}).end();
	Composite c;
	Table t;
	if (g.chance(1, 5)) {
		bool threw = false;
		try { (void)c.Interpolate(0.5); } catch (const std::out_of_range&) { threw = true; }
		c.Truncate(0.5);
		vt::Line("empty").b("threw", threw).i("len", vt::fx(c.GetLength(), U)).i("size", c.Size()).i("dir", dirOf(c, 0.5)).end();
	}
	int n = g.range(2, 12);
	for (int i = 0; i < n; i++) {
		if (t.s.empty() || g.chance(1, 2)) {
			vt::Rng h = g;
			auto twin = make(g, at);
			auto seg = make(h, at);
			if (g.chance(1, 4)) c.Reserve(g.range(0, 20));
			c.PushBack(std::dynamic_pointer_cast<Base>(seg.path));
			double start = t.s.empty() ? 0.0 : t.s[t.cur];
			t.s.resize(t.s.empty() ? 0 : t.cur + 1);
			pushLine("push", twin, t, start);
			at = twin.path->GetFinalState();
			summary("sum", c, t.cur + 1);
			vt::Line("size").i("n", c.Size()).i("what", 1).end();
		} else {
			size_t j = g.chance(1, 10) ? t.cur : g.range(0, (int)t.cur);
			double L = c.GetLength();
			double r = L > 0 ? std::min(1.0, t.s[j] / L) : 1.0;
			if (j == t.cur || L == 0) { r = 1.0; j = t.cur; }
			c.Truncate(r);
			t.cur = j;
			at = c.GetFinalState();
			summary("trunc", c, t.cur + 1);
			vt::Line("size").i("n", c.Size()).i("what", 0).end();
		}
		query(g, c, t, 5);
	}
}
static void compCase(vt::Rng& g)
{
	int k = g.range(0, 5);
	if (k == 0) composite<Point2d, PathComposite<Point2d>, Path<Point2d>>(g, Point2d(g.real(-9, 9), g.real(-9, 9)), [](vt::Rng& r, Point2d a) { return makeR2(r, a); });
	else if (k == 1) composite<Pose2d, PathComposite<Pose2d>, Path<Pose2d>>(g, randomPose(g, 9), [](vt::Rng& r, Pose2d a) { return makeSE2(r, a, r.range(0, 2)); });
	else composite<Pose2d, PathSE2CompositeNonHolonomic, PathNonHolonomicSE2Base>(g, randomPose(g, 9), [](vt::Rng& r, Pose2d a) { return makeSE2(r, a, r.range(1, 2)); });
}

// ------------------------------------------------------------------ bicycle
static VI pose5(const Pose2d& p) { return { vt::fx(p.x(), U), vt::fx(p.y(), U), vt::fx(p.theta, U), vt::fx(cos(p.theta), U), vt::fx(sin(p.theta), U) }; }
static void bikeCase(vt::Rng& g)
{
	int L = g.range(100, 400), b = g.chance(1, 3) ? 0 : g.range(0, 250); // cm
	KinematicBicycleModel m(L / 100.0, b / 100.0);
	vt::Line("case").i("L", L).i("b", b).end();
	for (int q = 0; q < 6; q++) {
		// the tangent of the steering angle is a multiple of 1/100
		int tn = g.chance(1, 6) ? 0 : g.range(-150, 150);
		double steer = atan(tn / 100.0);
		bool back = g.chance(1, 2);
		Direction d = back ? Direction::Backward : Direction::Forward;
		Pose2d p = randomPose(g, 9);
		// steps of at most 0.25 rad and 1 m
		double step = std::min(1.0, tn ? 0.25 * L / std::abs(tn) : 1.0) * g.real(0.3, 1);
		step = std::floor(step * 1000) / 1000;
		int n = g.range(1, 30);
		VVI st;
		Pose2d start = p;
		for (int i = 0; i < n; i++) {
			Pose2d mid = m.ConstantSteer(p, steer, step / 2, d), next = m.ConstantSteer(p, steer, step, d);
			VI v = pose5(next), w = pose5(mid);
			v.insert(v.end(), w.begin(), w.end());
			st.push_back(v);
			p = next;
		}
		Pose2d whole = m.ConstantSteer(start, steer, step * n, d);
		Pose2d back0 = m.ConstantSteer(whole, steer, step * n, back ? Direction::Forward : Direction::Backward);
		PathConstantSteer path(makeRef<KinematicBicycleModel>(m), start, steer, step * n, d);
		vt::Line("drive").i("tan", tn).i("dir", back ? -1 : 1).i("step", vt::fx(step, U)).arr("p", pose5(start)).arr2("st", st).arr("whole", pose5(whole)).arr("back", pose5(back0))
			.arr("path", pose5(path.GetFinalState())).i("plen", vt::fx(path.GetLength(), U)).arr("half", pose5(path.Interpolate(0.5))).arr("half2", pose5(m.ConstantSteer(start, steer, step * n / 2, d))).end();
	}
	for (int q = 0; q < 3; q++) {
		// hardly any steering, over a long way
		int tn = (g.chance(1, 2) ? 1 : -1) * g.range(0, 1000), d = g.range(1, 100);
		bool back = g.chance(1, 2);
		Pose2d p = m.ConstantSteer(Pose2d(b / 100.0, 0.0, 0.0), atan(tn * 1e-6), d, back ? Direction::Backward : Direction::Forward);
		vt::Line("drift").i("tan", tn).i("d", d).i("dir", back ? -1 : 1).i("x", vt::fx(p.x() - b / 100.0 * cos(p.theta), U)).i("y", vt::fx(p.y() - b / 100.0 * sin(p.theta), U)).i("th", vt::fx(p.theta, U)).end();
	}
	for (int q = 0; q < 4; q++) {
		int R = g.chance(1, 4) ? g.range(0, b > 0 ? b - 1 : 0) : g.chance(1, 3) ? g.range(b, b + 8) : g.range(b + 5, 1500);
		double s = m.GetSteeringAngleFromTurningRadius(R / 100.0);
		vt::Line("radius").i("R", R).i("steer", vt::fx(s, U)).i("rho", vt::fx(L / 100.0 / tan(s), 1000)).end();
	}
}
// ------------------------------------------------------------------ poses
static void poseCase(vt::Rng& g)
{
	vt::Line("case").end();
	auto rp = [&] { return Pose2d(g.real(-9, 9), g.real(-9, 9), g.chance(1, 4) ? g.range(-4, 4) * M_PI_2 : g.real(-9, 9)); };
	for (int q = 0; q < 8; q++) {
		Pose2d a = rp(), b = rp(), c = rp();
		vt::Line("op").arr("a", pose5(a)).arr("b", pose5(b)).arr("c", pose5(c)).arr("sum", pose5(a + b)).arr("dif", pose5(b - a)).arr("minus", pose5((a + b) - a)).arr("plus", pose5(a + (b - a)))
			.arr("l", pose5((a + b) + c)).arr("r", pose5(a + (b + c))).arr("id", pose5(a + Pose2d(0.0, 0.0, 0.0))).arr("self", pose5(a - a)).end();
		double th = g.chance(1, 4) ? g.range(-20, 20) * M_PI_2 : g.real(-60, 60);
		Pose2d w(1.0, 2.0, th), raw;
		raw.position = { 1.0, 2.0 };
		raw.theta = th;
		vt::Line("wrap").i("th", vt::fx(th, U)).i("made", vt::fx(w.theta, U)).i("wrapped", vt::fx(raw.WrapTheta(), U)).b("in", w.theta >= -M_PI - 1e-9 && w.theta <= M_PI + 1e-9 && raw.WrapTheta() >= -M_PI - 1e-9 && raw.WrapTheta() <= M_PI + 1e-9).end();
		// equality and hash: dyadic coordinates, headings a multiple of 1/4
		auto dy = [&] { return Pose2d(g.range(-1, 1) / 2.0, g.range(-1, 1) / 2.0, g.range(-2, 2) / 4.0); };
		Pose2d u = dy(), v = dy();
		VI uc { vt::fx(u.x(), 4), vt::fx(u.y(), 4), vt::fx(u.theta, 4) }, vc { vt::fx(v.x(), 4), vt::fx(v.y(), 4), vt::fx(v.theta, 4) };
		vt::Line("eq").arr("u", uc).arr("v", vc).b("eq", u == v).b("ne", u != v).b("eqto", std::equal_to<Pose2d>()(u, v)).b("hash", std::hash<Pose2d>()(u) == std::hash<Pose2d>()(v))
			.b("peq", std::equal_to<Point2d>()(u.position, v.position)).b("phash", std::hash<Point2d>()(u.position) == std::hash<Point2d>()(v.position)).end();
		Pose2d kept;
		kept.position = raw.position;
		kept.theta = raw.WrapTheta();
		vt::Line("key").b("eqto", std::equal_to<Pose2d>()(raw, kept)).b("hash", std::hash<Pose2d>()(raw) == std::hash<Pose2d>()(kept)).end();
		Pose2i pi(g.range(-5, 5), g.range(-5, 5), g.range(-40, 40));
		int th0 = g.range(-40, 40);
		Pose2i pj(1, 2, th0);
		vt::Line("int").i("th", th0).i("made", pj.theta).i("wrapped", pj.WrapTheta()).end();
		int m1 = g.range(1, 40), x1 = g.range(-400, 400);
		vt::Line("mod").i("x", x1).i("m", m1).i("r", vt::fx(Maths::Modulo(x1 / 8.0, m1 / 8.0), 8)).b("exact", vt::exact(Maths::Modulo(x1 / 8.0, m1 / 8.0), 8)).end();
		// cells of a grid
		int rows = g.range(1, 6), cols = g.range(1, 6);
		GridCellPosition ca(g.range(-1, rows - 1), g.range(-1, cols - 1)), cb(g.range(0, rows - 1), g.range(0, cols - 1));
		VVI nb;
		for (auto& n : ca.GetNeighbors(rows, cols)) nb.push_back({ n.row, n.col });
		Grid<int> grid(rows, cols, 7);
		VVI nb2;
		for (auto& n : grid.GetNeighbors(ca)) nb2.push_back({ n.row, n.col });
		bool ok = ca.IsValid();
		vt::Line("cell").i("rows", rows).i("cols", cols).arr("a", VI { ca.row, ca.col }).arr("b", VI { cb.row, cb.col }).arr2("nb", nb).arr2("nb2", nb2).b("valid", ok)
			.b("adj", ok && ca.IsAdjacentTo(cb)).b("diag", ok && ca.IsDiagonalTo(cb)).b("eq", ca == cb).b("ne", ca != cb).b("hash", std::hash<GridCellPosition>()(ca) == std::hash<GridCellPosition>()(cb)).end();
	}
}
int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::watchdog(20);
		if (a.mode == "path") pathCase(g);
		else if (a.mode == "comp") compCase(g);
		else if (a.mode == "bike") bikeCase(g);
		else if (a.mode == "pose") poseCase(g);
		else return 3;
		vt::flush();
	}
	return vt::finish();
}
