// Conformance harness: Reeds-Shepp solver and paths.
// Modes: kin (path reaches the goal, kinematics), opt (words, optimality, cost).
#include "vt.h"
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_r2.h"
using namespace Planner;
using namespace ReedsShepp;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;
static const double U = 1e4; // one unit is 0.1 mm, 0.1 mrad

struct M { int steer, dir; double len; };
static int sgn(Steer s) { return s == Steer::Left ? 1 : s == Steer::Right ? -1 : 0; }
static int sgn(Direction d) { return d == Direction::Forward ? 1 : d == Direction::Backward ? -1 : 0; }

// exact motion of a car along one arc or segment, len normalised by the radius
static Pose2d advance(const Pose2d& p, const M& m, double R)
{
	double s = m.len * R * m.dir;
	if (m.steer == 0) return Pose2d(p.x() + s * cos(p.theta), p.y() + s * sin(p.theta), p.theta);
	double a = m.steer * m.dir * m.len;
	return Pose2d(p.x() + m.steer * R * (sin(p.theta + a) - sin(p.theta)), p.y() - m.steer * R * (cos(p.theta + a) - cos(p.theta)), p.theta + a);
}
static const char* base[12] = { "LfSfLf", "LfSfRf", "LfRbLf", "LfRbLb", "LfRfLb", "LfRufLubRb", "LfRubLubRf", "LfRbpSbLb", "LfRbpSbRb", "LfSfRfpLb", "LfSfLfpRb", "LfRbpSbLbpRf" };
// motions of word w (same numbering as the specification) with parameters t, u, v
static std::vector<M> wordMotions(int w, double t, double u, double v)
{
	std::string s = base[w / 4];
	std::vector<M> ms;
	for (size_t k = 0; k < s.size();) {
		M m;
		m.steer = s[k] == 'L' ? 1 : s[k] == 'R' ? -1 : 0; k++;
		bool uu = m.steer == 0, pp = false;
		if (s[k] == 'u') { uu = true; k++; }
		m.dir = s[k] == 'f' ? 1 : -1; k++;
		if (k < s.size() && s[k] == 'p') { pp = true; k++; }
		m.len = pp ? M_PI_2 : uu ? u : ms.empty() ? t : -1;
		ms.push_back(m);
	}
	if (ms.back().len < 0) ms.back().len = v;
	for (auto& m : ms) if (m.len < 0) m.len = u;
	for (auto& m : ms) { if (w % 4 & 1) m.dir = -m.dir; if (w % 4 & 2) m.steer = -m.steer; }
	return ms;
}
static VVI motions(const PathSegment& s)
{
	VVI r;
	for (int k = 0; k < s.GetNumMotions(); k++) { auto& m = s.GetMotion(k); r.push_back({ sgn(m.steer), sgn(m.direction), m.length > 0 ? std::max(1LL, vt::fx(m.length, U)) : vt::fx(m.length, U) }); }
	return r;
}
static VVI motions(const std::vector<M>& ms)
{
	VVI r;
	for (auto& m : ms) r.push_back({ m.steer, m.dir, vt::fx(m.len, U) });
	return r;
}
static VI pose(const Pose2d& p) { return { vt::fx(p.x(), U), vt::fx(p.y(), U), vt::fx(p.theta, U) }; }
static double cat(vt::Rng& g) { static const double k[] = { 0, M_PI_2, M_PI, -M_PI_2, -M_PI, M_PI / 4 }; return k[g.range(0, 5)]; }
static Pose2d randomPose(vt::Rng& g, double w)
{
	if (g.chance(1, 6)) return Pose2d(g.range(-3, 3), g.range(-3, 3), cat(g));
	return Pose2d(g.real(-w, w), g.real(-w, w), g.chance(1, 6) ? cat(g) : g.real(-M_PI, M_PI));
}
// a parameter which is a multiple of 1e-4 rad
static double par(vt::Rng& g, double hi) { return g.range(500, (int)(hi * U) - 500) / U; }
struct Cand { int w; double t, u, v; std::vector<M> ms; Pose2d goal; };
static Cand candidate(vt::Rng& g, const Pose2d& a, double R, bool nominal)
{
	Cand c;
	c.w = g.range(0, 47);
	int b = c.w / 4;
	double hi = g.chance(1, 2) ? M_PI : 1.2;
	c.t = par(g, hi); c.v = par(g, hi);
	c.u = b < 2 || b >= 7 ? par(g, g.chance(1, 2) ? 6 : 1.5) : b == 5 || b == 6 ? par(g, M_PI_2) : par(g, hi);
	if (!nominal && g.chance(1, 4)) { // degenerate: some parameters are null
		if (g.chance(1, 2)) c.t = 0;
		if (g.chance(1, 2)) c.v = 0;
		if (g.chance(1, 3)) c.u = 0;
	}
	c.ms = wordMotions(c.w, c.t, c.u, c.v);
	c.goal = a;
	for (auto& m : c.ms) c.goal = advance(c.goal, m, R);
	return c;
}

// cost of driving motions, times the radius
static double costOf(const std::vector<M>& ms, double R, double rv, double fw, double sw)
{
	double c = 0;
	for (size_t k = 0; k < ms.size(); k++) c += ms[k].len * R * (ms[k].dir > 0 ? fw : rv) + (k > 0 && ms[k].dir != ms[k - 1].dir ? sw : 0);
	return c;
}
// of n candidates, the one that the answer f fails to beat by the most
template <typename F> static Cand hardest(vt::Rng& g, const Pose2d& a, double R, bool nominal, int n, F f)
{
	Cand best;
	double gap = 0;
	for (int k = 0; k < n; k++) {
		Cand c = candidate(g, a, R, nominal);
		double e = f(c);
		if (k == 0 || !(e <= gap)) { best = c; gap = e; }
	}
	return best;
}

static void record(const char* kind, const Pose2d& a, const Pose2d& b, double R, const PathSegment& seg, const PathReedsShepp& path, double dist)
{
	// samples: boundaries of the motions, refined so that a step turns less than 0.25 rad
	VVI st;
	double L = path.GetLength(), at = 0;
	auto th = [](const Pose2d& p) { return vt::fx(p.theta, U); };
	for (int k = 0; L > 0 && k < seg.GetNumMotions(); k++) {
		double len = seg.GetMotion(k).length;
		if (!(len > 1e-7) || len > 100) continue;
		int n = std::max(1, (int)std::ceil(len / 0.25));
		for (int i = 0; i < n; i++) {
			double r0 = (at + len * i / n) * R / L, rm = (at + len * (i + 0.5) / n) * R / L, r1 = (at + len * (i + 1) / n) * R / L;
			auto cl = [](double r) { return std::min(1.0, std::max(0.0, r)); };
			Pose2d p0 = path.Interpolate(cl(r0)), pm = path.Interpolate(cl(rm)), p1 = path.Interpolate(cl(r1));
			st.push_back({ k + 1, vt::fx(len / n, U), vt::fx(p0.x(), U), vt::fx(p0.y(), U), th(p0), th(pm), vt::fx(cos(pm.theta), U), vt::fx(sin(pm.theta), U),
				vt::fx(p1.x(), U), vt::fx(p1.y(), U), th(p1), sgn(path.GetDirection(cl(rm))) });
		}
		at += len;
	}
	std::vector<long long> cusps;
	for (double c : path.GetCuspPointRatios()) cusps.push_back(vt::fx(c, U));
	vt::Line(kind).i("R", vt::fx(R, U)).arr("s", pose(a)).arr("g", pose(b)).arr2("mot", motions(seg)).i("len", vt::fx(path.GetLength(), U))
		.i("slen", vt::fx(seg.GetLength(R), U)).i("dist", vt::fx(dist, U)).arr("init", pose(path.GetInitialState())).arr("fin", pose(path.GetFinalState()))
		.arr("at0", pose(path.Interpolate(0.0))).arr("at1", pose(path.Interpolate(1.0))).arr2("st", st).arr("cusps", cusps).end();
}
static void kin(vt::Rng& g)
{
	vt::Line("case").end();
	for (int q = 0; q < 6; q++) {
		double R = g.chance(1, 2) ? g.range(300, 4000) / 1000.0 : 1.0;
		Pose2d a = randomPose(g, 8);
		float rv = g.range(1, 32) / 8.0f, fw = g.range(1, 32) / 8.0f, sw = g.range(0, 24) / 8.0f;
		// of several goals, the one which the paths miss by the most
		auto miss = [&](const Pose2d& x, const PathSegment& seg) {
			Pose2d p = a;
			for (int k = 0; k < seg.GetNumMotions(); k++) { auto& m = seg.GetMotion(k); p = advance(p, { sgn(m.steer), sgn(m.direction), m.length }, R); }
			return (p.position - x.position).norm() + std::abs(std::remainder(p.theta - x.theta, 2 * M_PI));
		};
		Pose2d b;
		double worst = 0;
		for (int k = 0, n = g.chance(1, 3) ? 1 : 40; k < n; k++) {
			Pose2d x = g.chance(1, 2) ? randomPose(g, g.chance(1, 2) ? 8 : 2 * R) : candidate(g, a, R, false).goal;
			if (g.chance(1, 20)) x = a;
			double e = n == 1 ? 0 : std::max(miss(x, Solver::GetShortestPath(a, x, R)), miss(x, Solver::GetOptimalPath(a, x, R, rv, fw, sw)));
			if (k == 0 || !(e <= worst)) { b = x; worst = e; }
		}
		{
			PathWords w;
			auto seg = Solver::GetShortestPath(a, b, R, &w);
			record("short", a, b, R, seg, PathReedsShepp(a, seg, R), Solver::GetShortestDistance(a, b, R));
		}
		{
			auto seg = Solver::GetOptimalPath(a, b, R, rv, fw, sw);
			record("opt", a, b, R, seg, PathReedsShepp(a, seg, R), Solver::GetShortestDistance(a, b, R));
			PathConnectionReedsShepp conn(R, sw, rv, fw);
			auto p = conn.Connect(a, b);
			vt::Line("conn").arr("s", pose(a)).arr("g", pose(b)).arr("init", pose(p->GetInitialState())).arr("fin", pose(p->GetFinalState()))
				.arr("at0", pose(p->Interpolate(0.0))).arr("at1", pose(p->Interpolate(1.0))).i("len", vt::fx(p->GetLength(), U)).i("olen", vt::fx(seg.GetLength(R), U)).end();
		}
	}
}
static void opt(vt::Rng& g, bool lattice)
{
	vt::Line("case").end();
	if (lattice) {
		// every pose with coordinates in {-3..3} radii and heading a multiple of a quarter turn
		double R = g.chance(1, 2) ? 1.0 : g.real(0.5, 4);
		Pose2d o(g.real(-5, 5), g.real(-5, 5), g.real(-M_PI, M_PI));
		for (int x = -3; x <= 3; x++) {
			VVI d;
			for (int y = -3; y <= 3; y++)
				for (int k = 0; k < 4; k++) d.push_back({ y, k, vt::fx(Solver::GetShortestDistance(o, o + Pose2d(x * R, y * R, k * M_PI_2), R), U) });
			vt::Line("lattice").i("x", x).arr2("d", d).end();
		}
		return;
	}
	for (int q = 0; q < 8; q++) {
		double R = g.chance(1, 2) ? g.range(300, 4000) / 1000.0 : 1.0;
		Pose2d a = randomPose(g, 8);
		{
			Cand c = hardest(g, a, R, false, g.chance(1, 3) ? 1 : 60, [&](const Cand& x) { return Solver::GetShortestDistance(a, x.goal, R) - costOf(x.ms, 1, 1, 1, 0); });
			PathWords w = PathWords::NoPath;
			auto seg = Solver::GetShortestPath(a, c.goal, R, &w);
			PathWords w2 = PathWords::NoPath;
			std::tuple<double, double, double> tuv;
			double d = Solver::GetShortestDistance(a, c.goal, R, &w2, &tuv);
			Pose2d m = randomPose(g, 8);
			vt::Line("cand").i("w", c.w).arr("p", VI { vt::fx(c.t, U), vt::fx(c.u, U), vt::fx(c.v, U) }).arr2("mot", motions(c.ms))
				.i("dist", vt::fx(d, U)).i("back", vt::fx(Solver::GetShortestDistance(c.goal, a, R), U))
				.i("word", (int)w).i("word2", (int)w2).arr("wp", VI { vt::fx(std::get<0>(tuv), U), vt::fx(std::get<1>(tuv), U), vt::fx(std::get<2>(tuv), U) })
				.b("valid", IsPathWordValid(w)).arr2("path", motions(seg)).i("plen", vt::fx(seg.GetLength(1.0), U))
				.i("leg1", vt::fx(Solver::GetShortestDistance(a, m, R), U)).i("leg2", vt::fx(Solver::GetShortestDistance(m, c.goal, R), U))
				.i("scaled", vt::fx(Solver::GetShortestDistance(Pose2d(2 * a.x(), 2 * a.y(), a.theta), Pose2d(2 * c.goal.x(), 2 * c.goal.y(), c.goal.theta), 2 * R), U))
				.i("euclid", vt::fx((c.goal.position - a.position).norm() / R, U)).i("turn", vt::fx(std::abs((c.goal - a).theta), U)).end();
		}
		{
			int rv = g.chance(1, 4) ? 8 : g.range(1, 32), fw = g.chance(1, 3) ? 8 : g.range(1, 32), sw = g.chance(1, 3) ? 0 : g.chance(1, 4) ? 24 : g.range(0, 24);
			if (g.chance(1, 4)) (g.chance(1, 2) ? rv : fw) = g.chance(1, 2) ? 1 : 32;
			Cand c = hardest(g, a, R, true, g.chance(1, 3) ? 1 : 60, [&](const Cand& x) {
				return Solver::GetOptimalPath(a, x.goal, R, rv / 8.0f, fw / 8.0f, sw / 8.0f).ComputeCost(R, rv / 8.0f, fw / 8.0f, sw / 8.0f) - costOf(x.ms, R, rv / 8.0, fw / 8.0, sw / 8.0);
			});
			PathWords w = PathWords::NoPath;
			auto seg = Solver::GetOptimalPath(a, c.goal, R, rv / 8.0f, fw / 8.0f, sw / 8.0f, &w);
			PathReedsShepp path(a, seg, R);
			auto sh = Solver::GetShortestPath(a, c.goal, R);
			auto scale = [&](VVI v) { for (auto& m : v) m[2] = 0; return v; };
			(void)scale;
			auto real = [&](auto& ms) { VI r; for (auto& m : ms) r.push_back(vt::fx(m * R, U)); return r; };
			std::vector<double> cl, pl;
			for (auto& m : c.ms) cl.push_back(m.len);
			for (int k = 0; k < seg.GetNumMotions(); k++) pl.push_back(seg.GetMotion(k).length);
			vt::Line("cost").i("w", c.w).arr("p", VI { vt::fx(c.t, U), vt::fx(c.u, U), vt::fx(c.v, U) }).arr2("mot", motions(c.ms)).arr("cl", real(cl)).i("R", vt::fx(R, U))
				.i("rv", rv).i("fw", fw).i("sw", sw).i("word", (int)w).arr2("path", motions(seg)).arr("pl", real(pl))
				.i("cost", vt::fx(seg.ComputeCost(R, rv / 8.0f, fw / 8.0f, sw / 8.0f), U)).i("pcost", vt::fx(path.ComputeCost(sw / 8.0, rv / 8.0, fw / 8.0), U))
				.i("scost", vt::fx(sh.ComputeCost(R, rv / 8.0f, fw / 8.0f, sw / 8.0f), U)).end();
		}
	}
}
int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::watchdog(20);
		if (a.mode == "kin") kin(g);
		else opt(g, c % 40 == 7);
		vt::flush();
	}
	return vt::finish();
}
