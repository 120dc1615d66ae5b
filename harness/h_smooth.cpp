// Conformance harness: the smoother (mode smooth).
#include "vt.h"
#include "core/base.h"
#include "algo/smoother.h"
#include "state_space/state_space_se2.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace Planner;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;
const double P = 1e5, D = 1e4;

struct World {
	Ref<StateSpaceSE2> space;
	Ref<ObstacleListOccupancyMap> map;
	Ref<StateValidatorOccupancyMap> validator;
	Ref<GVD> gvd;
	std::vector<Ref<Obstacle>> on;
	double half;
};

// the poses, and the surroundings of each: what the terms of the next step depend on
static void log(const char* e, int k, const std::vector<Pose2d>& p, World& w, double step)
{
	VVI pos, seg, obs, vor;
	const int n = (int)p.size();
	for (int i = 0; i < n; i++) {
		const Point2d& c = p[i].position;
		pos.push_back({ vt::fx(c.x(), P), vt::fx(c.y(), P), vt::fx(p[i].theta, P) });
		VI o { 0, 0, 0, 0 }, v { 0, 0, 0, 0 }; // known, distance, direction
		if (std::isfinite(c.x()) && std::isfinite(c.y()) && w.map->IsInsideMap(c)) {
			auto cell = w.map->WorldPositionToGridCell(c);
			auto put = [&](const GridCellPosition& at, VI& to) {
				if (at.row < 0) return;
				Point2d d = c - w.map->GridCellToWorldPosition(at);
				to = { 1, vt::fx(d.norm(), D), vt::fx(d.x() / d.norm(), 1000), vt::fx(d.y() / d.norm(), 1000) };
			};
			put(w.gvd->GetNearestObstacleCell(cell), o);
			put(w.gvd->GetNearestVoronoiEdgeCell(cell), v);
		}
		obs.push_back(o);
		vor.push_back(v);
		// the segment to here, its direction and the turn (left positive) at its end
		VI s { 0, 0, 0, 0 };
		if (i > 0) {
			Point2d a = c - p[i - 1].position, b = i + 1 < n ? Point2d(p[i + 1].position - c) : a;
			s = { vt::fx(a.norm(), D), vt::fx(a.x() / a.norm(), 1000), vt::fx(a.y() / a.norm(), 1000), vt::fx(std::atan2(a.x() * b.y() - a.y() * b.x(), a.dot(b)), D) };
		}
		seg.push_back(s);
	}
	vt::Line(e).i("k", k).i("step", vt::fx(step, D)).arr2("pos", pos).arr2("seg", seg).arr2("obs", obs).arr2("vor", vor).end();
}
static double change(const std::vector<Pose2d>& a, const std::vector<Pose2d>& b)
{
	double m = 0;
	for (size_t i = 0; i < a.size() && i < b.size(); i++) {
		double d = (a[i].position - b[i].position).norm();
		if (!(d <= m)) m = d;
	}
	return m;
}

static void obstacles(vt::Rng& g, World& w)
{
	int no = g.range(0, 4);
	for (int i = 0; i < no; i++) {
		auto o = makeRef<Obstacle>();
		o->SetShape(makeRef<RectangleShape>(g.real(0.2, 1.5), g.real(0.2, 1.5)));
		o->SetPose(Pose2d(g.real(-w.half, w.half), g.real(-w.half, w.half), g.real(-1.5, 1.5)));
		w.map->AddObstacle(o);
		w.on.push_back(o);
	}
	w.map->Update();
	w.gvd->Update();
}
static World world(vt::Rng& g)
{
	World w;
	w.half = g.real(3.0, 9.0);
	double res = g.pick(std::vector<double> { 0.1, 0.25, 0.5 });
	if (res < 0.2 && w.half > 5) res = 0.25;
	w.space = makeRef<StateSpaceSE2>(Pose2d(-w.half, -w.half, -M_PI), Pose2d(w.half, w.half, M_PI));
	w.map = makeRef<ObstacleListOccupancyMap>((float)res);
	w.validator = makeRef<StateValidatorOccupancyMap>(w.space, w.map);
	w.validator->minSafeRadius = g.pick(std::vector<float> { 0.0f, 0.25f, 0.5f, 1.0f });
	w.gvd = makeRef<GVD>(w.map);
	obstacles(g, w);
	return w;
}

static void smoothCase(vt::Rng& g)
{
	World w = world(g);

	float kmax = (float)(g.range(1, 20) / 16.0);
	Smoother sm;
	if (g.chance(1, 6)) {
		std::vector<Pose2d> p(g.range(0, 7), Pose2d(0.1, 0.2, 0.3));
		int st = sm.Smooth(p);
		bool i1 = sm.Initialize(nullptr, w.gvd, kmax), i2 = sm.Initialize(w.validator, nullptr, kmax);
		vt::Line("early").i("st", st).b("ok", i1 || i2).i("st2", sm.Smooth(p)).end();
	}
	if (g.chance(1, 6)) { // used in another world before
		World other = world(g);
		sm.Initialize(other.validator, other.gvd, kmax / 2);
		std::vector<Pose2d> p;
		for (int i = 0; i < 8; i++) p.push_back(Pose2d(0.3 * i, 0.1 * (i % 3), 0.0));
		sm.Smooth(p, { 3 });
	}
	bool init = sm.Initialize(w.validator, w.gvd, kmax);
	auto par = sm.GetParameters();
	auto weight = [&] { return g.chance(1, 3) ? 0 : g.range(1, 50); };
	bool known = par.maxCurvature == kmax;
	int lr = g.range(5, 100), wp = weight(), ws = weight(), wv = weight(), wc = weight(), wk = weight(), cr = g.range(0, 20);
	if (g.chance(1, 4)) wp = ws = wv = wc = 0;
	par.learningRate = (float)(lr / 1000.0);
	par.pathWeight = (float)(wp / 100.0);
	par.smoothWeight = (float)(ws / 100.0);
	par.voronoiWeight = (float)(wv / 100.0);
	par.collisionWeight = (float)(wc / 100.0);
	par.curvatureWeight = (float)(wk / 100.0);
	par.collisionRatio = (float)(cr / 16.0);
	if (g.chance(1, 8)) { // initialised once more for another curvature
		kmax = (float)(g.range(1, 20) / 16.0);
		sm.Initialize(w.validator, w.gvd, kmax);
		known = known && sm.GetParameters().maxCurvature == kmax;
		par.maxCurvature = kmax;
	}

	for (int q = 0, nq = g.range(1, 2); q < nq; q++) {
		if (q && g.chance(1, 2)) { // the obstacles have changed since
			for (auto& o : w.on)
				if (g.chance(1, 2)) w.map->RemoveObstacle(o);
			w.on.clear();
			obstacles(g, w);
		}
		int n = g.chance(1, 5) ? g.range(0, 5) : g.chance(1, 25) ? g.range(20, 45) : g.range(5, 16);
		std::vector<Pose2d> path;
		double heading = g.real(-3.1, 3.1), seg = g.real(0.25, 0.9), turn = g.pick(std::vector<double> { 0.0, 0.1, 0.4, 1.0 }), noise = g.pick(std::vector<double> { 0.0, 0.02, 0.1 });
		Pose2d at(g.real(-w.half, w.half) * 0.7, g.real(-w.half, w.half) * 0.7, heading);
		bool calm = g.chance(2, 3); // keep to the free space
		for (int i = 0; i < n; i++) {
			Pose2d next = at;
			for (int t = 0; t < 12; t++) {
				double h = heading + g.real(-turn, turn) + (t > 4 ? g.real(-2, 2) : 0);
				next = Pose2d(at.x() + seg * std::cos(h) + g.real(-noise, noise), at.y() + seg * std::sin(h) + g.real(-noise, noise), h);
				if (!calm || w.validator->IsStateValid(next)) { heading = h; break; }
			}
			next.theta = std::remainder(next.theta, 2 * M_PI);
			path.push_back(next);
			at = next;
			if (g.chance(1, 15)) heading += M_PI - g.real(-0.2, 0.2);
		}
		std::unordered_set<int> cusps;
		int nc = g.chance(1, 3) ? 0 : g.range(0, 3);
		for (int i = 0; i < nc && n > 0; i++) cusps.insert(g.range(0, n - 1));
		if (g.chance(1, 3)) { cusps.insert(0); cusps.insert(n - 1); }
		VI cv(cusps.begin(), cusps.end());
		vt::Line("case").i("n", n).b("init", init && known).i("lr", lr).i("wp", wp).i("ws", ws).i("wv", wv).i("wc", wc).i("wk", wk)
			.i("kmax", vt::fx(kmax, D)).i("r", vt::fx(w.validator->minSafeRadius * (1 + par.collisionRatio), D)).i("alpha", vt::fx(w.gvd->alpha, D)).i("dmax", vt::fx(w.gvd->dMax, D))
			.arr("cusps", cv).end();
		log("start", 0, path, w, 0);
		int K = g.range(1, 5);
		std::vector<Pose2d> last = path;
		std::vector<double> steps;
		for (int k = 0; k <= K; k++) {
			par.maxIterations = k;
			par.stepTolerance = 0.0f;
			sm.SetParameters(par);
			int st = sm.Smooth(path, cusps);
			auto now = sm.GetPath();
			double step = change(last, now) / par.learningRate;
			if (k > 0) steps.push_back(step);
			bool valid = true;
			for (auto& p : now) valid = valid && w.validator->IsStateValid(p);
			vt::Line("ran").i("st", st).b("valid", valid).i("max", k).i("tol", 0).i("it", k).end();
			log("iter", k, now, w, step);
			last = now;
		}
		// with a tolerance: the run ends at one of the iterates
		for (int t = 0; t < 2; t++) {
			par.maxIterations = g.range(0, K);
			double tol = g.chance(1, 4) ? g.real(0, 2) : g.pick(steps) * g.pick(std::vector<double> { 0.9, 1.1 });
			if (!std::isfinite(tol) || tol > 1e4) tol = 1e4;
			par.stepTolerance = (float)tol;
			sm.SetParameters(par);
			int st = sm.Smooth(path, cusps);
			auto now = sm.GetPath();
			bool valid = true;
			for (auto& p : now) valid = valid && w.validator->IsStateValid(p);
			// which iterate is it
			VI same;
			for (int k = 0; k <= K; k++) {
				par.maxIterations = k;
				par.stepTolerance = 0.0f;
				Smoother fresh;
				fresh.Initialize(w.validator, w.gvd, kmax);
				fresh.SetParameters(par);
				fresh.Smooth(path, cusps);
				auto& f = fresh.GetPath();
				bool eq = f.size() == now.size();
				for (size_t i = 0; eq && i < f.size(); i++)
					eq = f[i].x() == now[i].x() && f[i].y() == now[i].y() && f[i].theta == now[i].theta;
				if (eq) same.push_back(k);
			}
			par.maxIterations = (int)0;
			auto used = sm.GetParameters();
			vt::Line("stop").i("st", st).b("valid", valid).i("max", used.maxIterations).i("tol", vt::fx(tol, D)).arr("same", same).i("len", (long long)now.size()).end();
		}
	}
}

int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::watchdog(60);
		smoothCase(g);
	}
	return vt::finish();
}
