// Conformance harness: Hybrid A* (mode search).
#include "vt.h"
#include "core/base.h"
#include "algo/hybrid_a_star.h"
#include "algo/heuristics.h"
#include "algo/smoother.h"
#include "geometry/reeds_shepp.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_composite.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "state_space/state_space_se2.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include <map>
#include <tuple>
#include <unordered_map>
using namespace Planner;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;
using PathRef = Ref<PathNonHolonomicSE2Base>;
const double F = 1e4;

struct Combined : AStarCombinedHeuristic<Pose2d> {
	void Goal(const Pose2d& p) { this->SetGoal(p); }
};
static VI pose(const Pose2d& p) { return { vt::fx(p.x(), F), vt::fx(p.y(), F), vt::fx(p.theta, F) }; }
using Key = std::tuple<double, double, double>;
static Key key(const Pose2d& p) { return { p.x(), p.y(), p.theta }; }

struct World {
	Ref<StateSpaceSE2> space;
	Ref<ObstacleListOccupancyMap> map;
	Ref<StateValidatorOccupancyMap> validator;
	std::vector<Ref<Obstacle>> on;
	double half, res;
};
static void obstacles(vt::Rng& g, World& w)
{
	int n = g.range(0, 5);
	for (int i = 0; i < n; i++) {
		if (!w.on.empty() && g.chance(1, 3)) {
			int j = g.range(0, (int)w.on.size() - 1);
			w.map->RemoveObstacle(w.on[j]);
			w.on.erase(w.on.begin() + j);
			continue;
		}
		auto o = makeRef<Obstacle>();
		o->SetShape(makeRef<RectangleShape>(g.real(0.3, w.half), g.chance(1, 2) ? 0.3 : g.real(0.3, w.half)));
		o->SetPose(Pose2d(g.real(-w.half, w.half), g.real(-w.half, w.half), g.chance(1, 2) ? 0.0 : g.real(-1.5, 1.5)));
		w.map->AddObstacle(o);
		w.on.push_back(o);
	}
}
// the directions driven along a path: lengths forward and backward, changes, first and last
struct Drive {
	double fwd = 0, bwd = 0;
	int changes = 0;
	long long first = 0, last = 0;
};
static Drive drive(const PathNonHolonomicSE2Base& p)
{
	Drive d;
	auto cusps = p.GetCuspPointRatios();
	std::vector<double> at { 0.0 };
	for (double c : cusps)
		if (c > 1e-9 && c < 1 - 1e-9) at.push_back(c);
	at.push_back(1.0);
	for (size_t i = 1; i < at.size(); i++) {
		auto dir = p.GetDirection((at[i - 1] + at[i]) / 2);
		double len = (at[i] - at[i - 1]) * p.GetLength();
		long long s = dir == Direction::Forward ? 1 : dir == Direction::Backward ? -1 : 0;
		if (len < 1e-9) continue;
		(s > 0 ? d.fwd : d.bwd) += len;
		if (d.last && s != d.last) d.changes++;
		if (!d.first) d.first = s;
		d.last = s;
	}
	return d;
}

// the path up to a ratio: a truncated path may end a rounding step too far
struct Shortened : PathSE2Base {
	const PathSE2Base& p;
	double to;
	Shortened(const PathSE2Base& p, double to) : PathSE2Base(p.GetInitialState(), p.GetLength() * to), p(p), to(to) { m_final = p.Interpolate(to); }
	Pose2d Interpolate(double r) const override { return p.Interpolate(r * to); }
	void Truncate(double) override { }
};

static World world(vt::Rng& g)
{
	World w;
	w.half = g.real(2.5, 5.0);
	w.res = g.pick(std::vector<double> { 0.25, 0.5 });
	w.space = makeRef<StateSpaceSE2>(Pose2d(-w.half, -w.half, -M_PI), Pose2d(w.half, w.half, M_PI));
	w.map = makeRef<ObstacleListOccupancyMap>((float)w.res);
	w.validator = makeRef<StateValidatorOccupancyMap>(w.space, w.map);
	w.validator->minSafeRadius = g.pick(std::vector<float> { 0.0f, 0.3f, 0.6f });
	w.validator->minPathInterpolationDistance = g.pick(std::vector<float> { 0.1f, 0.2f });
	return w;
}

static void searchCase(vt::Rng& g)
{
	World w = world(g);
	int rv = g.range(2, 8), fw = g.range(2, 8), sw = g.chance(1, 3) ? 0 : g.range(1, 8), vo = g.chance(1, 3) ? 0 : g.range(1, 8);
	unsigned motions = g.pick(std::vector<unsigned> { 3, 5, 5, 7, 9 });
	double sr = g.pick(std::vector<double> { 0.75, 1.0, 1.25 }), ar = 2 * M_PI / g.range(6, 12), R = g.real(0.8, 2.5);
	HybridAStar::SearchParameters par(R, sw / 4.0, rv / 4.0, fw / 4.0, vo / 4.0, motions, sr, ar);
	HybridAStar algo(par);
	algo.pathInterpolation = g.pick(std::vector<float> { 0.1f, 0.25f });
	bool early = g.chance(1, 8);
	if (early) { // not initialised yet
		algo.SetInitState(Pose2d(0.0, 0.0, 0.0));
		algo.SetGoalState(Pose2d(1.0, 0.0, 0.0));
		vt::Line("early").b("ok", algo.SearchPath() == Status::Success).i("n", algo.GetPath().size()).b("init", algo.Initialize(nullptr)).end();
	}
	bool init = algo.Initialize(w.validator);
	bool plain = g.chance(1, 2);
	int rounds = plain ? 0 : g.range(5, 60);
	float slower = g.pick(std::vector<float> { 1.0f, 1.0f, 0.5f });
	auto tune = [&](auto& s) {
		auto q = s.GetParameters();
		q.maxIterations = rounds;
		q.learningRate *= slower;
		s.SetParameters(q);
	};
	auto adjust = [&] {
		auto q = algo.GetSmootherParameters();
		q.maxIterations = rounds;
		q.learningRate *= slower;
		algo.SetSmootherParameters(q);
	};
	adjust();
	vt::Line("case").i("rv", rv).i("fw", fw).i("sw", sw).i("vo", vo).i("R", vt::fx(R, F)).i("interp", vt::fx(algo.pathInterpolation, F)).b("plain", plain).b("init", init).end();

	// oracles of the parts, decided by other properties
	auto model = makeRef<KinematicBicycleModel>(par.wheelbase, 0.0);
	double top = model->GetSteeringAngleFromTurningRadius(R);
	std::vector<double> steer { 0.0 };
	for (unsigned i = 1; i <= motions / 2; i++)
		for (int s : { 1, -1 }) steer.push_back(s * top * i / (motions / 2));
	Ref<NonHolonomicHeuristic> holo;
	Ref<ObstaclesHeuristic> obst;
	std::unique_ptr<Combined> both;
	auto oracles = [&] {
		holo = NonHolonomicHeuristic::Build(w.space->bounds, sr, ar, R, rv / 4.0, fw / 4.0, sw / 4.0);
		obst = makeRef<ObstaclesHeuristic>(w.map, rv / 4.0, fw / 4.0);
		both = std::make_unique<Combined>();
		both->Add(holo, obst);
	};
	oracles();

	int searches = g.range(1, 3);
	for (int k = 0; k < searches; k++) {
		if (k && g.chance(1, 3)) { // initialised again, often for another world
			if (g.chance(1, 3)) { // refused in between: a search fails, wherever the last one led
				bool init = algo.Initialize(nullptr);
				vt::Line("early").b("ok", algo.SearchPath() == Status::Success).i("n", algo.GetPath().size()).b("init", init).end();
			}
			if (g.chance(3, 4)) w = world(g);
			vt::Line("again").b("init", algo.Initialize(w.validator)).end();
			adjust(); // initialising sets the defaults
			oracles();
		}
		Combined& heur = *both;
		obstacles(g, w);
		w.map->Update();
		auto draw = [&] {
			Pose2d p(g.real(-w.half, w.half), g.real(-w.half, w.half), g.real(-3.14, 3.14));
			for (int i = 0; i < 20 && !w.validator->IsStateValid(p); i++)
				p = Pose2d(g.real(-w.half, w.half) * 0.95, g.real(-w.half, w.half) * 0.95, g.real(-3.14, 3.14));
			if (g.chance(1, 6)) p.theta = g.pick(std::vector<double> { M_PI, -M_PI, 0.0, M_PI / 2 });
			return p;
		};
		Pose2d start = draw(), goal = draw();
		if (k && g.chance(1, 4)) goal = algo.GetGoalState(); // once more, past other obstacles
		if (k && g.chance(1, 6)) start = algo.GetInitState();
		if (g.chance(1, 12)) goal = start;
		else if (g.chance(1, 8)) goal = start + Pose2d(g.real(-1, 1), 0.0, 0.0);
		algo.SetInitState(start);
		algo.SetGoalState(goal);
		vt::Line("search").arr("s", pose(start)).arr("t", pose(goal)).end();
		vt::flush();
		auto status = algo.SearchPath();
		auto stats = algo.GetStats();

		GVD gvd(w.map);
		gvd.Update();
		obst->Update(goal);
		heur.Goal(goal);
		auto voronoi = [&](const PathNonHolonomicSE2Base& p) {
			double sum = 0, step = (float)(gvd.resolution * std::sqrt(2.0));
			for (double len = 0; len < p.GetLength(); len += step) {
				float c;
				if (gvd.GetPathCost(p.Interpolate(len / p.GetLength()).position, c)) sum += c;
			}
			return sum * step;
		};
		std::map<std::tuple<int, int, int>, int> cells;
		auto cell = [&](const Pose2d& p) {
			double t = p.theta;
			std::tuple<int, int, int> c { (int)std::floor(p.x() / sr), (int)std::floor(p.y() / sr), (int)std::floor(t / ar) };
			return cells.emplace(c, (int)cells.size() + 1).first->second;
		};
		// the tree: every path starts where another one ends, or at the start
		auto set = algo.GetGraphSearchExploredPathSet();
		std::unordered_map<PathNonHolonomicSE2Base*, int> id;
		size_t placed = 0;
		int next = 1;
		auto emit = [&](int n, const VI& parents, const PathRef& p, const Pose2d& at) {
			vt::Line ln("node");
			ln.i("id", n).arr("par", parents).arr("at", pose(at)).i("cell", cell(at));
			ln.b("goal", (at.position - goal.position).norm() < 1e-3 && std::abs((at - goal).theta) < 1.7e-5);
			double h = heur.GetHeuristicValue(at);
			ln.i("h", vt::fx(h, F));
			if (p) {
				Drive d = drive(*p);
				bool rs = dynamic_cast<PathReedsShepp*>(p.get()) != nullptr;
				double turn = std::abs((at - p->GetInitialState()).theta), most = 0;
				Pose2d q = p->GetInitialState();
				// largest curvature over steps of a fiftieth
				for (int i = 1; i <= 50 && !rs; i++) {
					Pose2d r = p->Interpolate(i / 50.0);
					if (p->GetLength() > 1e-6) most = std::max(most, std::abs((r - q).theta) / (p->GetLength() / 50));
					q = r;
				}
				ln.arr("drive", VI { vt::fx(d.fwd, F), vt::fx(d.bwd, F), d.changes, d.first, d.last }).i("vor", vt::fx(voronoi(*p), F)).b("rs", rs);
				ln.i("curv", vt::fx(most * R, F)).b("valid", w.validator->IsPathValid(*p) || w.validator->IsPathValid(Shortened(*p, 1 - 1e-6))).i("len", vt::fx(p->GetLength(), F));
			}
			// what the node leads to
			VI kids;
			for (double delta : steer)
				for (auto dir : { Direction::Forward, Direction::Backward }) {
					PathConstantSteer c(model, at, delta, sr * 1.5, dir);
					float last;
					bool whole = w.validator->IsPathValid(c, &last);
					if (!whole) c.Truncate(last);
					int to = cell(c.GetFinalState());
					if (whole || to != cell(at)) kids.push_back(to);
				}
			ln.arr("kids", kids);
			auto seg = ReedsShepp::Solver::GetOptimalPath(at, goal, R, rv / 4.0, fw / 4.0, sw / 4.0);
			PathReedsShepp shot(at, seg, R);
			bool can = h < 10.0 - 1e-3 && w.validator->IsPathValid(shot);
			Drive d = drive(shot);
			ln.b("can", can).arr("shot", VI { vt::fx(d.fwd, F), vt::fx(d.bwd, F), d.changes, d.first, d.last }).i("svor", vt::fx(voronoi(shot), F));
			ln.end();
		};
		emit(next++, VI {}, nullptr, start);
		// a state may have been reached twice (the costlier node is a dead end): a path
		// is recorded after all those that end where it starts
		std::map<Key, int> open;
		std::map<Key, VI> ends;
		ends[key(start)].push_back(1);
		for (auto& p : set) open[key(p->GetFinalState())]++;
		std::vector<PathRef> rest(set.begin(), set.end());
		std::sort(rest.begin(), rest.end(), [](const PathRef& x, const PathRef& y) { return std::make_tuple(key(x->GetInitialState()), key(x->GetFinalState()), x->GetLength()) < std::make_tuple(key(y->GetInitialState()), key(y->GetFinalState()), y->GetLength()); });
		for (bool more = true; more;) {
			more = false;
			std::vector<PathRef> later;
			for (auto& p : rest) {
				Key k = key(p->GetInitialState());
				if (open[k] > 0 || ends[k].empty()) { later.push_back(p); continue; }
				more = true;
				placed++;
				id[p.get()] = next;
				emit(next, ends[k], p, p->GetFinalState());
				Key f = key(p->GetFinalState());
				ends[f].push_back(next++);
				open[f]--;
			}
			rest = std::move(later);
		}
		VI path;
		for (auto& p : algo.GetGraphSearchPath()) path.push_back(id.count(p.get()) ? id[p.get()] : 0);
		double cost = algo.GetGraphSearchOptimalCost();
		vt::Line("result").b("ok", status == Status::Success).b("graph", stats.graphSearchStatus == Status::Success).i("lost", set.size() - placed)
			.i("cost", std::isfinite(cost) ? vt::fx(cost, F) : -1).arr("path", path).end();

		// the path handed to the user
		auto poses = algo.GetPath();
		VVI out, cusp;
		VI ok, gap, on;
		PathSE2CompositeNonHolonomic whole;
		for (auto& p : algo.GetGraphSearchPath()) whole.PushBack(p);
		if (status == Status::Success && whole.GetLength() > 0)
			for (double r : whole.GetCuspPointRatios()) cusp.push_back(pose(whole.Interpolate(r)));
		for (size_t i = 0; i < poses.size(); i++) {
			out.push_back(pose(poses[i]));
			ok.push_back(w.validator->IsStateValid(poses[i]));
			if (i) gap.push_back(vt::fx((poses[i].position - poses[i - 1].position).norm(), F));
			double away = 1e9;
			if (plain && whole.GetLength() > 0)
				for (int r = 0; r <= 2000; r++) away = std::min(away, (whole.Interpolate(r / 2000.0).position - poses[i].position).norm());
			on.push_back(vt::fx(std::min(away, 1e4), F));
		}
		// what the smoother (decided by another property) makes of the sampled path
		int exp = w.validator->IsStateValid(start) ? Smoother::Status::PathSize : Smoother::Status::Failure;
		double dev = 0, moved = 0;
		if (status == Status::Success && !algo.GetGraphSearchPath().empty()) {
			const double len = whole.GetLength(), step = algo.pathInterpolation;
			auto stops = whole.GetCuspPointRatios();
			stops.insert(0.0);
			stops.insert(1.0);
			std::vector<Pose2d> sampled;
			std::unordered_set<int> at;
			for (auto it = stops.begin(); it != stops.end(); it++) {
				at.insert((int)sampled.size());
				sampled.push_back(whole.Interpolate(*it));
				if (std::next(it) == stops.end()) break;
				for (double x = *it * len + step; x < *std::next(it) * len - step / 2; x += step) sampled.push_back(whole.Interpolate(x / len));
			}
			Smoother own;
			auto mine = makeRef<GVD>(w.map);
			mine->Update();
			own.Initialize(w.validator, mine, (float)(1.0 / R));
			tune(own);
			exp = own.Smooth(sampled, at);
			const auto& want = exp < 0 ? sampled : own.GetPath();
			// a cusp half a step after a sample: rounding decides whether there is one more
			if (want.size() != poses.size()) moved = 1e4;
			for (size_t i = 0; i < want.size() && i < poses.size(); i++) {
				dev = std::max(dev, std::min(1e4, (want[i].position - poses[i].position).norm()));
				moved = std::max(moved, std::min(1e4, (want[i].position - sampled[i].position).norm()));
			}
		}
		vt::Line("final").i("exp", exp).i("dev", vt::fx(dev, F)).i("moved", vt::fx(moved, F)).b("ok", status == Status::Success).i("smooth", stats.smoothingStatus).arr2("path", out).arr("valid", ok).arr("gap", gap).arr("away", on)
			.arr2("cusp", cusp).i("len", vt::fx(whole.GetLength(), F)).arr("s", pose(algo.GetInitState())).arr("t", pose(algo.GetGoalState())).end();
	}
}

int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::flush();
		vt::watchdog(60);
		searchCase(g);
	}
	return vt::finish();
}
