// Conformance harness: obstacle heuristic (mode obst), non-holonomic and
// combined heuristics (mode holo).
#include "vt.h"
#include "core/base.h"
#include "algo/heuristics.h"
#include "algo/a_star.h"
#include "geometry/reeds_shepp.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
using namespace Planner;
using Cell = GridCellPosition;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;

// the goal of a heuristic is set by the search that uses it, or by a combination
struct Combined : AStarCombinedHeuristic<Pose2d> {
	void Goal(const Pose2d& p) { this->SetGoal(p); }
};
struct ToPose {
	Pose2d operator()(const int& i) const { return Pose2d(i, 2 * i, 0.1 * i); }
};

static void obstCase(vt::Rng& g)
{
	const double S = 64.0;
	static const int rs[] = { 64, 32, 16, 48 };
	bool large = g.chance(1, 60);
	int res = rs[g.range(0, 3)], rows = large ? g.range(15, 22) : g.range(1, 14), cols = large ? g.range(15, 22) : g.range(1, 14);
	if (g.chance(1, 100)) { rows = g.range(1, 2); cols = g.range(80, 140); if (g.chance(1, 2)) std::swap(rows, cols); }
	int rv = g.range(1, 10), fw = g.range(1, 10);
	auto m = makeRef<ObstacleListOccupancyMap>((float)(res / S));
	int cx = g.chance(1, 2) ? 0 : 2 * g.range(-200, 200), cy = g.chance(1, 2) ? 0 : 2 * g.range(-200, 200);
	m->SetPosition(Point2d(cx / S, cy / S));
	m->InitializeSize(rows * res / S, cols * res / S);
	// corner of the map
	int ox = cx - rows * res / 2, oy = cy - cols * res / 2;
	ObstaclesHeuristic* raw = new ObstaclesHeuristic(m, rv / 4.0, fw / 4.0);
	Ref<ObstaclesHeuristic> h(raw);
	Combined c;
	c.Add(h);
	vt::Line("case").i("rows", rows).i("cols", cols).i("res", res).i("ox", ox).i("oy", oy).i("rv", rv).i("fw", fw).end();
	int rounds = g.range(1, 3), density = g.range(0, 5);
	std::vector<Ref<Obstacle>> on;
	for (int k = 0; k < rounds; k++) {
		for (int i = 0; i < rows * cols; i++)
			if (g.chance(density, 10)) {
				if (!on.empty() && g.chance(1, 2)) {
					int j = g.range(0, (int)on.size() - 1);
					m->RemoveObstacle(on[j]);
					on.erase(on.begin() + j);
				} else {
					int r = g.range(0, rows - 1), q = g.range(0, cols - 1);
					auto o = makeRef<Obstacle>();
					o->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { Point2d((ox + r * res + res / 2) / S, (oy + q * res + res / 2) / S) }));
					o->SetPose(Pose2d(0.0, 0.0, 0.0));
					m->AddObstacle(o);
					on.push_back(o);
				}
			}
		m->Update();
		VVI occ;
		for (int r = 0; r < rows; r++)
			for (int q = 0; q < cols; q++)
				if (m->IsOccupied(Cell(r, q))) occ.push_back({ r, q });
		auto draw = [&](int& x, int& y) {
			x = ox + g.range(0, rows * res - 1);
			y = oy + g.range(0, cols * res - 1);
			if (g.chance(1, 8)) x = ox + g.range(-2 * res, (rows + 2) * res);
			if (g.chance(1, 8)) y = oy + g.range(-2 * res, (cols + 2) * res);
		};
		int gx, gy;
		draw(gx, gy);
		Pose2d goal(gx / S, gy / S, g.real(-3, 3));
		h->Update(goal);
		c.Goal(goal);
		VVI val;
		int n = g.range(5, 40);
		for (int i = 0; i < n; i++) {
			int x, y;
			draw(x, y);
			if (i == 0) x = gx, y = gy;
			Pose2d p(x / S, y / S, g.real(-3, 3));
			double v = g.chance(1, 2) ? h->GetHeuristicValue(p) : c.GetHeuristicValue(p);
			val.push_back({ x, y, vt::fx(v, 1e5) });
		}
		vt::Line("occ").arr2("cells", occ).end();
		vt::Line("query").i("gx", gx).i("gy", gy).arr2("val", val).end();
	}
}

// pictures of the heuristic; the files lie in the working directory of the check, a scratch folder
static void picCase(vt::Rng& g, long id, const std::string& file)
{
	int rows = g.range(1, 9), cols = g.range(1, 9);
	auto m = makeRef<ObstacleListOccupancyMap>(1.0f);
	m->SetPosition(Point2d(g.range(-4, 4), g.range(-4, 4)));
	m->InitializeSize((float)rows, (float)cols);
	auto h = makeRef<ObstaclesHeuristic>(m, g.range(1, 10) / 4.0, g.range(1, 10) / 4.0);
	vt::Line("case").i("id", id).i("rows", rows).i("cols", cols).end();
	std::vector<Ref<Obstacle>> on;
	int density = g.range(0, 5), rounds = g.range(1, 3);
	for (int k = 0; k < rounds; k++) {
		for (int i = 0; i < rows * cols; i++)
			if (g.chance(density, 10)) {
				if (!on.empty() && g.chance(1, 2)) {
					int j = g.range(0, (int)on.size() - 1);
					m->RemoveObstacle(on[j]);
					on.erase(on.begin() + j);
				} else {
					auto o = makeRef<Obstacle>();
					o->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { m->GridCellToWorldPosition(g.range(0, rows - 1), g.range(0, cols - 1)) + Point2d(0.5, 0.5) }));
					o->SetPose(Pose2d(0.0, 0.0, 0.0));
					m->AddObstacle(o);
					on.push_back(o);
				}
			}
		m->Update();
		// before the first update nothing is known
		bool known = k > 0 || g.chance(9, 10);
		int r = known ? g.range(-1, rows) : -1, c = known ? g.range(-1, cols) : -1;
		if (known) h->Update(Pose2d(m->GridCellToWorldPosition(r, c) + Point2d(0.5, 0.5), 0.0));
		if (g.chance(1, 10)) {
			h->Visualize(file + ".d/no/such/folder.ppm");
			vt::Line("refused").end();
		}
		h->Visualize(file);
		VVI occ;
		for (int x = 0; x < rows; x++)
			for (int y = 0; y < cols; y++)
				if (m->IsOccupied(Cell(x, y))) occ.push_back({ x, y });
		vt::Ppm pic(file);
		vt::Line l("heurpic"), q("pixels");
		pic.log(l).arr2("occ", occ).end();
		q.arr2("px", pic.px).arr("goal", VI { r, c }).end();
		if (g.chance(1, 2)) remove(file.c_str());
	}
	remove(file.c_str());
}

static void holoCase(vt::Rng& g)
{
	// lengths in 1/64 m
	const double S = 64.0;
	int sr = g.pick(std::vector<int> { 16, 32, 64, 96 });
	double ar = g.chance(1, 2) ? 2 * M_PI / g.range(1, 24) : g.real(0.2, 2.0);
	int w = g.range(1, 7) * sr - g.range(0, sr - 1), hgt = g.range(1, 7) * sr - g.range(0, sr - 1);
	double R = g.real(0.4, 3);
	int rv = g.range(1, 12), fw = g.range(1, 12), sw = g.chance(1, 2) ? 0 : g.range(1, 8);
	if (g.chance(1, 4)) rv = fw;
	int bx = g.range(-300, 300), by = g.range(-300, 300);
	std::array<Pose2d, 2> bounds { Pose2d(bx / S, by / S, -3.0), Pose2d((bx + w) / S, (by + hgt) / S, 3.0) };
	auto h = NonHolonomicHeuristic::Build(bounds, sr / S, ar, R, rv / 4.0, fw / 4.0, sw / 4.0);
	Combined c, both;
	c.Add(h);
	double slope = g.real(0.1, 1.5);
	auto other = [slope](const Pose2d& s, const Pose2d& t) { return slope * (std::abs(s.x() - t.x()) + std::abs(s.y() - t.y())); };
	auto o = makeRef<AStarConcreteHeuristicFcn<Pose2d, decltype(other)>>(other);
	if (g.chance(1, 2)) both.Add(h, o);
	else both.Add(o, h);
	vt::Line("case").i("sr", sr).i("ar", vt::fx(ar, 1e5)).i("w", w).i("h", hgt).i("rv", rv).i("fw", fw)
		.arr("num", VI { h->numSpatialX, h->numSpatialY, h->numAngular }).end();
	int n = g.range(2, 10);
	for (int i = 0; i < n; i++) {
		Pose2d state(g.real(-5, 5), g.real(-5, 5), g.real(-3.14, 3.14));
		// relative pose of the goal: anywhere, at a vertex of the grid, or the goal itself
		double reach = 0.7, dx = g.real(-reach, reach) * w / S, dy = g.real(-reach, reach) * hgt / S, dt = g.real(-3.14, 3.14);
		if (g.chance(1, 3)) dx = g.range(-3, 3) * sr / S, dy = g.range(-3, 3) * sr / S, dt = g.range(-12, 12) * ar;
		if (i == 0) dx = dy = dt = 0;
		Pose2d goal = state + Pose2d(dx, dy, dt);
		c.Goal(goal);
		double v = c.GetHeuristicValue(state), direct = h->GetHeuristicValue(state);
		both.Goal(goal);
		double vb = both.GetHeuristicValue(state), vo = other(state, goal);
		// the same relative pose somewhere else
		Pose2d frame(g.real(-5, 5), g.real(-5, 5), g.real(-3, 3));
		c.Goal(frame + goal);
		double moved = c.GetHeuristicValue(frame + state);
		// least cost from the state to the goal for the vertices around the relative pose
		double ang = std::fmod(dt, 2 * M_PI);
		if (ang < 0) ang += 2 * M_PI;
		VVI tab;
		int fi = (int)std::floor(dx * S / sr), fj = (int)std::floor(dy * S / sr), fk = (int)std::floor(ang / ar);
		for (int a = fi; a <= fi + 1; a++)
			for (int b = fj; b <= fj + 1; b++)
				for (int k = fk; k <= fk + 1; k++) {
					Pose2d to(a * sr / S, b * sr / S, k * ar);
					auto path = ReedsShepp::Solver::GetOptimalPath(Pose2d(0.0, 0.0, 0.0), to, R, rv / 4.0, fw / 4.0, sw / 4.0);
					double cost = path.ComputeCost(R, rv / 4.0, fw / 4.0, sw / 4.0);
					tab.push_back({ a, b, k, vt::fx(cost, 1e4) });
				}
		VVI zero; // heading 0, for an angle rounded up to a whole turn
		for (int a = fi; a <= fi + 1; a++)
			for (int b = fj; b <= fj + 1; b++) {
				auto path = ReedsShepp::Solver::GetOptimalPath(Pose2d(0.0, 0.0, 0.0), Pose2d(a * sr / S, b * sr / S, 0.0), R, rv / 4.0, fw / 4.0, sw / 4.0);
				zero.push_back({ a, b, vt::fx(path.ComputeCost(R, rv / 4.0, fw / 4.0, sw / 4.0), 1e4) });
			}
		vt::Line("query").arr2("zero", zero).i("dx", vt::fx(dx * S, 1000)).i("dy", vt::fx(dy * S, 1000)).i("dt", vt::fx(ang, 1e5)).i("v", vt::fx(v, 1e4)).i("direct", vt::fx(direct, 1e4))
			.i("moved", vt::fx(moved, 1e4)).i("both", vt::fx(vb, 1e4)).i("other", vt::fx(vo, 1e4)).i("dist", vt::fx(std::hypot(dx, dy), 1e4)).arr2("tab", tab).end();
	}
}

int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::flush();
		vt::watchdog(30);
		if (a.mode == "obst") obstCase(g);
		else if (a.mode == "holo") holoCase(g);
		else if (a.mode == "pic") picCase(g, c, "heur-" + std::to_string(a.shard) + ".ppm");
		else return 3;
	}
	return vt::finish();
}
