// Conformance harness: grid planning (AStarN2, BidirectionalAStarN2, the grid
// propagator) on occupancy maps made of single-cell and larger obstacles.
#include "vt.h"
#include "core/base.h"
#include "algo/a_star_n2.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/obstacle.h"
using namespace Planner;

using Cell = GridCellPosition;

struct World {
	Ref<ObstacleListOccupancyMap> map;
	int rows, cols;
	std::vector<Ref<Obstacle>> obs;
	void add(double r, double c)
	{
		auto o = makeRef<Obstacle>();
		o->SetShape(makeRef<PolygonShape>(std::vector<Point2d> { Point2d(r + 0.5 - rows / 2.0, c + 0.5 - cols / 2.0) }));
		map->AddObstacle(o);
		obs.push_back(o);
	}
};

int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		World w;
		int style = g.range(0, 5);
		w.rows = style == 5 ? g.range(1, 3) : g.range(2, 9);
		w.cols = style == 5 ? g.range(1, 14) : g.range(2, 9);
		bool large = g.chance(1, 25);
		if (large) { w.rows = g.range(10, 26); w.cols = g.range(10, 26); }
		else if (g.chance(1, 60)) { w.rows = g.range(1, 3); w.cols = g.range(60, 140); if (g.chance(1, 2)) std::swap(w.rows, w.cols); }
		w.map = makeRef<ObstacleListOccupancyMap>(1.0f);
		w.map->InitializeSize((float)w.rows, (float)w.cols);
		vt::Line("case").i("id", c).i("rows", w.map->Rows()).i("cols", w.map->Columns()).i("wr", w.rows).i("wc", w.cols).end();
		vt::flush();
		vt::watchdog(30);
		// cost model: straight and diagonal moves plus the price of the cell entered
		int straight = 2, diag = g.range(2, 4);
		std::vector<int> price(w.rows * w.cols, 0);
		bool priced = g.chance(1, 3);
		if (priced) for (auto& p : price) p = g.range(0, 5);
		vt::Line lc("cost");
		lc.i("straight", straight).i("diag", diag).arr("price", price);
		lc.end();
		auto cost = [=](const Cell& from, const Cell& to) {
			return (double)((from.row != to.row && from.col != to.col ? diag : straight) + price[to.row * w.cols + to.col]);
		};
		auto rcost = [=](const Cell& from, const Cell& to) { return cost(to, from); };
		auto h = [=](const Cell& s, const Cell& t) {
			int dr = std::abs(s.row - t.row), dc = std::abs(s.col - t.col);
			int lo = std::min(dr, dc), hi = std::max(dr, dc);
			return (double)(lo * std::min(diag, 2 * straight) + (hi - lo) * std::min(straight, diag));
		};
		auto prop = makeRef<AStarStatePropagatorFcnN2>(w.map, cost);
		AStarN2 uni;
		uni.Initialize(prop, makeRef<AStarHeuristicFcnN2>(h));
		BidirectionalAStarN2 bi;
		auto [hf, hr] = BidirectionalAStarN2::GetAverageHeuristicPair(makeRef<AStarHeuristicFcnN2>(h), makeRef<AStarHeuristicFcnN2>(h));
		bi.Initialize(prop, makeRef<AStarStatePropagatorFcnN2>(w.map, rcost), hf, hr);

		int rounds = large ? 2 : g.range(1, 4);
		for (int r = 0; r < rounds; r++) {
			// add some obstacles (walls, diagonals, noise), remove some
			int kind = g.range(0, 3);
			if (kind == 0) {
				int n = g.range(0, w.rows * w.cols / 3);
				for (int i = 0; i < n; i++) w.add(g.range(0, w.rows - 1), g.range(0, w.cols - 1));
			} else if (kind == 1) {
				int x = g.range(0, w.rows - 1), gap = g.range(-1, w.cols - 1);
				for (int y = 0; y < w.cols; y++) if (y != gap) w.add(x, y);
			} else if (kind == 2) {
				int off = g.range(-w.rows + 1, w.cols - 1);
				bool anti = g.chance(1, 2);
				for (int x = 0; x < w.rows; x++) {
					int y = anti ? w.rows - 1 - x + off : x + off;
					if (y >= 0 && y < w.cols && !g.chance(1, 8)) w.add(x, y);
				}
			} else {
				auto o = makeRef<Obstacle>();
				o->SetShape(makeRef<RectangleShape>(g.range(1, 4), g.range(1, 4)));
				o->SetPose(Pose2d(g.range(-3, 3) + 0.25, g.range(-3, 3) + 0.25, 0.0));
				w.map->AddObstacle(o);
				w.obs.push_back(o);
			}
			if (r > 0)
				for (int i = 0; i < 3 && !w.obs.empty(); i++) {
					int k = g.range(0, (int)w.obs.size() - 1);
					w.map->RemoveObstacle(w.obs[k]);
					w.obs.erase(w.obs.begin() + k);
				}
			std::vector<std::vector<int>> occ;
			std::vector<Cell> freeCells;
			for (int x = 0; x < w.rows; x++)
				for (int y = 0; y < w.cols; y++)
					if (w.map->IsOccupied(Cell(x, y))) occ.push_back({ x, y });
					else freeCells.push_back(Cell(x, y));
			vt::Line lo("occ");
			lo.arr2("cells", occ);
			lo.end();
			// the propagator itself, cell by cell
			for (int i = 0; i < 4; i++) {
				Cell s(g.range(0, w.rows - 1), g.range(0, w.cols - 1));
				std::vector<std::vector<int>> nb;
				for (auto& [t, act, tc] : prop->GetNeighborStates(s)) nb.push_back({ t.row, t.col, (int)vt::fx(tc, 1) });
				vt::Line ln("next");
				ln.arr("s", std::vector<int> { s.row, s.col }).arr2("nb", nb);
				ln.end();
			}
			for (int i = 0; i < 2; i++) {
				if (freeCells.empty()) break;
				bool useBi = g.chance(1, 2);
				Cell s = g.pick(freeCells), t = g.pick(freeCells);
				if (!useBi && g.chance(1, 8)) t = Cell(g.range(0, w.rows - 1), g.range(0, w.cols - 1));
				std::vector<Cell> path;
				double cst;
				Status st;
				if (useBi) {
					bi.SetInitState(s); bi.SetGoalState(t);
					st = bi.SearchPath(); path = bi.GetPath(); cst = bi.GetOptimalCost();
				} else {
					uni.SetInitState(s); uni.SetGoalState(t);
					st = uni.SearchPath(); path = uni.GetPath(); cst = uni.GetOptimalCost();
				}
				std::vector<std::vector<int>> pp;
				for (auto& x : path) pp.push_back({ x.row, x.col });
				vt::Line ln("plan");
				ln.b("bi", useBi).arr("s", std::vector<int> { s.row, s.col }).arr("t", std::vector<int> { t.row, t.col });
				ln.b("ok", st == Status::Success).arr2("path", pp);
				ln.i("cost", std::isinf(cst) && cst > 0 ? -1 : (vt::exact(cst, 1) ? vt::fx(cst, 1) : -2));
				ln.end();
			}
		}
	}
	return vt::finish();
}
