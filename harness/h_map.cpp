// Conformance harness: occupancy map, rasterised obstacles, coordinate frames,
// distance maps, Voronoi diagram and state/path validation.
// Modes: occ, dist, raster, frame, valid, path, voro.
#include "vt.h"
#include "core/base.h"
#include "utils/grid.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_free.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_space/state_space_se2.h"
#include "paths/path_se2.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_constant_steer.h"
#include "models/kinematic_bicycle_model.h"
using namespace Planner;
using Cell = GridCellPosition;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;

static Ref<Obstacle> polygon(std::vector<Point2d> v, Pose2d pose = { 0.0, 0.0, 0.0 })
{
	auto o = makeRef<Obstacle>();
	o->SetShape(makeRef<PolygonShape>(v));
	o->SetPose(pose);
	return o;
}
// an obstacle covering just the cell (r, c) of a centred map of resolution 1
static Ref<Obstacle> cellObstacle(const OccupancyMap& m, int r, int c)
{
	Point2d p = m.GridCellToWorldPosition(r, c);
	p += Point2d(m.resolution / 2.0, m.resolution / 2.0);
	return polygon({ p });
}
static long long code(const Cell& c, int cols) { return c.IsValid() ? (long long)c.row * cols + c.col : (c.row == -1 && c.col == -1 ? -1 : -2); }
static VI codes(const std::vector<Cell>& v, int rows, int cols)
{
	VI r;
	for (auto& c : v) r.push_back(c.row < 0 || c.col < 0 || c.row >= rows || c.col >= cols ? -2 : (long long)c.row * cols + c.col);
	return r;
}
static VI occupied(OccupancyMap& m)
{
	VI r;
	for (int x = 0; x < m.Rows(); x++)
		for (int y = 0; y < m.Columns(); y++)
			if (m.IsOccupied(Cell(x, y))) r.push_back((long long)x * m.Columns() + y);
	return r;
}
// squared distance in cells, -1 for "no obstacle", -9 if it is not an integer
static long long d2(float d, float res)
{
	double k = (double)d / res;
	double q = k * k;
	if (q > 1e8) return -1;
	double n = std::round(q);
	return std::abs(q - n) < 1e-3 * std::max(1.0, q * 1e-2) ? (long long)n : -9;
}

// ---------------------------------------------------------------------------
static Ref<Obstacle> randomObstacle(vt::Rng& g, double w, double h)
{
	auto o = makeRef<Obstacle>();
	int kind = g.range(0, 5);
	Ref<Shape> s;
	if (kind == 0) s = makeRef<PolygonShape>(std::vector<Point2d> { Point2d(0.0, 0.0) });
	else if (kind == 1) s = makeRef<RectangleShape>(g.real(0.1, w / 2), g.real(0.1, h / 2));
	else if (kind == 2) s = makeRef<RegularPolygonShape>(g.real(0.2, w / 3), g.range(3, 7));
	else if (kind == 3) s = makeRef<CircleShape>(g.real(0.2, w / 3), g.range(3, 9));
	else if (kind == 4) {
		std::vector<Point2d> v;
		int n = g.range(1, 5);
		for (int i = 0; i < n; i++) v.push_back({ g.real(-w / 2, w / 2), g.real(-h / 2, h / 2) });
		s = makeRef<PolygonShape>(v);
	} else {
		auto c = makeRef<CompositeShape>();
		c->Add(makeRef<RectangleShape>(g.real(0.1, w / 2), g.real(0.1, h / 2)));
		c->Add(makeRef<PolygonShape>(std::vector<Point2d> { Point2d(g.real(-2, 2), g.real(-2, 2)), Point2d(g.real(-2, 2), g.real(-2, 2)) }));
		s = c;
	}
	o->SetShape(s);
	o->SetPose(Pose2d(g.real(-w * 0.7, w * 0.7), g.real(-h * 0.7, h * 0.7), g.real(-3, 3)));
	return o;
}

static void occCase(vt::Rng& g, long id)
{
	bool large = g.chance(1, 30);
	int rows = large ? g.range(10, 24) : g.range(1, 9), cols = large ? g.range(10, 24) : g.range(1, 9);
	float res = g.chance(1, 2) ? 1.0f : 0.5f;
	auto m = makeRef<ObstacleListOccupancyMap>(res);
	if (g.chance(1, 3)) m->SetPosition(Point2d(g.real(-1, 1), g.real(-1, 1)));
	m->InitializeSize(rows * res, cols * res);
	vt::Line("case").i("id", id).i("rows", m->Rows()).i("cols", m->Columns()).i("wr", rows).i("wc", cols).end();
	std::vector<Ref<Obstacle>> pool;
	int np = large ? g.range(8, 25) : g.range(1, 7);
	for (int i = 0; i < np; i++) pool.push_back(randomObstacle(g, rows * res, cols * res));
	int ops = large ? g.range(30, 60) : g.range(4, 30);
	for (int k = 0; k < ops; k++) {
		int o = g.range(0, np - 1);
		int what = g.range(0, 9);
		if (what <= 4) {
			auto cells = pool[o]->GetBoundaryGridCellPosition(*m);
			bool ok = m->AddObstacle(pool[o]);
			vt::Line("add").i("o", o).b("ok", ok).arr("cells", codes(cells, rows, cols)).end();
		} else if (what <= 7) {
			bool ok = m->RemoveObstacle(pool[o]);
			vt::Line("remove").i("o", o).b("ok", ok).end();
		} else {
			pool[o]->SetPose(Pose2d(g.real(-rows * res, rows * res), g.real(-cols * res, cols * res), g.real(-3, 3)));
			if (g.chance(1, 3)) m->Update();
			vt::Line("move").i("o", o).end();
		}
		VI vals, occ;
		for (int x = 0; x < rows; x++)
			for (int y = 0; y < cols; y++) {
				int v = g.chance(1, 2) ? m->GetOccupancyValue(x, y) : m->GetOccupancyValue(Cell(x, y));
				vals.push_back(v);
				occ.push_back(m->IsOccupied(Cell(x, y)));
			}
		vt::Line("grid").arr("vals", vals).arr("occ", occ).i("num", m->GetNumObstacles()).end();
	}
}

// ---------------------------------------------------------------------------
static void dumpDist(GVD::ObstacleDistanceMap& d)
{
	VI dist, near;
	for (int x = 0; x < d.rows; x++)
		for (int y = 0; y < d.columns; y++) {
			dist.push_back(d2(d.GetDistanceToNearestObstacle(x, y), d.resolution));
			near.push_back(code(d.GetNearestObstacleCell(x, y), d.columns));
		}
	vt::Line("upd").arr("d", dist).arr("n", near).end();
}

static void distCase(vt::Rng& g, long id)
{
	bool big = g.chance(1, 12), huge = g.chance(1, 60), viaMap = g.chance(1, 3), voro = g.chance(1, 2);
	int rows = huge ? g.range(30, 50) : big ? g.range(13, 24) : g.range(1, 12), cols = huge ? g.range(30, 50) : big ? g.range(13, 24) : g.range(1, 12);
	bool thin = g.chance(1, 40); // distances of hundreds of cells
	if (thin) { rows = g.range(1, 3); cols = g.range(120, 300); }
	if (thin && g.chance(1, 2)) std::swap(rows, cols);
	static const float ress[] = { 1.0f, 0.5f, 0.1f, 2.0f, 0.25f };
	float res = ress[g.range(0, 4)];
	vt::Line("case").i("id", id).i("rows", rows).i("cols", cols).end();
	if (viaMap) {
		auto m = makeRef<ObstacleListOccupancyMap>(1.0f);
		m->InitializeSize((float)rows, (float)cols);
		if (voro) m->GetObstacleDistanceMap()->GetVoronoiDistanceMap();
		std::vector<Ref<Obstacle>> on;
		int rounds = g.range(1, 7);
		for (int k = 0; k < rounds; k++) {
			int ops = g.range(0, 5);
			for (int i = 0; i < ops; i++) {
				if (!on.empty() && g.chance(1, 2)) {
					int j = g.range(0, (int)on.size() - 1);
					m->RemoveObstacle(on[j]);
					if (g.chance(1, 6)) m->AddObstacle(on[j]);
					else on.erase(on.begin() + j);
				} else {
					on.push_back(g.chance(1, 2) ? randomObstacle(g, rows, cols) : cellObstacle(*m, g.range(0, rows - 1), g.range(0, cols - 1)));
					m->AddObstacle(on.back());
				}
			}
			vt::Line("occ").arr("cells", occupied(*m)).end();
			m->Update();
			dumpDist(*m->GetObstacleDistanceMap());
		}
		return;
	}
	auto occ = makeRef<Grid<int>>(rows, cols, -1);
	GVD::ObstacleDistanceMap d(occ, res);
	Ref<GVD::VoronoiDistanceMap> vm;
	if (voro) vm = d.GetVoronoiDistanceMap();
	std::vector<Cell> on;
	int rounds = g.range(1, 9);
	if (g.chance(1, 6)) { d.Update(); dumpDist(d); }
	for (int k = 0; k < rounds; k++) {
		int ops = g.range(0, 7);
		for (int i = 0; i < ops; i++) {
			Cell c(g.range(0, rows - 1), g.range(0, cols - 1));
			bool unset = g.chance(2, 5);
			if (unset && !on.empty() && g.chance(9, 10)) c = g.pick(on);
			if (unset) {
				(*occ)[c.row][c.col] = -1;
				d.UnsetObstacle(c);
				on.erase(std::remove(on.begin(), on.end(), c), on.end());
				vt::Line("unset").i("c", code(c, cols)).end();
			} else {
				(*occ)[c.row][c.col] = g.range(0, 3);
				d.SetObstacle(c);
				on.push_back(c);
				vt::Line("set").i("c", code(c, cols)).end();
			}
		}
		d.Update();
		if (vm && g.chance(1, 2)) vm->Update();
		dumpDist(d);
	}
}

// ---------------------------------------------------------------------------
// raster: everything in 1/100 of a cell relative to the corner of the grid
static const double U = 100.0;
static void rasterCase(vt::Rng& g, long id)
{
	bool large = g.chance(1, 20), thin = g.chance(1, 50);
	int rows = large ? g.range(15, 30) : g.range(1, 14), cols = large ? g.range(15, 30) : g.range(1, 14);
	int sx = 1, sy = 1;
	if (thin && g.chance(1, 2)) { rows = g.range(100, 300); cols = g.range(1, 14); sx = 20; }
	else if (thin) { cols = g.range(100, 300); rows = g.range(1, 14); sy = 20; }
	static const float ress[] = { 1.0f, 0.5f, 2.0f, 0.25f };
	double res = ress[g.range(0, 3)];
	auto m = makeRef<ObstacleListOccupancyMap>((float)res);
	Point2d pos(g.chance(1, 2) ? 0.0 : g.range(-40, 40) * 0.25, g.chance(1, 2) ? 0.0 : g.range(-40, 40) * 0.25);
	m->SetPosition(pos);
	m->InitializeSize((float)(rows * res), (float)(cols * res));
	Point2d corner = pos - Point2d(rows * res / 2, cols * res / 2);
	vt::Line("case").i("id", id).i("rows", m->Rows()).i("cols", m->Columns()).end();
	int shapes = g.range(1, 6);
	for (int k = 0; k < shapes; k++) {
		for (int tries = 0; tries < 400; tries++) {
			int kind = g.range(0, 4);
			// local vertices in units; pose in units; the angle as (cos, sin) * 10000
			std::vector<std::array<double, 2>> lv;
			std::string name;
			std::vector<Ref<Shape>> parts;
			VI sizes;
			auto addPart = [&](int kd) {
				std::vector<std::array<double, 2>> v;
				Ref<Shape> s;
				if (kd == 0) { // polygon
					int n = g.range(1, 6);
					std::vector<Point2d> pv;
					for (int i = 0; i < n; i++) {
						int x = g.range(-900 * sx, 900 * sx), y = g.range(-900 * sy, 900 * sy);
						if (i > 0 && g.chance(1, 3)) (g.chance(1, 2) ? x : y) = (int)v.back()[g.range(0, 1)];
						v.push_back({ (double)x, (double)y });
						pv.push_back(Point2d(x / U * res, y / U * res));
					}
					s = makeRef<PolygonShape>(pv);
				} else if (kd == 1) {
					int a = 2 * g.range(5, 600 * sx), b = 2 * g.range(5, 600 * sy);
					v = { { a / 2.0, b / 2.0 }, { -a / 2.0, b / 2.0 }, { -a / 2.0, -b / 2.0 }, { a / 2.0, -b / 2.0 } };
					s = makeRef<RectangleShape>(a / U * res, b / U * res);
				} else {
					int r = g.range(30, 800), n = g.range(3, 9);
					double rr = kd == 2 ? r : r / std::cos(M_PI / n);
					for (int i = 0; i < n; i++) v.push_back({ rr * std::cos(2 * M_PI * i / n), rr * std::sin(2 * M_PI * i / n) });
					if (kd == 2) s = makeRef<RegularPolygonShape>(r / U * res, n);
					else s = makeRef<CircleShape>(r / U * res, n);
				}
				parts.push_back(s);
				sizes.push_back((long long)v.size());
				lv.insert(lv.end(), v.begin(), v.end());
			};
			static const char* names[] = { "polygon", "rectangle", "regular", "circle", "composite" };
			if (kind < 4) addPart(kind);
			else { int n = g.range(1, 3); for (int i = 0; i < n; i++) addPart(g.range(0, 3)); }
			double th = g.chance(1, 3) ? 0.0 : (g.chance(1, 3) ? g.range(-2, 2) * M_PI / 2 : g.real(-M_PI, M_PI));
			if (thin) th = g.chance(1, 2) ? 0.0 : g.real(-0.02, 0.02);
			double px = g.range(-200, rows * 100 + 200), py = g.range(-200, cols * 100 + 200);
			bool clear = true;
			for (auto& p : lv) {
				double x = px + std::cos(th) * p[0] - std::sin(th) * p[1], y = py + std::sin(th) * p[0] + std::cos(th) * p[1];
				for (double c : { x, y }) { double f = c - 100 * std::floor(c / 100); if (f < 6 || f > 94) clear = false; }
			}
			if (!clear) continue;
			Ref<Shape> shape;
			if (kind < 4) shape = parts[0];
			else { auto c = makeRef<CompositeShape>(); for (auto& p : parts) c->Add(p); shape = c; }
			auto o = makeRef<Obstacle>();
			o->SetShape(shape);
			o->SetPose(Pose2d(corner.x() + px / U * res, corner.y() + py / U * res, th));
			VVI lvi, wv;
			for (auto& p : lv) lvi.push_back({ std::llround(p[0]), std::llround(p[1]) });
			for (auto& p : o->GetBoundaryWorldPosition()) wv.push_back({ vt::fx((p.x() - corner.x()) / res, U), vt::fx((p.y() - corner.y()) / res, U) });
			auto cells = o->GetBoundaryGridCellPosition(*m);
			VVI cv;
			for (auto& c : cells) cv.push_back({ c.row, c.col });
			vt::Line("shape").s("kind", names[kind]).arr("parts", sizes).arr2("verts", lvi).i("px", (long long)px).i("py", (long long)py)
				.i("cos", std::llround(std::cos(th) * 10000)).i("sin", std::llround(std::sin(th) * 10000)).arr2("world", wv).arr2("cells", cv).end();
			break;
		}
	}
}

// ---------------------------------------------------------------------------
// frame: positions in 1/64 m (dyadic: every double operation is exact) or, for
// decimal resolutions, in mm with all query points away from the cell borders
static void frameCase(vt::Rng& g, long id)
{
	bool dyadic = g.chance(2, 3);
	long long unit = dyadic ? 64 : 1000;
	long long res;
	if (dyadic) { static const int r[] = { 16, 32, 64, 128, 8, 96 }; res = r[g.range(0, 5)]; }
	else { static const int r[] = { 100, 200, 300, 50, 700 }; res = r[g.range(0, 4)]; }
	auto m = makeRef<ObstacleListOccupancyMap>((float)((double)res / unit));
	vt::Line("case").i("id", id).i("res", res).b("dyadic", dyadic).end();
	// centre and size in units of 2 so that half the size is an integer
	auto position = [&] {
		long long x = g.range(-2000, 2000) * 2, y = g.range(-2000, 2000) * 2;
		m->SetPosition(Point2d((double)x / unit, (double)y / unit));
		auto p = m->GetPosition();
		vt::Line("position").i("x", x).i("y", y).i("gx", vt::fx(p.x(), unit)).i("gy", vt::fx(p.y(), unit)).end();
	};
	auto size = [&] {
		long long w, h;
		auto one = [&]() -> long long {
			if (dyadic) return 2 * g.range(1, 24) * (g.chance(1, 3) ? (int)res / 2 : g.range(4, 40));
			long long k = 2 * ((g.range(0, 20) * res + g.range((int)res / 4, 3 * (int)res / 4)) / 2);
			return k > 0 ? k : 2;
		};
		w = one(); h = one();
		m->InitializeSize((float)((double)w / unit), (float)((double)h / unit));
		vt::Line("size").i("w", w).i("h", h).i("rows", m->Rows()).i("cols", m->Columns()).end();
		return std::make_pair(w, h);
	};
	if (g.chance(1, 2)) position();
	auto sz = size();
	int n = g.range(3, 12);
	for (int k = 0; k < n; k++) {
		if (g.chance(1, 5)) position();
		if (g.chance(1, 10)) sz = size();
		Point2d c0 = m->GetPosition();
		long long cx = vt::fx(c0.x(), unit), cy = vt::fx(c0.y(), unit);
		long long ox = cx - sz.first / 2, oy = cy - sz.second / 2;
		auto coord = [&](long long o, long long size) {
			long long v;
			do {
				v = o + g.range((int)(-2 * res), (int)(size + 2 * res));
				if (g.chance(1, 5)) v = o + g.range(-2, (int)(size / res) + 2) * res + (dyadic ? g.range(-1, 1) : (int)res / 2);
			} while (!dyadic && (((v - o) % res + res) % res < res / 10 || ((v - o) % res + res) % res > res - res / 10));
			return v;
		};
		long long x = coord(ox, sz.first), y = coord(oy, sz.second);
		Point2d w((double)x / unit, (double)y / unit);
		Point2d l = g.chance(1, 2) ? m->WorldPositionToLocalPosition(w) : m->WorldPositionToLocalPosition(w.x(), w.y());
		Point2d back = g.chance(1, 2) ? m->LocalPositionToWorldPosition(l) : m->LocalPositionToWorldPosition(l.x(), l.y());
		Cell u = g.chance(1, 2) ? m->WorldPositionToGridCell(w, false) : m->WorldPositionToGridCell(w.x(), w.y(), false);
		Cell b = g.chance(1, 2) ? m->WorldPositionToGridCell(w) : m->WorldPositionToGridCell(w.x(), w.y());
		Cell lu = g.chance(1, 2) ? m->LocalPositionToGridCell(l, false) : m->LocalPositionToGridCell(l.x(), l.y(), false);
		Cell lb = g.chance(1, 2) ? m->LocalPositionToGridCell(l) : m->LocalPositionToGridCell(l.x(), l.y());
		Point2d cw = g.chance(1, 2) ? m->GridCellToWorldPosition(u) : m->GridCellToWorldPosition(u.row, u.col);
		Point2d cl = g.chance(1, 2) ? m->GridCellToLocalPosition(u) : m->GridCellToLocalPosition(u.row, u.col);
		double hx = (double)res / unit / 2;
		Cell again = m->WorldPositionToGridCell(cw + Point2d(hx, hx), false);
		vt::Line("q").i("x", x).i("y", y)
			.arr("local", VI { vt::fx(l.x(), unit), vt::fx(l.y(), unit) }).arr("back", VI { vt::fx(back.x(), unit), vt::fx(back.y(), unit) })
			.arr("u", VI { u.row, u.col }).arr("b", VI { b.row, b.col }).arr("lu", VI { lu.row, lu.col }).arr("lb", VI { lb.row, lb.col })
			.arr("cw", VI { vt::fx(cw.x(), unit), vt::fx(cw.y(), unit) }).arr("cl", VI { vt::fx(cl.x(), unit), vt::fx(cl.y(), unit) })
			.arr("again", VI { again.row, again.col })
			.b("in", m->IsInsideMap(w)).b("incell", m->IsInsideMap(u)).end();
	}
}

// ---------------------------------------------------------------------------
// valid: units 1/64 m; angles in 1/64 rad
static void validCase(vt::Rng& g, long id)
{
	const double S = 64.0;
	static const int rs[] = { 64, 32, 128, 48 };
	int res = rs[g.range(0, 3)];
	int rows = g.range(1, 12), cols = g.range(1, 12);
	// half widths, not always a multiple of the resolution
	int hw = rows * res / 2 - (g.chance(1, 3) ? g.range(0, res / 2 - 1) : 0), hh = cols * res / 2 - (g.chance(1, 3) ? g.range(0, res / 2 - 1) : 0);
	if (hw <= 0) hw = res / 2;
	if (hh <= 0) hh = res / 2;
	int tl = g.chance(1, 2) ? -202 : g.range(-200, 0), tu = g.chance(1, 2) ? 202 : g.range(0, 200);
	auto space = makeRef<StateSpaceSE2>(Pose2d(-hw / S, -hh / S, tl / S), Pose2d(hw / S, hh / S, tu / S));
	// Pose2d wraps angles into [-pi, pi]: what counts is the bound as stored
	double tlo = space->bounds[0].theta, thi = space->bounds[1].theta;
	auto m = makeRef<ObstacleListOccupancyMap>((float)(res / S));
	bool before = g.chance(1, 2);
	int cx = g.chance(1, 2) ? 0 : g.range(-500, 500), cy = g.chance(1, 2) ? 0 : g.range(-500, 500);
	if (before) m->SetPosition(Point2d(cx / S, cy / S));
	StateValidatorOccupancyMap v(space, m);
	if (!before) m->SetPosition(Point2d(cx / S, cy / S));
	vt::Line("case").i("id", id).i("rows", m->Rows()).i("cols", m->Columns()).i("res", res).i("hw", hw).i("hh", hh).i("cx", cx).i("cy", cy)
		.i("tl", vt::fx(tlo, 1e6)).i("tu", vt::fx(thi, 1e6)).end();
	std::vector<Ref<Obstacle>> on;
	int rounds = g.range(1, 4);
	StateValidatorSE2Free fr(space);
	for (int k = 0; k < rounds; k++) {
		int ops = g.range(k == 0 ? 0 : 1, 4);
		for (int i = 0; i < ops; i++) {
			if (!on.empty() && g.chance(2, 5)) {
				int j = g.range(0, (int)on.size() - 1);
				m->RemoveObstacle(on[j]);
				on.erase(on.begin() + j);
			} else {
				auto o = g.chance(1, 2) ? randomObstacle(g, 2 * hw / S, 2 * hh / S) : cellObstacle(*m, g.range(0, m->Rows() - 1), g.range(0, m->Columns() - 1));
				m->AddObstacle(o);
				on.push_back(o);
			}
		}
		m->Update();
		int safe = g.chance(1, 4) ? g.range(0, 4) * res : g.range(0, 5 * res);
		v.minSafeRadius = (float)(safe / S);
		vt::Line("occ").arr("cells", occupied(*m)).i("safe", safe).end();
		int n = g.range(2, 20);
		for (int i = 0; i < n; i++) {
			int x = cx + g.range(-hw - res, hw + res), y = cy + g.range(-hh - res, hh + res);
			if (g.chance(1, 6)) x = cx + (g.chance(1, 2) ? 1 : -1) * hw + g.range(-1, 1);
			if (g.chance(1, 6)) y = cy + (g.chance(1, 2) ? 1 : -1) * hh + g.range(-1, 1);
			double th = g.chance(1, 2) ? g.range(-201, 201) / S : g.real(-3.14, 3.14);
			if (std::abs(th - tlo) < 1e-4) th += 1e-3;
			if (std::abs(th - thi) < 1e-4) th -= 1e-3;
			if (g.chance(1, 6)) th = g.chance(1, 2) ? tlo : thi;
			Pose2d p(x / S, y / S, th);
			vt::Line("state").i("x", x).i("y", y).i("th", vt::fx(p.theta, 1e6)).b("ok", v.IsStateValid(p))
				.b("free", fr.IsStateValid(Pose2d(p.x() - cx / S, p.y() - cy / S, th))).end();
		}
	}
}

// ---------------------------------------------------------------------------
// path: local positions in mm
// drives from one pose straight to a second one and from there to a third one
struct PathCorner : PathSE2Base {
	Pose2d a, b, c;
	double l1, l2;
	PathCorner(const Pose2d& a, const Pose2d& b, const Pose2d& c) : PathSE2Base(a, (b.position - a.position).norm() + (c.position - b.position).norm()), a(a), b(b), c(c)
	{
		l1 = (b.position - a.position).norm();
		l2 = (c.position - b.position).norm();
		m_final = c;
	}
	Pose2d Interpolate(double r) const override
	{
		double s = r * (l1 + l2);
		bool first = s < l1;
		double q = first ? s / l1 : l2 > 0 ? std::min(1.0, (s - l1) / l2) : 1.0;
		Point2d p = first ? Point2d(a.position + q * (b.position - a.position)) : Point2d(b.position + q * (c.position - b.position));
		return Pose2d(p.x(), p.y(), a.theta);
	}
	void Truncate(double) override { }
};
static void pathCase(vt::Rng& g, long id)
{
	static const int rs[] = { 1000, 500, 250 };
	int res = rs[g.range(0, 2)];
	int hw = g.range(8, 40) * 125, hh = g.range(8, 40) * 125;
	// what: 1 passes a single obstacle at a large safe radius, 2 leaves the map and returns
	int what = g.chance(1, 2) ? 0 : g.range(1, 2);
	if (what == 1) { res = 125; hw = hh = 5000; }
	auto space = makeRef<StateSpaceSE2>(Pose2d(-hw / 1000.0, -hh / 1000.0, -M_PI), Pose2d(hw / 1000.0, hh / 1000.0, M_PI));
	auto m = makeRef<ObstacleListOccupancyMap>(res / 1000.0f);
	Point2d c(g.chance(1, 2) ? 0.0 : g.range(-8, 8) * 1.0, g.chance(1, 2) ? 0.0 : g.range(-8, 8) * 1.0);
	m->SetPosition(c);
	StateValidatorOccupancyMap v(space, m);
	StateValidatorSE2Base& base = v;
	int safe = g.range(0, 12) * 125, minI = g.chance(1, 2) ? 100 : g.range(1, 8) * 50;
	if (what == 1) { safe = g.range(16, 24) * 125; minI = 50; }
	if (what == 2) { safe = g.range(0, 2) * 125; minI = g.range(1, 4) * 50; }
	v.minSafeRadius = safe / 1000.0f;
	v.minPathInterpolationDistance = minI / 1000.0f;
	int no = what == 1 ? 1 : what == 2 ? g.range(0, 1) : g.range(0, 4);
	for (int i = 0; i < no; i++) {
		Ref<Obstacle> o;
		if (what == 1) o = cellObstacle(*m, m->Rows() / 2, m->Columns() / 2);
		else if (what == 2 || g.chance(1, 2)) o = cellObstacle(*m, g.range(0, m->Rows() - 1), g.range(0, m->Columns() - 1));
		else {
			o = makeRef<Obstacle>();
			o->SetShape(makeRef<RectangleShape>(g.real(0.2, 4), g.real(0.2, 1)));
			o->SetPose(Pose2d(c.x() + g.real(-hw, hw) / 1000, c.y() + g.real(-hh, hh) / 1000, g.real(-3, 3)));
		}
		m->AddObstacle(o);
	}
	m->Update();
	vt::Line("case").i("id", id).i("rows", m->Rows()).i("cols", m->Columns()).i("res", res).i("hw", hw).i("hh", hh).i("safe", safe).i("minI", minI).end();
	vt::Line("occ").arr("cells", occupied(*m)).end();
	int np = g.range(1, 6);
	for (int k = 0; k < np; k++) {
		double ex = g.chance(1, 2) ? 1.0 : 1.2;
		auto pose = [&] { return Pose2d(c.x() + g.real(-hw, hw) / 1000 * ex, c.y() + g.real(-hh, hh) / 1000 * ex, g.real(-3.1, 3.1)); };
		Pose2d a = pose(), b = pose();
		Ref<PathSE2Base> p;
		int kind = g.range(0, 3);
		if (what == 1) {
			double r = safe / 1000.0, off = r * g.real(0.78, 1.03), half = std::sqrt(std::max(0.0, r * r - off * off)), h = g.real(-3.1, 3.1);
			double x0 = -half - g.real(0.0, 0.4), x1 = half + g.real(0.0, 1.5), y = g.chance(1, 2) ? off : -off;
			auto turn = [&](double x) { return Pose2d(c.x() + x * std::cos(h) - y * std::sin(h), c.y() + x * std::sin(h) + y * std::cos(h), h); };
			p = makeRef<PathSE2>(turn(x0), turn(x1));
			if (g.chance(1, 2)) {
				// towards the obstacle and back, or past it on the way
				double deep = r * g.real(-0.02, 0.3);
				y = 0;
				Pose2d from = turn(r + g.real(0.15, 1.6)), near = turn(r - deep);
				y = g.chance(1, 2) ? 0.0 : g.real(-0.6, 0.6);
				p = makeRef<PathCorner>(from, near, turn(r + g.real(0.15, 1.6)));
			}
		} else if (what == 2 && g.chance(3, 4)) {
			int side = g.range(0, 3);
			double in = g.real(0.02, 1.0), along = g.real(-0.8, 0.8), h = (side < 2 ? (side ? M_PI : 0.0) : (side == 2 ? M_PI / 2 : -M_PI / 2)) + g.real(-1.4, 1.4);
			Point2d q = side < 2 ? Point2d((side ? -1 : 1) * (hw / 1000.0 - in), along * hh / 1000.0) : Point2d(along * hw / 1000.0, (side == 2 ? 1 : -1) * (hh / 1000.0 - in));
			auto model = makeRef<KinematicBicycleModel>(1.5, 0.5);
			p = makeRef<PathConstantSteer>(model, Pose2d(c.x() + q.x(), c.y() + q.y(), h), (g.chance(1, 2) ? 1 : -1) * g.real(0.4, 1.1), g.real(1.0, 9), Direction::Forward);
		} else if (kind == 0 || kind == 1) {
			if (g.chance(1, 12)) b = a;
			p = makeRef<PathSE2>(a, b);
		} else if (kind == 2) {
			PathConnectionReedsShepp conn(g.real(0.8, 2));
			p = conn.Connect(a, b);
		} else {
			auto model = makeRef<KinematicBicycleModel>(1.5, 0.5);
			p = makeRef<PathConstantSteer>(model, a, g.real(-0.6, 0.6), g.real(0.2, 8), g.chance(1, 2) ? Direction::Forward : Direction::Backward);
		}
		double len = p->GetLength();
		float last = -5;
		bool ok = v.IsPathValid(*p, &last);
		bool ok2 = v.IsPathValid(*p);
		Pose2d lastState;
		bool ok3 = base.IsPathValid(*p, &lastState);
		VVI samples;
		int n = std::min(400, std::max(1, (int)std::ceil(len / 0.05)));
		for (int i = 0; i <= n; i++) {
			Pose2d s = p->Interpolate((double)i / n);
			Point2d l = s.position - c;
			samples.push_back({ vt::fx(len * i / n, 1000), vt::fx(l.x(), 1000), vt::fx(l.y(), 1000) });
		}
		Pose2d ls = p->Interpolate(last);
		Point2d ll = ls.position - c, l3 = lastState.position - c;
		vt::Line("path").i("len", vt::fx(len, 1000)).b("ok", ok).b("ok2", ok2).b("ok3", ok3).i("last", vt::fx(last, 1e6)).i("at", vt::fx(last * len, 1000))
			.b("v0", v.IsStateValid(p->Interpolate(0.0))).b("v1", v.IsStateValid(p->Interpolate(1.0)))
			.b("vlast", v.IsStateValid(p->Interpolate((double)last)) || v.IsStateValid(p->Interpolate(std::max(0.0, last - 1e-3 / len))) || v.IsStateValid(p->Interpolate(std::min(1.0, last + 1e-3 / len))))
			.arr("lp", VI { vt::fx(ll.x(), 1000), vt::fx(ll.y(), 1000), vt::fx(ls.theta, 1000) })
			.arr("l3", VI { vt::fx(l3.x(), 1000), vt::fx(l3.y(), 1000), vt::fx(lastState.theta, 1000) })
			.arr2("s", samples).end();
		StateValidatorSE2Free fr(space);
		float fl = -1;
		bool fok = fr.IsPathValid(*p, &fl);
		vt::Line("free").b("ok", fok).i("last", vt::fx(fl, 1000)).end();
	}
}

// ---------------------------------------------------------------------------
static void voroCase(vt::Rng& g, long id)
{
	bool big = g.chance(1, 10);
	int rows = big ? g.range(13, 20) : g.range(1, 11), cols = big ? g.range(13, 20) : g.range(1, 11);
	if (g.chance(1, 40)) { rows = g.range(1, 3); cols = g.range(25, 45); if (g.chance(1, 2)) std::swap(rows, cols); }
	static const int rs[] = { 10, 5, 20, 40 };
	int res = rs[g.range(0, 3)]; // in 1/10 m
	auto m = makeRef<ObstacleListOccupancyMap>(res / 10.0f);
	double r = res / 10.0;
	if (g.chance(1, 2)) m->SetPosition(Point2d(g.range(-4, 4), g.range(-4, 4)));
	m->InitializeSize((float)(rows * r), (float)(cols * r));
	vt::Line("case").i("id", id).i("rows", m->Rows()).i("cols", m->Columns()).i("res", res).end();
	std::vector<Ref<Obstacle>> on;
	std::vector<Ref<Obstacle>> off; // removed earlier
	Ref<GVD> gvd, other; // a second diagram of the same map
	int when = g.range(0, 2);
	if (when == 0) gvd = makeRef<GVD>(m);
	int rounds = g.range(1, 6);
	for (int k = 0; k < rounds; k++) {
		int ops = g.range(k == 0 ? 1 : 0, 4);
		for (int i = 0; i < ops; i++) {
			if (!on.empty() && g.chance(2, 5)) {
				int j = g.range(0, (int)on.size() - 1);
				m->RemoveObstacle(on[j]);
				off.push_back(on[j]);
				on.erase(on.begin() + j);
			} else if (!off.empty() && g.chance(2, 5)) {
				m->AddObstacle(off.back());
				on.push_back(off.back());
				off.pop_back();
			} else {
				auto o = g.chance(1, 3) ? randomObstacle(g, rows * r, cols * r) : cellObstacle(*m, g.range(0, rows - 1), g.range(0, cols - 1));
				m->AddObstacle(o);
				on.push_back(o);
			}
			// the map is updated in between without the diagram, or by another diagram
			if (g.chance(1, 4)) m->Update();
			if (other && g.chance(1, 4)) other->Update();
		}
		VI vals;
		for (int x = 0; x < rows; x++)
			for (int y = 0; y < cols; y++) vals.push_back(m->GetOccupancyValue(x, y));
		if (when == 1 || g.chance(1, 4)) m->Update();
		if (!gvd) gvd = makeRef<GVD>(m);
		gvd->Update();
		if (!other && g.chance(1, 5)) other = makeRef<GVD>(m);
		if (other && g.chance(1, 3)) std::swap(gvd, other), gvd->Update();
		VI od, on2, vd, vn, cost;
		for (int x = 0; x < rows; x++)
			for (int y = 0; y < cols; y++) {
				Cell c(x, y);
				od.push_back(d2(gvd->GetDistanceToNearestObstacle(c), (float)r));
				on2.push_back(code(gvd->GetNearestObstacleCell(x, y), cols));
				vd.push_back(d2(gvd->GetDistanceToNearestVoronoiEdge(x, y), (float)r));
				vn.push_back(code(gvd->GetNearestVoronoiEdgeCell(c), cols));
				cost.push_back(vt::fx(gvd->GetPathCost(c), 10000));
			}
		vt::Line("gvd").arr("vals", vals).arr("od", od).arr("on", on2).arr("vd", vd).arr("vn", vn).arr("cost", cost).end();
		// the same values by world position
		for (int i = 0; i < 4; i++) {
			int x = g.range(-1, rows), y = g.range(-1, cols);
			Point2d p = m->GridCellToWorldPosition(x, y) + Point2d(r * g.real(0.1, 0.9), r * g.real(0.1, 0.9));
			Point2d po(-1e5, -1e5), pv(-1e5, -1e5);
			float fo = -1, fv = -1, fc = -1;
			bool b1 = gvd->GetNearestObstaclePosition(p, po), b2 = gvd->GetNearestVoronoiEdgePosition(p, pv);
			bool b3 = gvd->GetDistanceToNearestObstacle(p, fo), b4 = gvd->GetDistanceToNearestVoronoiEdge(p, fv), b5 = gvd->GetPathCost(p, fc);
			auto back = [&](const Point2d& q) { return m->WorldPositionToGridCell(q + Point2d(r / 2, r / 2), false); };
			vt::Line("at").i("r", x).i("c", y).arr("ok", VI { b1, b2, b3, b4, b5 })
				.i("o", b1 ? code(back(po), cols) : 0).i("v", b2 ? code(back(pv), cols) : 0)
				.i("od", b3 ? d2(fo, (float)r) : 0).i("vd", b4 ? d2(fv, (float)r) : 0).i("cost", b5 ? vt::fx(fc, 10000) : 0).end();
		}
	}
}

// pictures of the diagram; the files lie in the working directory of the check, a scratch folder
static void picCase(vt::Rng& g, long id, const std::string& file)
{
	int rows = g.range(1, 9), cols = g.range(1, 9);
	if (g.chance(1, 5)) (g.chance(1, 2) ? rows : cols) = g.range(20, 48);
	double r = g.chance(1, 2) ? 1.0 : g.chance(1, 2) ? 4.0 : 0.0625;
	auto m = makeRef<ObstacleListOccupancyMap>((float)r);
	if (g.chance(1, 2)) m->SetPosition(Point2d(g.range(-4, 4), g.range(-4, 4)));
	m->InitializeSize((float)(rows * r), (float)(cols * r));
	rows = m->Rows(), cols = m->Columns();
	vt::Line("case").i("id", id).i("rows", rows).i("cols", cols).end();
	std::vector<Ref<Obstacle>> on;
	auto gvd = makeRef<GVD>(m);
	int rounds = g.range(1, 4);
	for (int k = 0; k < rounds; k++) {
		int ops = g.range(0, 5);
		for (int i = 0; i < ops; i++) {
			if (!on.empty() && g.chance(1, 3)) {
				int j = g.range(0, (int)on.size() - 1);
				m->RemoveObstacle(on[j]);
				on.erase(on.begin() + j);
			} else {
				on.push_back(g.chance(1, 3) ? randomObstacle(g, rows * r, cols * r) : cellObstacle(*m, g.range(0, rows - 1), g.range(0, cols - 1)));
				m->AddObstacle(on.back());
			}
		}
		gvd->Update();
		if (g.chance(1, 10)) {
			gvd->Visualize(file + ".d/no/such/folder.ppm");
			vt::Line("refused").end();
		}
		gvd->Visualize(file);
		VI vals, on2, cost;
		for (int x = 0; x < rows; x++)
			for (int y = 0; y < cols; y++) {
				vals.push_back(m->GetOccupancyValue(x, y));
				on2.push_back(code(gvd->GetNearestObstacleCell(x, y), cols));
				cost.push_back(vt::fx(gvd->GetPathCost(x, y), 10000));
			}
		vt::Ppm pic(file);
		vt::Line l("gvdpic");
		pic.log(l).arr("vals", vals).arr("on", on2).arr("cost", cost).end();
		if (g.chance(1, 2)) remove(file.c_str());
	}
	remove(file.c_str());
}

int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::flush();
		vt::watchdog(30);
		if (a.mode == "occ") occCase(g, c);
		else if (a.mode == "dist") distCase(g, c);
		else if (a.mode == "raster") rasterCase(g, c);
		else if (a.mode == "frame") frameCase(g, c);
		else if (a.mode == "valid") validCase(g, c);
		else if (a.mode == "path") pathCase(g, c);
		else if (a.mode == "voro") voroCase(g, c);
		else if (a.mode == "pic") picCase(g, c, "gvd-" + std::to_string(a.shard) + ".ppm");
		else return 3;
	}
	return vt::finish();
}
