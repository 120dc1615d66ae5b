// Conformance harness: node hierarchy (mode node) and the search tree (mode near).
#include "vt.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/node.h"
#include "utils/tree.h"
#include <map>
using namespace Planner;
using VI = std::vector<long long>;
using VVI = std::vector<VI>;
static int g_live = 0;
struct Item {
	int id;
	Item(int i = 0) : id(i) { g_live++; }
	Item(const Item& o) : id(o.id) { g_live++; }
	Item& operator=(const Item& o) { id = o.id; return *this; }
	~Item() { g_live--; }
};
using N = Node<Item>;
static long long idOf(const N* n) { return n ? (**n).id : 0; }

struct Forest {
	std::map<int, N*> at;           // every live node
	std::map<int, Scope<N>> roots;  // owners of the detached ones
	int next = 1;
};
static void dump(vt::Rng& g, Forest& f)
{
	VVI st;
	for (auto& [id, n] : f.at) {
		VI v { id, (**n).id, idOf(n->GetParent()), (long long)n->GetDepth(), idOf(n->GetPrevious()), idOf(n->GetNext()), idOf(n->GetFirst()) };
		for (auto& c : n->GetChildren()) v.push_back(idOf(c.get()));
		st.push_back(v);
	}
	VVI pre, post;
	for (auto& [id, s] : f.roots) {
		VI a, b;
		s->PreOrderTraversal([&](const N& n) { a.push_back(idOf(&n)); });
		s->PostOrderTraversal([&](const N& n) { b.push_back(idOf(&n)); });
		pre.push_back(a);
		post.push_back(b);
	}
	VVI rel;
	std::vector<int> ids;
	for (auto& p : f.at) ids.push_back(p.first);
	for (int i = 0; i < 8 && !ids.empty(); i++) {
		int a = g.pick(ids), b = g.pick(ids);
		rel.push_back({ a, b, f.at[a]->IsDescendantOf(f.at[b]), f.at[a]->IsAncestorOf(f.at[b]) });
	}
	vt::Line("dump").arr2("st", st).arr2("pre", pre).arr2("post", post).arr2("rel", rel).i("live", g_live).end();
}
static std::vector<int> under(N* n)
{
	std::vector<int> r;
	n->PreOrderTraversal([&](const N& x) { r.push_back((*x).id); });
	return r;
}
static void nodeCase(vt::Rng& g)
{
	vt::Line("case").end();
	{
		Forest f;
		bool large = g.chance(1, 30);
		int ops = large ? g.range(100, 200) : g.range(5, 40), cap = large ? 40 : g.range(3, 12);
		for (int o = 0; o < ops; o++) {
			std::vector<int> ids, det, kids;
			for (auto& p : f.at) ids.push_back(p.first), (p.second->GetParent() ? kids : det).push_back(p.first);
			int what = g.range(0, 9);
			if (ids.size() < 2 || (what == 0 && (int)ids.size() < cap)) {
				int id = f.next++;
				auto s = g.chance(1, 2) ? makeScope<N>(Item(id)) : makeScope<N>(id);
				f.at[id] = s.get();
				f.roots[id] = std::move(s);
				vt::Line("new").i("c", id).end();
			} else if (what <= 3) { // adopt a detached node
				int c = g.pick(det), p = g.pick(ids);
				auto sub = under(f.at[c]);
				if (std::find(sub.begin(), sub.end(), p) != sub.end()) continue;
				N* r = f.at[p]->AddChild(std::move(f.roots[c]));
				f.roots.erase(c);
				vt::Line("add").i("p", p).i("c", c).b("same", r == f.at[c]).end();
			} else if (what == 4 && !kids.empty()) {
				int c = g.pick(kids);
				N* p = f.at[c]->GetParent();
				auto s = p->RemoveChild(f.at[c]);
				vt::Line("remove").i("c", c).b("same", s.get() == f.at[c]).end();
				f.roots[c] = std::move(s);
			} else if (what == 5 && !kids.empty()) {
				int b = g.pick(kids), c = 0;
				for (int d : det) if (f.at[d]->GetChildren().empty() && g.chance(2, 3)) c = d;
				if (!c) {
					c = f.next++;
					auto s = makeScope<N>(Item(c));
					f.at[c] = s.get();
					f.roots[c] = std::move(s);
					vt::Line("new").i("c", c).end();
				}
				bool adopt = g.chance(2, 3);
				N* p = f.at[b]->GetParent();
				auto s = adopt && g.chance(1, 2) ? p->ReplaceChild(f.at[b], std::move(f.roots[c])) : p->ReplaceChild(f.at[b], std::move(f.roots[c]), adopt);
				f.roots.erase(c);
				vt::Line("replace").i("b", b).i("c", c).b("adopt", adopt).b("same", s.get() == f.at[b]).end();
				f.roots[b] = std::move(s);
			} else if (what <= 8) {
				int r = g.pick(det);
				auto sub = under(f.at[r]);
				if (sub.size() < 2) continue;
				int c = g.pick(sub), p = g.pick(sub);
				if (c == p) continue;
				Scope<N> root = std::move(f.roots[r]);
				f.roots.erase(r);
				N::Reparent(f.at[c], f.at[p], root);
				long long rid = idOf(root.get());
				vt::Line("reparent").i("c", c).i("p", p).i("root", rid).end();
				f.roots[rid] = std::move(root);
			} else {
				int r = g.pick(det);
				if (g.chance(1, 2)) continue;
				auto sub = under(f.at[r]);
				f.roots.erase(r);
				for (int d : sub) f.at.erase(d);
				vt::Line("drop").i("c", r).end();
			}
			dump(g, f);
		}
		vt::Line("leave").end();
	}
	vt::Line("end").i("live", g_live).end();
}

// ------------------------------------------------------------------ search tree
// what a node carries; counts the nodes which exist
static long long g_info = 0;
struct Info {
	Info() { g_info++; }
	Info(const Info&) { g_info++; }
	~Info() { g_info--; }
	Info& operator=(const Info&) = default;
};
static void nearCase(vt::Rng& g)
{
	using T = Tree<Point2d, 2, Info>;
	g_info = 0;
	T t;
	std::map<const T::Node*, int> name;
	std::vector<T::Node*> nodes;
	std::vector<VI> pts;
	int w = g.chance(1, 3) ? g.range(1, 4) : g.chance(1, 2) ? 40 : 4000;
	bool line = g.chance(1, 6);
	auto pt = [&] { return VI { g.range(-w, w), line ? 0 : g.range(-w, w) }; };
	auto P = [&](const VI& v) { return Point2d(v[0] / 8.0, v[1] / 8.0); };
	auto nm = [&](const T::Node* n) -> long long { return !n ? 0 : name.count(n) ? name[n] : -1; };
	vt::Line("case").end();
	bool large = g.chance(1, 40);
	bool vast = g.chance(1, 150); // a tree of hundreds of nodes
	large = large || vast;
	int ops = vast ? g.range(700, 1000) : large ? g.range(200, 500) : g.range(3, 60);
	if (vast) w = 4000;
	for (int o = 0; o < ops; o++) {
		int what = vast && (o < 500 || g.chance(1, 2)) ? g.range(1, 10) : g.range(0, 19);
		VI v = !pts.empty() && g.chance(1, 8) ? g.pick(pts) : pt();
		if (what == 0 || (nodes.empty() && g.chance(3, 4))) {
			if (!nodes.empty() && g.chance(vast ? 400 : large ? 30 : 1, vast ? 401 : large ? 31 : 2)) continue;
			bool clear = g.chance(1, 2);
			if (clear) { t.Clear(); vt::Line("clear").i("size", t.Size()).i("live", g_info).end(); }
			name.clear();
			nodes.clear();
			pts.clear();
			auto n = t.CreateRootNode(P(v));
			name[n] = 1;
			nodes.push_back(n);
			pts.push_back(v);
			vt::Line("root").arr("at", v).arr("state", VI { vt::fx((*n)->state.x(), 8), vt::fx((*n)->state.y(), 8) }).i("size", t.Size()).b("in", t.BelongToTree(n)).b("top", n->GetParent() == nullptr).end();
		} else if (what <= 9) {
			bool given = g.chance(1, 2) && !nodes.empty();
			T::Node* src = given ? g.pick(nodes) : nullptr;
			auto n = t.Extend(P(v), src);
			bool fresh = n && !name.count(n);
			if (fresh) { name[n] = (int)nodes.size() + 1; nodes.push_back(n); pts.push_back(v); }
			vt::Line("extend").arr("at", v).i("src", nm(src)).i("node", nm(n)).b("fresh", fresh).i("par", n ? nm(n->GetParent()) : 0).i("size", t.Size())
				.arr("state", n ? VI { vt::fx((*n)->state.x(), 8), vt::fx((*n)->state.y(), 8) } : VI {}).b("in", n && t.BelongToTree(n)).end();
		} else if (what <= 12) {
			auto n = t.GetNearestNode(P(v));
			vt::Line("near").arr("at", v).i("node", nm(n)).end();
		} else if (what <= 16) {
			unsigned k = g.chance(1, 10) ? g.range(13, 70) : g.range(0, 12);
			VI got;
			for (auto n : t.GetNearestNodes(P(v), k)) got.push_back(nm(n));
			vt::Line("knear").arr("at", v).i("k", k).arr("nodes", got).end();
		} else if (what <= 18 && nodes.size() >= 2) {
			T::Node *c = g.pick(nodes), *p = g.pick(nodes);
			if (c == p) continue;
			t.Reparent(c, p);
			vt::Line("tmove").i("c", nm(c)).i("p", nm(p)).end();
		} else {
			T::Node other(P(v));
			vt::Line("foreign").b("in", !nodes.empty() && t.BelongToTree(&other)).end();
			// nodes of another tree with the same states, or below a node of its own
			T u;
			auto root = u.CreateRootNode(nodes.empty() ? P(v) : (*nodes[0])->state);
			auto kid = u.Extend(nodes.size() > 1 ? (*g.pick(nodes))->state : P(VI { v[0] + 1, v[1] }), root);
			auto grand = kid->AddChild(makeScope<T::Node>(P(v)));
			for (auto n : { root, kid, grand })
				vt::Line("foreign").b("in", !nodes.empty() && t.BelongToTree(n)).end();
		}
		VI par;
		VI in;
		for (auto n : nodes) par.push_back(nm(n->GetParent())), in.push_back(t.BelongToTree(n));
		vt::Line("tree").i("size", t.Size()).i("live", g_info).arr("par", par).arr("in", in).end();
	}
}
int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		vt::watchdog(20);
		if (a.mode == "node") nodeCase(g);
		else if (a.mode == "near") nearCase(g);
		else return 3;
		vt::flush();
	}
	return vt::finish();
}
