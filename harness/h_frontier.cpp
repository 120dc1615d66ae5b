// Conformance harness: Planner::Frontier (priority list with unique membership)
#include "vt.h"
#include "core/base.h"
#include "utils/frontier.h"
#include <deque>
using namespace Planner;

struct Elem { int key, prio, tag; };
struct LessP { bool operator()(const Elem& a, const Elem& b) const { return a.prio < b.prio; } };
struct GreaterP { bool operator()(const Elem& a, const Elem& b) const { return a.prio > b.prio; } };
struct HashE { std::size_t operator()(const Elem& e) const { return std::hash<int>()(e.key); } };
struct BadHash { std::size_t operator()(const Elem& e) const { return (std::size_t)(e.key & 1); } };
struct EqE { bool operator()(const Elem& a, const Elem& b) const { return a.key == b.key; } };
// pointers to mutable nodes, as the graph searches use it
struct LessPtr { bool operator()(const Elem* a, const Elem* b) const { return a->prio > b->prio; } };
struct HashPtr { std::size_t operator()(const Elem* e) const { return std::hash<int>()(e->key); } };
struct EqPtr { bool operator()(const Elem* a, const Elem* b) const { return a->key == b->key; } };

static std::vector<int> V(const Elem& e) { return { e.key, e.prio, e.tag }; }

struct Shape { int nkeys, nprios, steps; bool heavyPush; int pattern; };

template <typename F, typename Mk, typename Rd>
void drive(F& f, vt::Rng& g, const Shape& sh, Mk mk, Rd rd)
{
	int tag = 0, seq = 0;
	auto fin = [&](vt::Line& ln) { ln.i("size", (long long)f.Size()).b("empty", f.Empty()); ln.end(); };
	auto key = [&] { return g.range(0, sh.nkeys - 1) - sh.nkeys / 3; };
	auto prio = [&] {
		seq++;
		switch (sh.pattern) {
		case 1: return seq;                       // ascending
		case 2: return -seq;                      // descending
		case 3: return (seq % 2 ? seq : -seq);    // alternating ends
		case 4: return g.range(-2000000000, 2000000000);
		default: return g.range(0, sh.nprios - 1) - sh.nprios / 2;
		}
	};
	for (int s = 0; s < sh.steps; s++) {
		int op = g.range(0, 99);
		int pushW = sh.heavyPush && s < sh.steps / 2 ? 75 : 40;
		if (op < pushW) {
			Elem e { key(), prio(), ++tag };
			auto [p, ins] = f.Push(mk(e));
			vt::Line ln("push");
			Elem got = p ? rd(*p) : Elem { 0, 0, -1 };
			ln.arr("x", V(e)).b("ins", ins).arr("got", V(got));
			fin(ln);
		} else if (op < pushW + 14) {
			if (f.Empty()) continue;
			Elem t = rd(f.Top());
			vt::Line l1("top");
			l1.arr("x", V(t));
			fin(l1);
			Elem e = rd(f.Pop());
			vt::Line ln("pop");
			ln.arr("x", V(e));
			fin(ln);
		} else if (op < pushW + 26) {
			int k = key();
			// the element passed to Remove carries an unrelated priority
			Elem probe { k, g.range(-3, 3), -1 };
			auto n = f.Remove(mk(probe));
			vt::Line ln("remove");
			ln.i("k", k).i("n", (long long)n);
			fin(ln);
		} else if (op < pushW + 44) {
			int k = key();
			Elem probe { k, g.range(-3, 3), -1 };
			auto p = f.Find(mk(probe));
			vt::Line ln("find");
			ln.i("k", k).b("found", p != nullptr).arr("x", V(p ? rd(*p) : Elem { 0, 0, 0 }));
			fin(ln);
		} else if (op == 99 && g.chance(1, 3)) {
			f.Clear();
			vt::Line ln("clear");
			fin(ln);
		}
		if (sh.steps < 60 || g.chance(1, 40) || s + 1 == sh.steps) {
			std::vector<std::vector<int>> all;
			for (const auto& x : f) all.push_back(V(rd(x)));
			vt::Line ln("iter");
			ln.arr2("s", all);
			fin(ln);
		}
	}
	// drain: the popped sequence is a sort of the content
	while (!f.Empty()) {
		Elem e = rd(f.Pop());
		vt::Line ln("pop");
		ln.arr("x", V(e));
		fin(ln);
	}
}

int main(int argc, char** argv)
{
	auto a = vt::init(argc, argv);
	vt::Rng g(a.seed * 1000 + a.shard);
	for (long c = 0; c < a.cases; c++) {
		Shape sh;
		switch (c % 6) {
		case 0: sh = { 4, 2, 30, false, 0 }; break;
		case 1: sh = { 8, 3, 50, false, 0 }; break;
		case 2: sh = { 20, 5, 120, true, g.range(0, 3) }; break;
		case 3: sh = { 300, 40, g.range(100, 500), true, g.range(0, 4) }; break;
		case 4: sh = { 60, 1, 150, true, 0 }; break;
		default: sh = { 12, 12, 80, true, 4 }; break;
		}
		int kind = g.range(0, 4);
		int dir = kind == 1 || kind == 3 ? -1 : 1;
		vt::Line ln("case");
		ln.i("id", c).i("dir", dir).i("kind", kind);
		ln.end();
		vt::flush();
		vt::watchdog(20);
		auto id = [](const Elem& e) { return e; };
		if (kind == 0) {
			Frontier<Elem, LessP, HashE, EqE> f;
			drive(f, g, sh, id, id);
		} else if (kind == 1) {
			Frontier<Elem, GreaterP, BadHash, EqE> f;
			drive(f, g, sh, id, id);
		} else if (kind == 2) {
			Frontier<Elem, LessP, BadHash, EqE, std::deque<Elem>> f(LessP(), 3, BadHash(), EqE());
			drive(f, g, sh, id, id);
		} else if (kind == 3) {
			std::deque<Elem> arena;
			Frontier<Elem*, LessPtr, HashPtr, EqPtr> f;
			drive(f, g, sh, [&](const Elem& e) { arena.push_back(e); return &arena.back(); }, [](Elem* e) { return e ? *e : Elem { 0, 0, -1 }; });
		} else {
			// plain integers with the default ordering: key = priority
			Frontier<int> f;
			int n = sh.nkeys;
			for (int s = 0; s < sh.steps; s++) {
				int op = g.range(0, 9), k = g.range(-n, n);
				auto fin = [&](vt::Line& q) { q.i("size", (long long)f.Size()).b("empty", f.Empty()); q.end(); };
				std::vector<int> kv { k, k, 0 };
				if (op < 5) {
					auto [p, ins] = f.Push(k);
					vt::Line q("push");
					q.arr("x", kv).b("ins", ins).arr("got", std::vector<int> { *p, *p, 0 });
					fin(q);
				} else if (op < 7) {
					auto r = f.Remove(k);
					vt::Line q("remove");
					q.i("k", k).i("n", (long long)r);
					fin(q);
				} else if (op < 8) {
					auto p = f.Find(k);
					vt::Line q("find");
					q.i("k", k).b("found", p != nullptr).arr("x", std::vector<int> { p ? *p : 0, p ? *p : 0, 0 });
					fin(q);
				} else if (!f.Empty()) {
					int x = f.Pop();
					vt::Line q("pop");
					q.arr("x", std::vector<int> { x, x, 0 });
					fin(q);
				}
				if (g.chance(1, 20)) {
					std::vector<std::vector<int>> all;
					for (int x : f) all.push_back({ x, x, 0 });
					vt::Line q("iter");
					q.arr2("s", all);
					fin(q);
				}
			}
		}
	}
	return vt::finish();
}
