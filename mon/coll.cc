// Boxes, trees of boxes and collections of entities against linear scans.
#include "ent.hh"
#include "../mon/ref.hh"
using namespace ent;
static mon::Mon M;

// ---------------------------------------------------------------- boxes
struct Box { double lo[3], hi[3]; };
static std::string str(Box const &b) { return gen::str(V3(b.lo[0], b.lo[1], b.lo[2])) + gen::str(V3(b.hi[0], b.hi[1], b.hi[2])); }
static bool meets(Box const &a, Box const &b) { for (int i = 0; i < 3; ++i) if (a.lo[i] > b.hi[i] || b.lo[i] > a.hi[i]) return false; return true; }
static double near_dist(Box const &b, V3 const &q) { double c[3] = {q.x, q.y, q.z}, s = 0; for (int i = 0; i < 3; ++i) { double d = std::max(0.0, std::max(b.lo[i] - c[i], c[i] - b.hi[i])); s += d * d; } return std::sqrt(s); }
static double far_dist(Box const &b, V3 const &q) { double c[3] = {q.x, q.y, q.z}, s = 0; for (int i = 0; i < 3; ++i) { double d = std::max(std::fabs(b.lo[i] - c[i]), std::fabs(b.hi[i] - c[i])); s += d * d; } return std::sqrt(s); }
static double coordinate(Rng &r, int style) {
  switch (style) {
  case 0: return double(r.i(-4, 4));                 // touching sides
  case 1: return r.u(-10, 10);
  case 2: return 1e3 + r.u(-1, 1);
  default: return r.sgn() * r.logu(1e-3, 1e4);
  }
}
static Box random_box(Rng &r, int style) {
  Box b;
  for (int i = 0; i < 3; ++i) {
    double x = coordinate(r, style), y = style == 1 || style == 2 ? x + r.logu(1e-3, 3) : coordinate(r, style);
    if (r.p(.12)) y = x; // flat
    b.lo[i] = std::min(x, y); b.hi[i] = std::max(x, y);
  }
  return b;
}
static acme::aabb::ptr make(Box const &b, int id, int pos = 0) {
  return std::make_shared<acme::aabb>(acme::point(b.lo[0], b.lo[1], b.lo[2]), acme::point(b.hi[0], b.hi[1], b.hi[2]), id, pos);
}
static bool same(acme::aabb const &g, Box const &b) {
  for (int i = 0; i < 3; ++i) if (g.min(i) != b.lo[i] || g.max(i) != b.hi[i]) return false;
  return true;
}
static V3 query_point(Rng &r, Box const &b, int style) {
  double c[3];
  for (int i = 0; i < 3; ++i) c[i] = r.p(.4) ? r.pick({b.lo[i], b.hi[i], (b.lo[i] + b.hi[i]) / 2}) : r.p(.5) ? b.lo[i] + (b.hi[i] - b.lo[i]) * r.u(-.5, 1.5) : coordinate(r, style);
  return V3(c[0], c[1], c[2]);
}
static uint64_t hash(Box const &b) { return mon::hash_bytes(&b, sizeof b); }
static void boxes(Rng &r) {
  int style = r.i(0, 3);
  Box a = random_box(r, style), b = random_box(r, style);
  V3 q = query_point(r, a, style);
  M.describe = [&] { return str(a) + " and " + str(b) + " and " + gen::str(q); };
  M.eval(hash(a) ^ mon::mix(hash(b)), true);
  // corners in any order
  double c[6]; for (int i = 0; i < 3; ++i) { bool s = r.p(.3); c[i] = s ? a.hi[i] : a.lo[i]; c[3 + i] = s ? a.lo[i] : a.hi[i]; }
  int id = r.i(0, 1000), pos = r.i(0, 1000);
  acme::aabb x(c[0], c[1], c[2], c[3], c[4], c[5], id, pos), x2(acme::point(c[0], c[1], c[2]), acme::point(c[3], c[4], c[5]), id, pos);
  auto y = make(b, 7);
  if (!same(x, a) || !same(x2, a) || x.id() != id || x.pos() != pos || x2.id() != id || x2.pos() != pos || !x.checkMaxMin()) M.fail("box", "made of its corners");
  bool t = meets(a, b);
  if (x.intersects(*y) != t || y->intersects(x) != t) M.fail("box-intersects", "expected " + std::to_string(t));
  acme::aabb o;
  bool g = acme::Intersection(x, *y, o);
  if (g != t) M.fail("box-intersection", "expected " + std::to_string(t));
  if (t && g) { Box w; for (int i = 0; i < 3; ++i) { w.lo[i] = std::max(a.lo[i], b.lo[i]); w.hi[i] = std::min(a.hi[i], b.hi[i]); } if (!same(o, w)) M.fail("box-intersection", "expected " + str(w)); }
  bool in = true; { double k[3] = {q.x, q.y, q.z}; for (int i = 0; i < 3; ++i) in = in && a.lo[i] <= k[i] && k[i] <= a.hi[i]; }
  if (x.isInside(to_point(q)) != in) M.fail("box-inside", "expected " + std::to_string(in));
  double s = 1e-12 * (1 + q.norm() + std::fabs(a.lo[0]) + std::fabs(a.lo[1]) + std::fabs(a.lo[2]) + std::fabs(a.hi[0]) + std::fabs(a.hi[1]) + std::fabs(a.hi[2]));
  double d = x.centerDistance(to_point(q)), e = x.exteriorDistance(to_point(q));
  if (!(std::fabs(d - near_dist(a, q)) <= s)) M.fail("box-distance", mon::num(d) + " expected " + mon::num(near_dist(a, q)));
  if (!(std::fabs(e - far_dist(a, q)) <= s)) M.fail("box-far-distance", mon::num(e) + " expected " + mon::num(far_dist(a, q)));
  // all of several boxes
  std::vector<acme::aabb::ptr> v; Box w = a; int n = r.i(1, 6);
  for (int i = 0; i < n; ++i) { Box k = random_box(r, style); if (i == 0) w = k; v.push_back(make(k, i)); for (int j = 0; j < 3; ++j) { w.lo[j] = std::min(w.lo[j], k.lo[j]); w.hi[j] = std::max(w.hi[j], k.hi[j]); } }
  acme::aabb m1(v, id, pos), m2(x); m2.merged(v);
  if (!same(m1, w) || !same(m2, w) || m1.id() != id || m2.id() != id) M.fail("box-merged", "expected " + str(w));
  { // of no boxes, and without corners
    acme::aabb e0(x), e1(acme::aabb::vecptr(), id, pos); e0.merged(acme::aabb::vecptr()); Box z; for (int i = 0; i < 3; ++i) z.lo[i] = z.hi[i] = 0;
    if (!same(e0, z) || !same(e1, z) || e0.id() != id) M.fail("box-merged", "of no boxes");
    acme::aabb cl(x); cl.clear(); bool nan = true; for (int i = 0; i < 3; ++i) nan = nan && std::isnan(cl.min(i)) && std::isnan(cl.max(i));
    if (!nan) M.fail("box-clear", "has corners");
    double size = 0, off = 0; for (int i = 0; i < 3; ++i) { size = std::max(size, std::max(std::fabs(a.lo[i]), std::fabs(a.hi[i]))); off = std::max(off, std::max(std::fabs(a.lo[i] - b.lo[i]), std::fabs(a.hi[i] - b.hi[i]))); }
    acme::aabb cp(x);
    if (!x.isApprox(cp) || !cp.isApprox(x)) M.fail("box-approx", "not like its copy");
    if (off > 1e-3 * size && (x.isApprox(*y) || y->isApprox(x))) M.fail("box-approx", "like another box");
    int k = r.i(0, 2); bool lo = r.p(.5); double n = std::sqrt(lo ? a.lo[0] * a.lo[0] + a.lo[1] * a.lo[1] + a.lo[2] * a.lo[2] : a.hi[0] * a.hi[0] + a.hi[1] * a.hi[1] + a.hi[2] * a.hi[2]), tol = r.logu(1e-6, 1e-2), f = r.pick({.5, 2.0});
    if (lo) cp.min(k) -= f * tol * n; else cp.max(k) += f * tol * n;
    if (n > 0 && (x.isApprox(cp, tol) != (f < 1) || cp.isApprox(x, tol) != (f < 1))) M.fail("box-approx", "tolerance " + mon::num(tol) + " and a corner moved by " + mon::num(f * tol) + " of its distance");
    M.seen(f < 1 ? "boxes:approx" : "boxes:not approx");
  }
  // of three points
  V3 p[3]; for (auto &k : p) k = query_point(r, a, style);
  acme::aabb k1(x), k2(x); acme::point P[3] = {to_point(p[0]), to_point(p[1]), to_point(p[2])}; k1.clamp(P); k2.clamp(P[0], P[1], P[2]);
  w.lo[0] = std::min(p[0].x, std::min(p[1].x, p[2].x)); w.lo[1] = std::min(p[0].y, std::min(p[1].y, p[2].y)); w.lo[2] = std::min(p[0].z, std::min(p[1].z, p[2].z));
  w.hi[0] = std::max(p[0].x, std::max(p[1].x, p[2].x)); w.hi[1] = std::max(p[0].y, std::max(p[1].y, p[2].y)); w.hi[2] = std::max(p[0].z, std::max(p[1].z, p[2].z));
  if (!same(k1, w) || !same(k2, w)) M.fail("box-clamp", "expected " + str(w));
  // moved and set
  acme::aabb mv(x); mv.translate(to_point(q)); double qq[3] = {q.x, q.y, q.z};
  for (int i = 0; i < 3; ++i) if (std::fabs(mv.min(i) - (a.lo[i] + qq[i])) > s || std::fabs(mv.max(i) - (a.hi[i] + qq[i])) > s) M.fail("box-translate", "by " + gen::str(q));
  acme::aabb st; st.min(c[0], c[1], c[2]); st.max(c[3], c[4], c[5]);
  bool ordered = true; for (int i = 0; i < 3; ++i) ordered = ordered && c[i] <= c[3 + i];
  if (st.checkMaxMin() != ordered) M.fail("box-check", "expected " + std::to_string(ordered));
  if (st.updateMaxMin() != ordered || !same(st, a) || !st.checkMaxMin()) M.fail("box-update", "expected " + str(a));
  bool point = a.lo[0] == a.hi[0] && a.lo[1] == a.hi[1] && a.lo[2] == a.hi[2];
  if (point && !x.isDegenerated()) M.fail("box-degenerated", "a point");
  if (a.hi[0] - a.lo[0] > 1e-4 * (1 + std::fabs(a.lo[0]) + std::fabs(a.lo[1]) + std::fabs(a.lo[2])) && x.isDegenerated()) M.fail("box-degenerated", "not degenerated");
  M.seen(t ? "boxes:meet" : "boxes:apart"); M.seen(in ? "boxes:point in" : "boxes:point out");
  M.sample(M.describe);
}

// ---------------------------------------------------------------- trees
static std::vector<Box> many(Rng &r, int n) {
  std::vector<Box> v; int style = r.i(0, 3), kind = r.i(0, 5);
  Box one = random_box(r, style);
  for (int i = 0; i < n; ++i) {
    Box b = random_box(r, style);
    if (kind == 1) b = one;                                                   // all the same
    else if (kind == 2) { double c = r.u(-5, 5); for (int j = 0; j < 3; ++j) { b.lo[j] = -c - 10 - i; b.hi[j] = c + 10 + i; } } // nested
    else if (kind == 3) { int k = r.i(0, 2); b = one; b.lo[k] += i; b.hi[k] += i; } // a row
    else if (kind == 4 && r.p(.5) && i) b = v[size_t(r.i(0, i - 1))];
    else if (kind == 5) { for (int j = 0; j < 3; ++j) b.hi[j] = b.lo[j]; }    // points
    v.push_back(b);
  }
  return v;
}
static acme::aabb::vecptr pointers(std::vector<Box> const &v, int first = 0) { acme::aabb::vecptr p; for (size_t i = 0; i < v.size(); ++i) p.push_back(make(v[i], first + int(i), 0)); return p; }
static std::string show(std::vector<Box> const &v) { std::string s = std::to_string(v.size()) + " boxes"; for (size_t i = 0; i < std::min<size_t>(v.size(), 6); ++i) s += " " + str(v[i]); return s; }
typedef std::pair<void const *, void const *> PP;
static std::vector<PP> sorted(acme::aabb::vecpairptr const &l) { std::vector<PP> o; for (auto const &p : l) o.push_back(PP(p.first.get(), p.second.get())); std::sort(o.begin(), o.end()); return o; }
static std::vector<PP> scan(acme::aabb::vecptr const &p, std::vector<Box> const &a, acme::aabb::vecptr const &q, std::vector<Box> const &b, bool swap) {
  std::vector<PP> o;
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (meets(a[i], b[j])) o.push_back(swap ? PP(q[j].get(), p[i].get()) : PP(p[i].get(), q[j].get()));
  std::sort(o.begin(), o.end());
  return o;
}
static int howmany(Rng &r) { return r.p(.06) ? r.i(200, 1500) : r.p(.3) ? r.i(0, 3) : r.i(2, 40); }
static void trees(Rng &r) {
  int n = howmany(r), m = n > 100 ? r.i(0, 60) : howmany(r); if (n <= 100 && m > 100 && r.p(.5)) m = 50;
  std::vector<Box> a = many(r, n), b = many(r, m);
  if (r.p(.3)) b = many(r, 1);
  if (r.p(.2) && m) { for (size_t i = 0; i < b.size() && i < a.size(); i += 2) b[i] = a[i]; }
  auto p = pointers(a), q = pointers(b);
  M.describe = [&] { return show(a) + " and " + show(b); };
  M.mark();
  acme::AABBtree s, t;
  if (!s.isEmpty()) M.fail("tree-empty", "a new tree");
  if (r.p(.3)) { s.build(pointers(many(r, r.i(1, 20)))); if (r.p(.5)) { s.clear(); if (!s.isEmpty()) M.fail("tree-clear", "not empty"); } } // used before
  s.build(p); t.build(q);
  if (s.isEmpty() != a.empty() || t.isEmpty() != b.empty()) M.fail("tree-empty", "after build");
  bool sw = r.p(.4);
  acme::aabb::vecpairptr l, k;
  if (sw) s.intersection(t, l, true); else s.intersection(t, l);
  auto want = scan(p, a, q, b, sw);
  M.eval(mon::mix(a.empty() ? 1 : hash(a[0])) ^ mon::mix(b.empty() ? 2 : hash(b[0])) ^ want.size(), !want.empty());
  if (sorted(l) != want) M.fail("tree-pairs", std::to_string(l.size()) + " pairs, expected " + std::to_string(want.size()) + (sw ? " swapped" : ""));
  t.intersection(s, k);
  if (sorted(k) != scan(q, b, p, a, false)) M.fail("tree-pairs", std::to_string(k.size()) + " pairs in reverse, expected " + std::to_string(want.size()));
  if (n < 60) { acme::aabb::vecpairptr e; s.intersection(s, e); if (sorted(e) != scan(p, a, p, a, false)) M.fail("tree-self", std::to_string(e.size()) + " pairs with itself"); }
  if (r.p(.3)) { // asked for a pair for which something holds
    uint64_t key = r.next(); int few = r.p(.3) ? 0 : r.i(1, 60); bool cs = r.p(.4);
    auto holds = [&](void const *u, void const *v) { if (!few) return false; size_t i = size_t(-1), j = size_t(-1); for (size_t z = 0; z < p.size(); ++z) if (p[z].get() == u || p[z].get() == v) i = z; for (size_t z = 0; z < q.size(); ++z) if (q[z].get() == u || q[z].get() == v) j = z; return mon::mix(key ^ mon::mix(i * 4099 + j)) % uint64_t(few) == 0; };
    if (n * m < 4000) {
      auto all = scan(p, a, q, b, cs); std::vector<PP> asked; bool any = false;
      for (auto const &x : all) any = any || holds(x.first, x.second);
      bool g = s.collision(t, [&](acme::aabb::ptr const &u, acme::aabb::ptr const &v) { asked.push_back(PP(u.get(), v.get())); return holds(u.get(), v.get()); }, cs);
      if (g != any) M.fail("tree-collision", "expected " + std::to_string(any));
      std::sort(asked.begin(), asked.end());
      if (!any && asked != all) M.fail("tree-collision", std::to_string(asked.size()) + " pairs asked about, expected " + std::to_string(all.size()));
      if (!std::includes(all.begin(), all.end(), asked.begin(), asked.end())) M.fail("tree-collision", "asked about a pair that is apart, or twice");
      M.seen(any ? "collision:yes" : "collision:no");
    }
  }
  // the boxes are those given
  for (size_t i = 0; i < a.size(); ++i) if (!same(*p[i], a[i]) || p[i]->id() != int(i)) { M.fail("tree-changed", "a box was changed"); break; }
  M.seen(want.empty() ? "trees:none" : "trees:some"); M.seen("pairs", long(want.size()));
  if (a.size() > 100) M.seen("trees:large");
  M.sample(M.describe);
}

// ---------------------------------------------------------------- collections
static const int TYPES[] = {POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL};
struct Item { Ent e; acme::entity *p; };
static bool clampable(int t) { return t == POINT || t == SEGMENT || t == TRIANGLE || t == DISK || t == BALL; }
static Ent moved(Ent e, Pose const &P) { e.o = P * e.o; e.d = P.R * e.d; for (auto &x : e.v) x = P * x; return e; }
static bool alike(Ent const &a, Ent const &b, double tol) {
  if (a.type != b.type) return false;
  if (a.type == NONE) return true;
  double g = (a.o - b.o).norm();
  if (a.type == SEGMENT || a.type == TRIANGLE) { g = 0; for (int i = 0; i < (a.type == SEGMENT ? 2 : 3); ++i) g = std::max(g, (a.v[i] - b.v[i]).norm()); }
  else if (a.type != POINT && a.type != BALL) g = std::max(g, (a.d - b.d).norm());
  return g <= tol && std::fabs(a.R - b.R) <= tol;
}
static Ent item(Rng &r, int only) {
  int t = only >= 0 ? only : r.p(.08) ? int(NONE) : TYPES[r.i(0, 7)];
  Ent e; if (t == NONE) return e;
  e = through(r, t, V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)), dirvec(r));
  if (r.p(.12)) { // without extent
    if (t == SEGMENT) e.v[1] = e.v[0]; else if (t == TRIANGLE) e.v[1] = e.v[2]; else if (t == DISK || t == BALL) e.R = 0; else if (t != POINT) e.d = V3(0, 0, 0);
  }
  return e;
}
static bool flat_ent(Ent const &e) { return e.type == SEGMENT ? (e.v[1] - e.v[0]).norm() == 0 : e.type == TRIANGLE ? (e.v[1] - e.v[2]).norm() == 0 : (e.type == DISK || e.type == BALL) ? e.R == 0 : (e.type == LINE || e.type == RAY || e.type == PLANE) ? e.d.norm() == 0 : false; }
struct KindApi { const char *name; bool (acme::collection::*contain)() const; bool (acme::collection::*are)() const; bool (acme::collection::*is)(acme::integer) const; void (acme::collection::*remove)(); acme::integer (acme::collection::*count)() const; };
#define API(N, K) {N, &acme::collection::contain##K, &acme::collection::are##K, &acme::collection::is##K, &acme::collection::remove##K, &acme::collection::count##K}
static const KindApi API_[] = {API("none", None), API("point", Point), API("line", Line), API("ray", Ray), API("plane", Plane), API("segment", Segment), API("triangle", Triangle), API("disk", Disk), API("ball", Ball), API("clampable", Clampable), API("non-clampable", NonClampable)};
static const int KIND_OF[] = {NONE, POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL};
static bool is_kind(int k, Ent const &e) { return k < 9 ? e.type == KIND_OF[k] : k == 9 ? clampable(e.type) : e.type == LINE || e.type == RAY || e.type == PLANE; }
static void same_items(acme::collection &c, std::vector<Item> const &v, const char *when) {
  if (c.size() != int(v.size())) { M.fail("collection-size", std::to_string(c.size()) + " expected " + std::to_string(v.size()) + " after " + when); return; }
  for (size_t i = 0; i < v.size(); ++i) {
    if (c[int(i)].get() != v[i].p) { M.fail("collection-order", std::to_string(i) + " is another entity after " + when); return; }
    if (!alike(read(*v[i].p), v[i].e, 1e-11 * (100 + v[i].e.o.norm() + v[i].e.v[0].norm()))) { M.fail("collection-item", read(*v[i].p).str() + " expected " + v[i].e.str() + " after " + when); return; }
  }
}
static void collections(Rng &r) {
  std::vector<Item> v; std::vector<acme::entity::ptr> keep; std::string log;
  int only = r.p(.35) ? (r.p(.1) ? int(NONE) : TYPES[r.i(0, 7)]) : -1;
  M.describe = [&] { std::string s = log + " holding"; for (auto const &x : v) s += " " + x.e.str(); return s; };
  auto fresh = [&] { Ent e = item(r, r.p(.85) ? only : -1); acme::entity::ptr p(ent::make(e).release()); keep.push_back(p); return Item{e, p.get()}; };
  std::unique_ptr<acme::collection> c;
  if (r.p(.5)) c.reset(new acme::collection());
  else { acme::entity::vecptr in; for (int k = r.i(0, 6); k > 0; --k) { v.push_back(fresh()); in.push_back(keep.back()); } c.reset(new acme::collection(in)); log = "made;"; }
  int n = r.i(1, 12);
  for (int s = 0; s < n; ++s) {
    int op = r.i(0, 9);
    if (op <= 3) { for (int k = r.i(1, 4); k > 0; --k) { v.push_back(fresh()); c->push_back(keep.back()); } log += " push;"; }
    else if (op == 4 && !v.empty()) { int i = r.i(0, int(v.size()) - 1); v[size_t(i)] = fresh(); (*c)[i] = keep.back(); log += " set;"; }
    else if (op == 5 && !v.empty()) { int k = r.i(0, int(v.size())); v.resize(size_t(k)); c->resize(k); log += " resize;"; }
    else if (op == 6) { Pose P; P.t = V3(r.u(-5, 5), r.u(-5, 5), r.u(-5, 5)); c->translate(to_vec(P.t)); for (auto &x : v) x.e = moved(x.e, P); log += " translate;"; }
    else if (op == 7) { Pose P; P.R = gen::rotation(r); P.t = V3(r.u(-5, 5), r.u(-5, 5), r.u(-5, 5)); c->transform(to_affine(P)); for (auto &x : v) x.e = moved(x.e, P); log += " transform;"; }
    else if (op == 8) { double a = r.u(-3, 3); Pose P; P.R.r0 = V3(std::cos(a), -std::sin(a), 0); P.R.r1 = V3(std::sin(a), std::cos(a), 0); P.R.r2 = V3(0, 0, 1); c->rotate(a, acme::vec3(0, 0, 1)); for (auto &x : v) x.e = moved(x.e, P); log += " rotate;"; }
    else if (op == 9 && r.p(.1)) { c->clear(); v.clear(); log += " clear;"; }
    same_items(*c, v, log.c_str());
    // what it holds
    for (int k = 0; k < 11; ++k) {
      long cnt = 0; for (auto const &x : v) cnt += is_kind(k, x.e);
      auto const &A = API_[k];
      if (((*c).*A.count)() != cnt) M.fail("collection-count", std::string(A.name) + " " + std::to_string(((*c).*A.count)()) + " expected " + std::to_string(cnt));
      if (((*c).*A.contain)() != (cnt > 0)) M.fail("collection-contain", A.name);
      if (((*c).*A.are)() != (cnt == long(v.size()))) M.fail("collection-are", A.name);
      for (size_t i = 0; i < v.size(); ++i) if (((*c).*A.is)(int(i)) != is_kind(k, v[i].e)) M.fail("collection-is", A.name);
    }
    long deg = 0; bool has_none = false; for (auto const &x : v) { deg += x.p->isDegenerated(); has_none |= x.e.type == NONE; if (x.e.type != NONE && x.p->isDegenerated() != flat_ent(x.e)) M.fail("degenerated", x.e.str()); }
    if (c->countDegenerated() != deg || c->containDegenerated() != (deg > 0) || c->areDegenerated() != (deg == long(v.size()))) M.fail("collection-degenerated", std::to_string(c->countDegenerated()) + " expected " + std::to_string(deg));
    for (size_t i = 0; i < v.size(); ++i) if (c->isDegenerated(int(i)) != v[i].p->isDegenerated()) M.fail("collection-degenerated", "of one");
    auto all = c->count();
    if (all.size() != 12 || all["degenerated"] != deg) M.fail("collection-count-all", "degenerated");
    for (int k = 0; k < 11; ++k) { long cnt = 0; for (auto const &x : v) cnt += is_kind(k, x.e); if (!all.count(API_[k].name) || all[API_[k].name] != cnt) M.fail("collection-count-all", API_[k].name); }
  }
  M.eval(mon::hash_str(M.describe()), !v.empty());
  M.seen("collections"); M.seen("entities", long(v.size()));
  M.sample(M.describe);
  // take out
  for (int k = r.i(0, 2); k > 0; --k) {
    int what = r.i(0, 11);
    if (what == 11) { c->removeDegenerated(); v.erase(std::remove_if(v.begin(), v.end(), [](Item const &x) { return x.p->isDegenerated(); }), v.end()); }
    else { ((*c).*API_[what].remove)(); v.erase(std::remove_if(v.begin(), v.end(), [&](Item const &x) { return is_kind(what, x.e); }), v.end()); }
    log += std::string(" remove ") + (what == 11 ? "degenerated" : API_[what].name) + ";";
    same_items(*c, v, log.c_str());
    M.seen("removals");
  }
  // boxes of all
  bool can = true; for (auto const &x : v) can = can && clampable(x.e.type);
  acme::aabb::vecptr b; bool threw = false;
  if (r.p(.5)) b.push_back(std::make_shared<acme::aabb>());
  try { c->clamp(b); } catch (std::exception const &) { threw = true; }
  if (threw == can) M.fail("collection-clamp", threw ? "refused" : "not refused");
  else if (can) {
    bool ok = b.size() == v.size();
    for (size_t i = 0; ok && i < v.size(); ++i) {
      acme::vec3 lo, hi; v[i].p->clamp(lo, hi);
      ok = b[i]->id() == int(i); for (int j = 0; j < 3; ++j) ok = ok && b[i]->min(j) == lo(j) && b[i]->max(j) == hi(j);
    }
    if (!ok) M.fail("collection-clamp", "boxes of the entities");
    M.seen("collections:boxed");
  } else M.seen("collections:not boxed");
}
static void lookups(Rng &r) {
  static const int CL[] = {POINT, SEGMENT, TRIANGLE, DISK, BALL};
  std::vector<Ent> a, b; std::vector<acme::entity::ptr> pa, pb;
  auto fill = [&](std::vector<Ent> &e, std::vector<acme::entity::ptr> &p, acme::collection &c, int n) {
    for (int i = 0; i < n; ++i) { Ent x = through(r, CL[r.i(0, 4)], V3(r.u(-8, 8), r.u(-8, 8), r.u(-8, 8)), dirvec(r)); e.push_back(x); p.push_back(acme::entity::ptr(ent::make(x).release())); c.push_back(p.back()); } };
  acme::collection c, d, out;
  // they may have held, and found, other entities before
  for (acme::collection *q : {&c, &d}) if (r.p(.3)) {
    std::vector<Ent> e; std::vector<acme::entity::ptr> p; fill(e, p, *q, r.i(1, 12)); q->buildAABBtree();
    if (r.p(.5)) q->clear(); else { q->removePoint(); q->removeSegment(); q->removeTriangle(); q->removeDisk(); q->removeBall(); }
    if (q->size() != 0) M.fail("lookup-emptied", std::to_string(q->size()) + " entities left");
    M.seen("lookups:used before");
  }
  fill(a, pa, c, r.p(.1) ? r.i(0, 1) : r.i(1, 40)); fill(b, pb, d, r.p(.1) ? r.i(0, 1) : r.i(1, 20));
  M.describe = [&] { std::string s; for (auto const &x : a) s += " " + x.str(); s += " ||"; for (auto const &x : b) s += " " + x.str(); return s; };
  auto box = [&](acme::entity::ptr const &p) { acme::vec3 lo, hi; p->clamp(lo, hi); Box k; for (int i = 0; i < 3; ++i) { k.lo[i] = lo(i); k.hi[i] = hi(i); } return k; };
  c.buildAABBtree(); d.buildAABBtree();
  if (r.p(.4)) { acme::vec3 t(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)); c.translate(t); c.buildAABBtree(); } // moved and built again
  if (r.p(.3)) { acme::entity::ptr p(ent::make(through(r, BALL, V3(0, 0, 0), dirvec(r))).release()); c.push_back(p); pa.push_back(p); a.push_back(read(*p)); c.buildAABBtree(); }
  if (r.p(.3)) out.push_back(acme::entity::ptr(new acme::none()));
  std::vector<PP> want, got; std::vector<void const *> one, some;
  for (auto const &x : pa) for (auto const &y : pb) if (meets(box(x), box(y))) { want.push_back(PP(x.get(), y.get())); one.push_back(x.get()); }
  std::sort(want.begin(), want.end()); std::sort(one.begin(), one.end());
  bool g = c.intersection(d, out);
  M.eval(mon::hash_str(M.describe()), !want.empty());
  if (g != !want.empty() || out.size() != int(2 * want.size())) M.fail("lookup-collection", std::to_string(out.size()) + " entities, expected " + std::to_string(2 * want.size()));
  else { for (int i = 0; i < out.size(); i += 2) got.push_back(PP(out[i].get(), out[i + 1].get())); std::sort(got.begin(), got.end()); if (got != want) M.fail("lookup-collection", "other pairs"); }
  auto list = [&] { some.clear(); for (int i = 0; i < out.size(); ++i) some.push_back(out[i].get()); std::sort(some.begin(), some.end()); };
  g = c.intersection(d.ptrAABBtree(), out); list();
  if (g != !one.empty() || some != one) M.fail("lookup-tree", std::to_string(out.size()) + " entities, expected " + std::to_string(one.size()));
  acme::aabb::vecptr bs; d.clamp(bs); g = c.intersection(bs, out); list();
  if (g != !one.empty() || some != one) M.fail("lookup-boxes", std::to_string(out.size()) + " entities, expected " + std::to_string(one.size()));
  Box k = random_box(r, 1); one.clear(); for (auto const &x : pa) if (meets(box(x), k)) one.push_back(x.get());
  std::sort(one.begin(), one.end()); g = c.intersection(::make(k, 0), out); list();
  if (g != !one.empty() || some != one) M.fail("lookup-box", std::to_string(out.size()) + " entities, expected " + std::to_string(one.size()));
  M.seen(want.empty() ? "lookups:none" : "lookups:some"); M.seen("lookups:pairs", long(want.size()));
}
static void pairwise(Rng &r) {
  static const int SUP[] = {POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE};
  acme::collection c, out; std::vector<acme::entity::ptr> p; std::vector<Ent> e;
  bool balls = r.p(.3); int n = r.i(0, 6);
  for (int i = 0; i < n; ++i) { Ent x = through(r, balls ? r.pick({int(LINE), int(RAY), int(PLANE), int(SEGMENT)}) : SUP[r.i(0, 5)], V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), dirvec(r)); e.push_back(x); p.push_back(acme::entity::ptr(ent::make(x).release())); c.push_back(p.back()); }
  M.describe = [&] { std::string s; for (auto const &x : e) s += " " + x.str(); return s; };
  if (r.p(.3)) out.push_back(acme::entity::ptr(new acme::none()));
  c.intersection(out, 1e-8);
  M.eval(mon::hash_str(M.describe()), n > 1);
  int k = 0;
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j, ++k) {
    if (k >= out.size()) continue;
    std::unique_ptr<acme::entity> w(acme::Intersection(p[size_t(i)].get(), p[size_t(j)].get(), 1e-8));
    if (read(*w).str() != read(*out[k]).str()) { M.fail("pairwise", read(*out[k]).str() + " expected " + read(*w).str() + " for " + std::to_string(i) + " and " + std::to_string(j)); return; }
  }
  if (out.size() != k) M.fail("pairwise", std::to_string(out.size()) + " intersections, expected " + std::to_string(k));
  M.seen("pairwise", k);
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("boxes", 100000, 2000000, boxes);
  M.run("trees", 20000, 400000, trees);
  M.run("collections", 20000, 300000, collections);
  M.run("lookups", 10000, 150000, lookups);
  M.run("pairwise", 10000, 150000, pairwise);
  return M.finish();
}
