// Intersections of geometric entities are their common points; predicates tell how they lie to each other.
#include "ent.hh"
#include <malloc.h>
using namespace ent;
static mon::Mon M;
static const int TYPES[] = {POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL};

enum Rel { CROSS, COPLANAR, COPLANAR_APART, COLLINEAR, COLLINEAR_APART, PARALLEL, ANYWHERE, SAME, ORTHO, NREL };
static const char *RELNAME[] = {"crossing", "coplanar", "coplanar-apart", "collinear", "collinear-apart", "parallel", "anywhere", "same", "orthogonal"};
struct Pair { Ent a, b; int rel; bool planted; V3 p; };

static V3 perp(Rng &r, V3 const &w) { double t = r.u(-M_PI, M_PI); if (r.p(.2)) t = r.pick({0.0, M_PI / 2, M_PI}); return inplane(w, 0) * std::cos(t) + inplane(w, 1) * std::sin(t); }
static V3 tilted(Rng &r, V3 const &w, double lo) { // a unit vector at least lo away (in sine) from +-w
  for (;;) { V3 x = dirvec(r); if (x.cross(w).norm() > lo) return x; }
}
// a unit vector for a second entity so that the pair is transversal
static V3 other(Rng &r, Ent const &a, int tb) {
  bool lb = tb == LINE || tb == RAY || tb == SEGMENT, pb = tb == PLANE || tb == TRIANGLE || tb == DISK;
  if (!(a.linear() || a.planar()) || !(lb || pb)) return dirvec(r);
  V3 w = a.u();
  if (a.linear() == lb) return tilted(r, w, .05);
  for (;;) { V3 x = dirvec(r); if (std::fabs(x.dot(w)) > .05) return x; }
}
static Pair pairof(Rng &r, int ta, int tb, int rel) {
  Pair P; P.rel = rel; P.planted = true;
  V3 p = V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)) * r.pick({0.0, 1.0, 10.0}), w = dirvec(r);
  P.p = p;
  P.a = through(r, ta, p, w);
  bool la = P.a.linear(), pa = P.a.planar(), lb = tb == LINE || tb == RAY || tb == SEGMENT, pb = tb == PLANE || tb == TRIANGLE || tb == DISK;
  if (rel == SAME && ta == tb) { P.b = P.a; if (r.p(.3) && ta == SEGMENT) std::swap(P.b.v[0], P.b.v[1]); return P; }
  if ((rel == COLLINEAR || rel == COLLINEAR_APART) && la && lb) {
    V3 d = r.p(.5) ? w : -w;
    P.b = through(r, tb, p, d);
    if (ta == SEGMENT && tb == SEGMENT && rel == COLLINEAR && r.p(.4)) { // common ends
      for (auto &e : P.b.v) if (r.p(.6)) e = P.a.v[(e - p).dot(w) > 0];
    }
    if (rel == COLLINEAR_APART) { P.planted = false; P.b.shift(w * r.u(-12, 12)); }
    return P;
  }
  if ((rel == COPLANAR || rel == COPLANAR_APART) && (la || pa) && (lb || pb) ) {
    // the plane: normal w if a is planar, else any normal across w
    V3 n = pa ? w : perp(r, w);
    V3 x = pb ? n : perp(r, n);
    if (la && lb) while (x.cross(w).norm() < .05) x = perp(r, n);
    // a line through a vertex of the triangle or along one of its edges
    if (ta == TRIANGLE && lb && r.p(.5)) { V3 const *v = P.a.v; int i = r.i(0, 2); x = r.p(.6) ? (v[i] - p).unit() : (v[(i + 1) % 3] - v[i]).unit(); if (r.p(.5)) x = -x; }
    P.b = through(r, tb, p, x);
    if (rel == COPLANAR_APART) { P.planted = false; V3 t = perp(r, n); P.b.shift(t * r.u(0, 6)); }
    return P;
  }
  if (rel == PARALLEL && (la || pa) && (lb || pb)) {
    V3 x = la == lb ? (r.p(.5) ? w : -w) : perp(r, w);
    P.b = through(r, tb, p, x);
    P.planted = false;
    V3 away = la && lb ? perp(r, w) : pa ? w : x;
    P.b.shift(away * (r.sgn() * r.u(.1, 4)));
    return P;
  }
  if (rel == ORTHO && (la || pa) && (lb || pb)) {
    P.b = through(r, tb, p, la == lb ? perp(r, w) : (r.p(.5) ? w : -w));
    if (r.p(.5)) { P.planted = false; P.b.shift(dirvec(r) * r.u(0, 4)); }
    return P;
  }
  if (rel == ANYWHERE) { P.planted = false; P.b = through(r, tb, p + dirvec(r) * r.u(0, 5), other(r, P.a, tb)); return P; }
  P.rel = CROSS;
  V3 x = other(r, P.a, tb);
  // a plane across the triangle that holds a vertex or is along an edge
  if (ta == TRIANGLE && pb && r.p(.4)) { V3 const *v = P.a.v; int i = r.i(0, 2); V3 d = r.p(.6) ? (v[i] - p).unit() : (v[(i + 1) % 3] - v[i]).unit(), y = d.cross(dirvec(r)).unit(); if (y.cross(P.a.u()).norm() > .05) x = y; }
  P.b = through(r, tb, p, x);
  return P;
}
static bool supported(int ta, int tb) {
  if (ta == BALL || tb == BALL) { int o = ta == BALL ? tb : ta; return o == LINE || o == RAY || o == PLANE || o == SEGMENT; }
  return true;
}
// triangle/disk and disk/disk in one plane are refused by the library; triangles in one plane have no entity for their common part
static bool in_one_plane(Pair const &P) {
  return P.a.planar() && P.b.planar() && (P.rel == COPLANAR || P.rel == COPLANAR_APART || P.rel == SAME) && P.a.type != PLANE && P.b.type != PLANE;
}

// q must be in the result, must not be in it, or no verdict
static int verdict(Ent const &a, Ent const &b, V3 const &q, double m) {
  if (a.strictly(q, m) && b.strictly(q, m)) return 1;
  if (!a.loosely(q, m) || !b.loosely(q, m)) return -1;
  return 0;
}
static void judge(Rng &r, Pair const &P, Ent const &R, const char *order) {
  double s = std::min(P.a.size(), P.b.size()), m = 1e-3 * s, tight = 1e-6 * (1 + P.p.norm());
  std::string tag = std::string(NAME[P.a.type]) + "-" + NAME[P.b.type];
  if (!finite(R)) { M.fail("not-a-number", tag + " " + order + ": " + R.str()); return; }
  if (P.planted && R.type == NONE) { M.fail("missed", tag + " " + order + ": no intersection, but " + str(P.p) + " is common"); return; }
  std::vector<V3> q;
  if (P.planted) q.push_back(P.p);
  // everything in the result is common
  if (R.type != NONE) {
    std::vector<V3> in;
    for (int i = 0; i < 6; ++i) in.push_back(R.sample(r));
    if (R.type == SEGMENT) { in.push_back(R.v[0]); in.push_back(R.v[1]); }
    if (R.type == TRIANGLE) for (auto &x : R.v) in.push_back(x);
    for (auto const &x : in) if (!P.a.loosely(x, tight) || !P.b.loosely(x, tight)) {
      M.fail("not-common", tag + " " + order + ": " + str(x) + " of the result " + R.str() + " is off by " + mon::num(std::max(P.a.off(x), P.b.off(x))) + " and out by " + mon::num(-std::min(P.a.margin(x), P.b.margin(x))));
      return;
    }
    q.insert(q.end(), in.begin(), in.end());
    M.seen("result:" + std::string(NAME[R.type]));
  }
  for (int i = 0; i < 3; ++i) { q.push_back(P.a.sample(r)); q.push_back(P.b.sample(r)); }
  // along the common line or plane of the two
  size_t n0 = q.size();
  for (size_t k = 0; k < n0; ++k) {
    V3 x = q[k];
    double t = r.sgn() * s * r.logu(2e-3, 3);
    if (P.a.linear()) q.push_back(x + P.a.u() * t);
    else if (P.b.linear()) q.push_back(x + P.b.u() * t);
    else if (P.a.planar() && P.b.planar()) {
      V3 c = P.a.u().cross(P.b.u());
      if (c.norm() > 1e-3) q.push_back(x + c.unit() * t);
      else q.push_back(x + inplane(P.a.u(), 0) * t + inplane(P.a.u(), 1) * (s * r.u(-2, 2)));
    } else if (P.a.planar() || P.b.planar()) { V3 n = P.a.planar() ? P.a.u() : P.b.u(); q.push_back(x + inplane(n, 0) * t + inplane(n, 1) * (s * r.u(-2, 2))); }
  }
  long yes = 0, no = 0;
  for (auto const &x : q) {
    int v = verdict(P.a, P.b, x, m);
    if (v > 0) { ++yes; if (!R.loosely(x, tight)) { M.fail("not-all", tag + " " + order + ": common point " + str(x) + " is not in the result " + R.str()); return; } }
    if (v < 0) { ++no; if (R.type != NONE && R.strictly(x, tight)) { M.fail("too-much", tag + " " + order + ": " + str(x) + " in the result " + R.str()); return; } }
  }
  M.seen("points common", yes); M.seen("points apart", no);
}
static void intersections(Rng &r) {
  int ta, tb;
  do { ta = TYPES[r.i(0, 7)]; tb = TYPES[r.i(0, 7)]; } while (!supported(ta, tb));
  Pair P = pairof(r, ta, tb, r.i(0, NREL - 1));
  if (ta == POINT || tb == POINT) { // on it, or well off it
    Ent &e = ta == POINT ? P.a : P.b; Ent const &f = ta == POINT ? P.b : P.a;
    if (r.p(.5)) { P.planted = false; e.o = e.o + dirvec(r) * r.u(.3, 6); }
    if (!P.planted && f.loosely(e.o, .05 + .2 * f.size())) return;
  }
  if (in_one_plane(P)) return;
  M.describe = [&] { return std::string(RELNAME[P.rel]) + ": " + P.a.str() + " and " + P.b.str(); };
  auto a = make(P.a), b = make(P.b);
  M.mark();
  std::unique_ptr<acme::entity> x(acme::Intersection(a.get(), b.get())), y(acme::Intersection(b.get(), a.get()));
  if (!x || !y) { M.fail("no-answer", "null"); return; }
  Ent X = read(*x), Y = read(*y);
  M.eval(P.a.hash() ^ mon::mix(P.b.hash()), X.type != NONE);
  judge(r, P, X, "in order"); judge(r, P, Y, "in reverse order");
  M.seen(std::string(RELNAME[P.rel]) + (X.type == NONE ? ":none" : ":some"));
  M.seen("pair " + std::string(NAME[std::min(ta, tb)]) + "-" + NAME[std::max(ta, tb)]);
  if (read(*a).str() != P.a.str() || read(*b).str() != P.b.str()) M.fail("changed", "an operand was changed");
  if (X.type != NONE) M.sample([&] { return M.describe() + " -> " + X.str(); });
}
// triangles in one plane: whether they overlap
static double separation(Ent const &a, Ent const &b, V3 const &n) { // largest gap along the edge normals (negative: depth)
  double best = -INF;
  for (int k = 0; k < 2; ++k) {
    Ent const &s = k ? b : a, &o = k ? a : b;
    for (int i = 0; i < 3; ++i) {
      V3 e = n.cross(s.v[(i + 1) % 3] - s.v[i]).unit();
      double ms = -INF, mi = INF; // s on one side
      double s0 = e.dot(s.v[i]), s2 = e.dot(s.v[(i + 2) % 3]);
      V3 out = s2 > s0 ? -e : e;
      for (auto const &w : s.v) ms = std::max(ms, out.dot(w));
      for (auto const &w : o.v) mi = std::min(mi, out.dot(w));
      best = std::max(best, mi - ms);
    }
  }
  return best;
}
static void coplanar_triangles(Rng &r) {
  V3 n = dirvec(r), p = V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3));
  Ent a = through(r, TRIANGLE, p, n), b = through(r, TRIANGLE, p, r.p(.5) ? n : -n);
  if (r.p(.7)) b.shift(perp(r, n) * r.u(0, 5));
  M.describe = [&] { return a.str() + " and " + b.str(); };
  double gap = separation(a, b, n);
  if (std::fabs(gap) < 1e-5) { M.seen("coplanar-triangles:no verdict"); return; }
  auto x = make(a), y = make(b);
  acme::none dummy;
  auto &ta = dynamic_cast<acme::triangle &>(*x), &tb = dynamic_cast<acme::triangle &>(*y);
  bool g = acme::Intersection(ta, tb, dummy), h = acme::Intersection(tb, ta, dummy);
  M.eval(a.hash() ^ mon::mix(b.hash()), gap < 0);
  if (g != (gap < 0) || h != (gap < 0)) M.fail("coplanar-triangles", "reported " + std::to_string(g) + std::to_string(h) + " with a gap of " + mon::num(gap));
  M.seen(gap < 0 ? "coplanar-triangles:overlap" : "coplanar-triangles:apart");
}
// the point common to three planes
static void three_planes(Rng &r) {
  V3 p = V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)) * r.pick({0.0, 1.0, 10.0});
  Ent e[3]; std::string t;
  V3 w = dirvec(r);
  int how = r.p(.25) ? r.i(1, 2) : 0;   // 1: parallel to a line, 2: two of them parallel
  for (int i = 0; i < 3; ++i) {
    V3 n = how == 1 ? perp(r, w) : how == 2 && i < 2 ? w * r.sgn() : dirvec(r);
    e[i] = through(r, PLANE, p, n);
    if (how) e[i].shift(n * r.u(-1, 1));
    t += e[i].str() + " ";
  }
  std::swap(e[0], e[r.i(0, 2)]); std::swap(e[1], e[r.i(1, 2)]);
  M.describe = [&] { return t; };
  double det = std::fabs(e[0].u().dot(e[1].u().cross(e[2].u()))), len = e[0].d.norm() * e[1].d.norm() * e[2].d.norm();
  auto a = make(e[0]), b = make(e[1]), c = make(e[2]);
  acme::point q(7, 7, 7);
  bool g = acme::Intersection(dynamic_cast<acme::plane &>(*a), dynamic_cast<acme::plane &>(*b), dynamic_cast<acme::plane &>(*c), q);
  M.eval(e[0].hash() ^ mon::mix(e[1].hash() + e[2].hash()), g);
  int want = how && det < 1e-12 ? 0 : det > 1e-3 && det * len > 1e-5 ? 1 : -1;
  if (want < 0) { M.seen("three-planes:no verdict"); return; }
  if (g != bool(want)) M.fail("three-planes", "reported " + std::to_string(g));
  if (want) for (auto const &x : e) if (!(x.off(to_v3(q)) <= 1e-11 * (1 + x.o.norm() + p.norm()) / det)) { M.fail("three-planes", str(to_v3(q)) + " is off a plane by " + mon::num(x.off(to_v3(q)))); break; }
  M.seen(want ? "three-planes:point" : "three-planes:none");
}
// membership, with a margin on both sides
static void inside(Rng &r) {
  int t = TYPES[r.i(1, 7)];
  Ent e = through(r, t, V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)), dirvec(r));
  V3 q = e.sample(r);
  if (r.p(.6)) q = q + dirvec(r) * (e.size() * r.logu(.01, 5));
  else if (e.linear() && r.p(.4)) q = q + e.u() * (r.sgn() * e.size() * r.u(0, 3));
  double m = .02 * e.size();
  bool in = e.strictly(q, 1e-3 * e.size()), out = !e.loosely(q, t == SEGMENT || t == RAY || t == LINE ? m : 1e-5);
  M.describe = [&] { return e.str() + " and " + str(q); };
  if (!in && !out) { M.seen("inside:no verdict"); return; }
  auto x = make(e);
  acme::point p = to_point(q); bool g = false;
  switch (t) {
  case LINE: g = dynamic_cast<acme::line &>(*x).isInside(p); break;
  case RAY: g = dynamic_cast<acme::ray &>(*x).isInside(p); break;
  case PLANE: g = dynamic_cast<acme::plane &>(*x).isInside(p); break;
  case SEGMENT: g = dynamic_cast<acme::segment &>(*x).isInside(p); break;
  case TRIANGLE: g = dynamic_cast<acme::triangle &>(*x).isInside(p); break;
  case DISK: g = dynamic_cast<acme::disk &>(*x).isInside(p); break;
  case BALL: g = dynamic_cast<acme::ball &>(*x).isInside(p); break;
  }
  M.eval(e.hash() ^ mon::hash_str(str(q)), true);
  if (g != in) M.fail("inside", std::string(NAME[t]) + ": reported " + std::to_string(g) + ", off " + mon::num(e.off(q)) + " margin " + mon::num(e.margin(q)));
  M.seen(std::string("inside:") + NAME[t] + (in ? ":in" : ":out"));
}

// ---------------------------------------------------------------- predicates
static int tri_state(double v) { return v <= 1e-10 ? 1 : v >= 1e-4 ? 0 : -1; }
static void expect(const char *what, int want, bool got, std::string const &how) {
  if (want < 0) { M.seen(std::string(what) + ":no verdict"); return; }
  M.seen(std::string(what) + (want ? ":yes" : ":no"));
  if (got != bool(want)) M.fail(what, how + ": reported " + std::to_string(got));
}
static double parallelism(Ent const &a, Ent const &b) { return a.linear() == b.linear() ? a.u().cross(b.u()).norm() : std::fabs(a.u().dot(b.u())); }
static double orthogonality(Ent const &a, Ent const &b) { return a.linear() == b.linear() ? std::fabs(a.u().dot(b.u())) : a.u().cross(b.u()).norm(); }
static void predicates(Rng &r) {
  int ta = TYPES[r.i(1, 6)], tb = TYPES[r.i(1, 6)];
  Pair P = pairof(r, ta, tb, r.i(0, NREL - 1));
  Ent const &a = P.a, &b = P.b;
  M.describe = [&] { return std::string(RELNAME[P.rel]) + ": " + a.str() + " and " + b.str(); };
  auto x = make(a), y = make(b);
  acme::entity const *e = x.get(), *f = y.get();
  M.eval(a.hash() ^ mon::mix(b.hash()), true);
  std::string tag = std::string(NAME[ta]) + "-" + NAME[tb];
  int par = tri_state(parallelism(a, b)), ort = tri_state(orthogonality(a, b));
  expect("parallel", par, acme::IsParallel(e, f), tag); expect("parallel", par, acme::IsParallel(f, e), tag + " reversed");
  expect("orthogonal", ort, acme::IsOrthogonal(e, f), tag); expect("orthogonal", ort, acme::IsOrthogonal(f, e), tag + " reversed");
  int cop = -1, col = 0;
  V3 w = b.base() - a.base();
  if (a.linear() && b.linear()) {
    int off = tri_state(w.cross(a.u()).norm());
    col = par == 1 ? off : par;
    // parallel lines are coplanar
    cop = par == 1 ? 1 : par < 0 ? -1 : tri_state(std::fabs(w.dot(a.u().cross(b.u()).unit())) / std::max(1e-9, w.norm()));
    if (par == 0 && w.norm() < 1e-3) cop = -1;
  } else {
    V3 n = a.planar() ? a.u() : b.u();
    int off = tri_state(std::fabs(w.dot(n)) / std::max(1.0, w.norm()));
    if (w.norm() < 1e-3 && P.rel != SAME) off = -1;
    cop = par == 1 ? off : par;
  }
  expect("coplanar", cop, acme::IsCoplanar(e, f), tag); expect("coplanar", cop, acme::IsCoplanar(f, e), tag + " reversed");
  expect("collinear", col, acme::IsCollinear(e, f), tag); expect("collinear", col, acme::IsCollinear(f, e), tag + " reversed");
  // a vector and an entity
  acme::vec3 v = to_vec(a.linear() ? a.u() * len(r) : a.u() * len(r));
  double vp = b.linear() ? a.u().cross(b.u()).norm() : std::fabs(a.u().dot(b.u())), vo = b.linear() ? std::fabs(a.u().dot(b.u())) : a.u().cross(b.u()).norm();
  bool gp = false, go = false;
#define VEC(T, C) case T: { auto &z = dynamic_cast<C const &>(*f); gp = acme::IsParallel(v, z); go = acme::IsOrthogonal(v, z); break; }
  switch (tb) { VEC(LINE, acme::line) VEC(RAY, acme::ray) VEC(PLANE, acme::plane) VEC(SEGMENT, acme::segment) VEC(TRIANGLE, acme::triangle) VEC(DISK, acme::disk) }
#undef VEC
  expect("vector-parallel", tri_state(vp), gp, NAME[tb]); expect("vector-orthogonal", tri_state(vo), go, NAME[tb]);
  M.sample(M.describe);
}

// ---------------------------------------------------------------- memory given back
static void leaks(Rng &r) {
  int ta = TYPES[r.i(0, 7)], tb = TYPES[r.i(0, 7)];
  Pair P = pairof(r, ta, tb, r.i(0, NREL - 1));
  M.describe = [&] { return std::string(RELNAME[P.rel]) + ": " + P.a.str() + " and " + P.b.str(); };
  auto a = make(P.a), b = make(P.b);
  bool threw = false;
  auto once = [&] { threw = false; try { delete acme::Intersection(a.get(), b.get()); } catch (std::exception const &) { threw = true; } };
  M.mark();
  once(); once();
  size_t before = mallinfo2().uordblks;
  for (int k = 0; k < 8; ++k) once();
  size_t after = mallinfo2().uordblks;
  M.eval(P.a.hash() ^ mon::mix(P.b.hash()), true);
  if (after > before) M.fail("memory-entity-leak", std::to_string(after - before) + " bytes kept after 8 intersections" + (threw ? " that were refused" : ""));
  M.seen(threw ? "leaks:refused" : "leaks:done");
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("intersection", 200000, 4000000, intersections);
  M.run("coplanar-triangles", 20000, 400000, coplanar_triangles);
  M.run("three-planes", 20000, 400000, three_planes);
  M.run("inside", 60000, 1000000, inside);
  M.run("predicates", 100000, 2000000, predicates);
  M.run("leaks", 20000, 200000, leaks);
  return M.finish();
}
