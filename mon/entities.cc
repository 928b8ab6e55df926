// Geometric entities: rigid motion, measures, bounds, kinds and comparisons.
#include "ent.hh"
using namespace ent;
static mon::Mon M;
static const int TYPES[] = {POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL};

static Ent random_ent(Rng &r, int t) { return through(r, t, V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)) * r.pick({0.0, 1.0, 20.0}), dirvec(r)); }
static double gap(Ent const &a, Ent const &b) { // largest difference of what defines the entities
  if (a.type != b.type) return INF;
  double g = 0;
  auto d = [&](V3 const &x, V3 const &y) { double n = (x - y).norm(); if (!(n <= g)) g = std::isnan(n) ? INF : n; };
  if (a.type == SEGMENT || a.type == TRIANGLE) for (int i = 0; i < (a.type == SEGMENT ? 2 : 3); ++i) d(a.v[i], b.v[i]);
  else { d(a.o, b.o); if (a.type != POINT && a.type != BALL) d(a.d, b.d); if (!(std::fabs(a.R - b.R) <= g)) g = std::fabs(a.R - b.R); }
  return g;
}
static Ent moved(Ent e, Pose const &P) {
  e.o = P * e.o; e.d = P.R * e.d; for (auto &x : e.v) x = P * x;
  return e;
}
static M3 about(V3 const &k, double a) { // rotation about a unit axis
  double c = std::cos(a), s = std::sin(a);
  M3 m;
  m.r0 = V3(c + k.x * k.x * (1 - c), k.x * k.y * (1 - c) - k.z * s, k.x * k.z * (1 - c) + k.y * s);
  m.r1 = V3(k.y * k.x * (1 - c) + k.z * s, c + k.y * k.y * (1 - c), k.y * k.z * (1 - c) - k.x * s);
  m.r2 = V3(k.z * k.x * (1 - c) - k.y * s, k.z * k.y * (1 - c) + k.x * s, c + k.z * k.z * (1 - c));
  return m;
}
static void motions(Rng &r) {
  int t = TYPES[r.i(0, 7)];
  Ent e = random_ent(r, t);
  auto x = make(e);
  std::string how;
  M.describe = [&] { return e.str() + how; };
  Ent want = e;
  int n = r.i(1, 4);
  for (int k = 0; k < n; ++k) {
    Pose P; int op = r.i(0, t == POINT || t == LINE || t == RAY || t == SEGMENT || t == TRIANGLE ? 3 : 2); // bending an entity that stays one of its kind
    if (op == 0) { P.t = dirvec(r) * r.u(0, 30); how += " translate" + str(P.t); x->translate(to_vec(P.t)); }
    else if (op == 1) { V3 ax = dirvec(r); double a = r.u(-4, 4); P.R = about(ax, a); how += " rotate " + mon::num(a) + str(ax); x->rotate(a, to_vec(ax)); }
    else if (op == 2) { P.R = gen::rotation(r); P.t = dirvec(r) * r.u(0, 30); how += " transform " + str(P); x->transform(to_affine(P)); }
    else {
      do { for (V3 *q : {&P.R.r0, &P.R.r1, &P.R.r2}) *q = V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)); if (r.p(.3)) { double s = r.u(.2, 4); P.R.r0 = V3(s, 0, 0); P.R.r1 = V3(0, s, 0); P.R.r2 = V3(0, 0, s); } } while (std::fabs(P.R.r0.dot(P.R.r1.cross(P.R.r2))) < 1e-3);
      P.t = dirvec(r) * r.u(0, 30); how += " bend " + str(P); x->transform(to_affine(P)); M.seen("bent");
    }
    want = moved(want, P);
    Ent got = read(*x);
    double tol = 1e-11 * (100 + want.o.norm() + want.d.norm() + want.v[0].norm() + want.v[1].norm() + want.v[2].norm());
    if (!(gap(got, want) <= tol)) { M.fail("motion", got.str() + " expected " + want.str()); return; }
  }
  M.eval(e.hash() ^ mon::hash_str(how), true);
  M.seen(std::string("moved:") + NAME[t]); M.sample(M.describe);
}
static void near(double got, double want, const char *k, double scale = 1) { if (!(std::fabs(got - want) <= 1e-11 * (scale + std::fabs(want)))) M.fail(k, mon::num(got) + " expected " + mon::num(want)); }
static void near(V3 const &got, V3 const &want, const char *k) { if (!((got - want).norm() <= 1e-11 * (1 + want.norm()))) M.fail(k, str(got) + " expected " + str(want)); }
static void measures(Rng &r) {
  int t = TYPES[r.i(0, 7)];
  Ent e = random_ent(r, t);
  auto x = make(e);
  M.describe = [&] { return e.str(); };
  M.eval(e.hash(), true);
  V3 q = V3(r.u(-5, 5), r.u(-5, 5), r.u(-5, 5));
  if (t == LINE) {
    auto &l = dynamic_cast<acme::line &>(*x);
    near(to_v3(l.toVector()), e.d, "line-vector"); near(to_v3(l.toUnitVector()), e.d.unit(), "line-unit-vector");
    l.reverse(); near(to_v3(l.direction()), -e.d, "line-reverse"); near(to_v3(l.origin()), e.o, "line-reverse"); l.normalize(); near(to_v3(l.direction()), -e.d.unit(), "line-normalize");
  } else if (t == RAY) {
    auto &l = dynamic_cast<acme::ray &>(*x);
    near(to_v3(l.toVector()), e.d, "ray-vector"); near(to_v3(l.toUnitVector()), e.d.unit(), "ray-unit-vector");
    l.reverse(); near(to_v3(l.direction()), -e.d, "ray-reverse"); near(to_v3(l.origin()), e.o, "ray-reverse"); l.normalize(); near(to_v3(l.direction()), -e.d.unit(), "ray-normalize");
  } else if (t == PLANE) {
    auto &p = dynamic_cast<acme::plane &>(*x);
    double s = (q - e.o).dot(e.u());
    near(p.signedDistance(to_point(q)), s, "plane-signed-distance", 10); near(p.distance(to_point(q)), std::fabs(s), "plane-distance", 10); near(p.squaredDistance(to_point(q)), s * s, "plane-squared-distance", 100);
    near(to_v3(p.unitNormal()), e.d.unit(), "plane-unit-normal"); near(p.d(), -e.o.dot(e.d), "plane-d", 100);
    p.reverse(); near(p.signedDistance(to_point(q)), -s, "plane-reverse", 10); p.normalize(); near(to_v3(p.normal()), -e.d.unit(), "plane-normalize");
  } else if (t == SEGMENT) {
    auto &s = dynamic_cast<acme::segment &>(*x);
    near(s.length(), e.size(), "segment-length"); near(to_v3(s.centroid()), (e.v[0] + e.v[1]) / 2, "segment-centroid");
    near(to_v3(s.toVector()), e.v[1] - e.v[0], "segment-vector"); near(to_v3(s.toUnitVector()), (e.v[1] - e.v[0]).unit(), "segment-unit-vector");
    near(to_v3(s[1]), e.v[1], "segment-vertex"); s.swap(); near(to_v3(s.vertex(0)), e.v[1], "segment-swap"); near(to_v3(s.vertex(1)), e.v[0], "segment-swap");
  } else if (t == TRIANGLE) {
    auto &g = dynamic_cast<acme::triangle &>(*x);
    V3 c = (e.v[1] - e.v[0]).cross(e.v[2] - e.v[0]);
    near(g.area(), c.norm() / 2, "triangle-area"); near(to_v3(g.normal()), c.unit(), "triangle-normal");
    double per = 0; for (int i = 0; i < 3; ++i) { per += (e.v[(i + 1) % 3] - e.v[i]).norm(); near(to_v3(g.edge(i).vertex(0)), e.v[i], "triangle-edge"); near(to_v3(g.edge(i).vertex(1)), e.v[(i + 1) % 3], "triangle-edge"); near(to_v3(g[i]), e.v[i], "triangle-vertex"); }
    near(g.perimeter(), per, "triangle-perimeter"); near(to_v3(g.centroid()), (e.v[0] + e.v[1] + e.v[2]) / 3, "triangle-centroid");
    double u, v, w; V3 s = e.sample(r); s = s + (e.v[1] - e.v[0]) * r.u(-1, 1) + c.unit() * r.u(-1, 1);
    g.barycentric(to_point(s), u, v, w);
    near(u + v + w, 1, "triangle-barycentric"); V3 b = e.v[0] * u + e.v[1] * v + e.v[2] * w, n = c.unit();
    if (!((b - (s - n * n.dot(s - e.v[0]))).norm() <= 1e-9 * (1 + s.norm()))) M.fail("triangle-barycentric", str(b) + " expected " + str(s - n * n.dot(s - e.v[0])));
    auto lp = g.layingPlane();
    for (auto const &y : e.v) if (!(std::fabs((y - to_v3(lp.origin())).dot(to_v3(lp.normal()))) <= 1e-11 * (1 + y.norm()))) M.fail("triangle-plane", "a vertex is off the laying plane");
    int i = r.i(0, 2), j = r.i(0, 2); g.swap(i, j); near(to_v3(g.vertex(i)), e.v[j], "triangle-swap"); near(to_v3(g.vertex(j)), e.v[i], "triangle-swap");
    bool threw = false; try { g.vertex(3 + r.i(0, 5)); } catch (std::exception const &) { threw = true; }
    if (!threw) M.fail("triangle-index", "vertex past the end");
  } else if (t == DISK) {
    auto &d = dynamic_cast<acme::disk &>(*x);
    near(d.area(), M_PI * e.R * e.R, "disk-area"); near(d.perimeter(), 2 * M_PI * e.R, "disk-perimeter");
    d.reverse(); near(to_v3(d.normal()), -e.d, "disk-reverse"); d.normalize(); near(to_v3(d.normal()), -e.d.unit(), "disk-normalize"); near(to_v3(d.layingPlane().origin()), e.o, "disk-plane");
  } else if (t == BALL) {
    auto &b = dynamic_cast<acme::ball &>(*x);
    near(b.area(), 4 * M_PI * e.R * e.R, "ball-area"); near(b.volume(), 4 * M_PI / 3 * e.R * e.R * e.R, "ball-volume");
  }
  M.seen(std::string("measured:") + NAME[t]); M.sample(M.describe);
}
static void bounds(Rng &r) {
  int t = TYPES[r.i(0, 7)];
  Ent e = random_ent(r, t);
  auto x = make(e);
  M.describe = [&] { return e.str(); };
  acme::vec3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
  double a[6] = {1e300, 1e300, 1e300, -1e300, -1e300, -1e300};
  bool c = x->clamp(lo, hi), d = x->clamp(a[0], a[1], a[2], a[3], a[4], a[5]);
  bool want = !(t == LINE || t == RAY || t == PLANE);
  M.eval(e.hash(), true);
  if (c != want || d != want || x->isClampable() != want || x->isNonClampable() == want) { M.fail("clampable", NAME[t]); return; }
  M.seen(std::string("bounds:") + NAME[t]);
  if (r.p(.05)) { acme::none n; if (n.clamp(lo, hi) || n.clamp(a[0], a[1], a[2], a[3], a[4], a[5]) || n.isClampable() || n.isNonClampable()) M.fail("clampable", "none"); M.seen("bounds:none"); }
  if (!want) return;
  for (int i = 0; i < 3; ++i) if (a[i] != lo(i) || a[3 + i] != hi(i)) { M.fail("clamp", "the two overloads differ"); return; }
  double tol = 1e-12 * (10 + e.o.norm() + e.v[0].norm());
  auto in = [&](V3 const &q, double k) { return q.x >= lo(0) - k && q.y >= lo(1) - k && q.z >= lo(2) - k && q.x <= hi(0) + k && q.y <= hi(1) + k && q.z <= hi(2) + k; };
  for (int i = 0; i < 8; ++i) { V3 q = e.sample(r); if (!in(q, tol)) { M.fail("clamp", str(q) + " of it is out of the box " + str(to_v3(lo)) + str(to_v3(hi))); return; } }
  // tight: every side is touched (a disk's box is that of its ball)
  V3 wl, wh;
  if (t == POINT) wl = wh = e.o;
  else if (t == BALL || t == DISK) { wl = e.o - V3(e.R, e.R, e.R); wh = e.o + V3(e.R, e.R, e.R); }
  else { wl = wh = e.v[0]; for (int i = 1; i < (t == SEGMENT ? 2 : 3); ++i) { V3 q = e.v[i]; wl = V3(std::min(wl.x, q.x), std::min(wl.y, q.y), std::min(wl.z, q.z)); wh = V3(std::max(wh.x, q.x), std::max(wh.y, q.y), std::max(wh.z, q.z)); } }
  bool ok = (to_v3(lo) - wl).norm() <= tol && (to_v3(hi) - wh).norm() <= tol;
  if (t == DISK && !ok) { // a tighter box is fine
    V3 l = to_v3(lo), h = to_v3(hi);
    ok = l.x >= wl.x - tol && l.y >= wl.y - tol && l.z >= wl.z - tol && h.x <= wh.x + tol && h.y <= wh.y + tol && h.z <= wh.z + tol;
  }
  if (!ok) M.fail("clamp", "box " + str(to_v3(lo)) + str(to_v3(hi)) + " expected " + str(wl) + str(wh));
}
static void kinds(Rng &r) {
  int t = r.p(.1) ? int(NONE) : TYPES[r.i(0, 7)];
  Ent e; if (t != NONE) e = random_ent(r, t);
  auto x = make(e);
  M.describe = [&] { return e.str(); };
  M.eval(e.hash(), true);
  bool f[10] = {x->isNone(), x->isPoint(), false, x->isLine(), x->isRay(), x->isPlane(), x->isSegment(), x->isTriangle(), x->isDisk(), x->isBall()};
  for (int i = 0; i < 10; ++i) if (i != 2 && f[i] != (i == t)) M.fail("kind", std::string(NAME[t]) + " is a " + NAME[i] + ": " + std::to_string(f[i]));
  if (x->type() != NAME[t] || !x->isEntity()) M.fail("type", x->type());
  if (t == NONE) return;
  // degenerated if of no extent
  Ent z = e; bool can = true;
  if (t == LINE || t == RAY || t == PLANE) z.d = V3(0, 0, 0);
  else if (t == SEGMENT) z.v[1] = z.v[0];
  else if (t == TRIANGLE) z.v[(r.i(0, 2))] = z.v[(r.i(0, 2))];
  else if (t == DISK || t == BALL) z.R = 0;
  else can = false;
  if (t == TRIANGLE) { int i = r.i(0, 2); z = e; z.v[i] = z.v[(i + r.i(1, 2)) % 3]; }
  if (x->isDegenerated()) M.fail("degenerated", "it is not");
  if (can && !make(z)->isDegenerated()) M.fail("degenerated", z.str() + " is");
  // comparison
  Ent o = e; double eps = r.p(.5) ? 1e-3 : 1e-2;
  int i = r.i(0, t == TRIANGLE ? 2 : 1); double big = 100 * eps * (20 + e.o.norm() + e.v[i].norm());
  if (t == SEGMENT || t == TRIANGLE) o.v[i] = o.v[i] + dirvec(r) * big;
  else if (t == POINT || (r.p(.5))) o.o = o.o + dirvec(r) * big;
  else if (t == DISK && r.p(.5)) o.R += 200 * eps;
  else if (t == BALL) o.R += 200 * eps;
  else o.d = -o.d;
  auto y = make(o), w = make(e); bool same = false, diff = true;
#define CMP(T, C) case T: { auto &p = dynamic_cast<C &>(*x); same = p.isApprox(dynamic_cast<C &>(*w), 1e-12); diff = p.isApprox(dynamic_cast<C &>(*y), eps) || dynamic_cast<C &>(*y).isApprox(p, eps); break; }
  switch (t) { CMP(POINT, acme::point) CMP(LINE, acme::line) CMP(RAY, acme::ray) CMP(PLANE, acme::plane) CMP(SEGMENT, acme::segment) CMP(TRIANGLE, acme::triangle) CMP(DISK, acme::disk) CMP(BALL, acme::ball) }
#undef CMP
  if (!same) M.fail("approx", "not equal to itself");
  if (diff) M.fail("approx", "equal to " + o.str());
  // angles between vectors
  V3 a = dirvec(r), b = dirvec(r);
  double c = a.dot(b); if (std::fabs(c) < .999) near(acme::Angle(to_vec(a * len(r)), to_vec(b * len(r))), std::acos(c), "angle", 10);
  M.seen(std::string("kind:") + NAME[t]);
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("motions", 100000, 2000000, motions);
  M.run("measures", 100000, 2000000, measures);
  M.run("bounds", 100000, 2000000, bounds);
  M.run("kinds", 60000, 1000000, kinds);
  return M.finish();
}
