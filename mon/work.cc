// The cost of the library: basic blocks executed, memory held and stack used, counted while it works.
// Built with -fsanitize-coverage=trace-pc, so that the count does not depend on the machine or its load.
#include "gen.hh"
#include <malloc.h>
#include <new>
using namespace gen;
static mon::Mon M;

#define NOCOV __attribute__((no_sanitize_coverage))
static long g_blocks = 0, g_live = 0, g_peak = 0;
static char *g_low = nullptr;
extern "C" NOCOV void __sanitizer_cov_trace_pc(void) {
  ++g_blocks;
  char *p = static_cast<char *>(__builtin_frame_address(0));
  if (p < g_low) g_low = p;
}
static NOCOV void *get(std::size_t n) {
  void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc();
  g_live += long(malloc_usable_size(p)); if (g_live > g_peak) g_peak = g_live; return p;
}
static NOCOV void put(void *p) { if (p) { g_live -= long(malloc_usable_size(p)); std::free(p); } }
NOCOV void *operator new(std::size_t n) { return get(n); }
NOCOV void *operator new[](std::size_t n) { return get(n); }
NOCOV void operator delete(void *p) noexcept { put(p); }
NOCOV void operator delete[](void *p) noexcept { put(p); }
NOCOV void operator delete(void *p, std::size_t) noexcept { put(p); }
NOCOV void operator delete[](void *p, std::size_t) noexcept { put(p); }

struct Cost { double work, mem, stack, kept; };
template <class F> static NOCOV Cost cost(F const &f) {
  char here;
  long b = g_blocks, l = g_live; g_peak = g_live; g_low = &here;
  f();
  return Cost{double(g_blocks - b), double(g_peak - l), double(&here - g_low), double(g_live - l)};
}
static std::string str(Cost const &c) { return "blocks=" + mon::num(c.work) + " bytes at most=" + mon::num(c.mem) + " stack=" + mon::num(c.stack); }
// What is allowed: several times what the slowest of many thousand cases needs.
static const double LIMIT_BUILD_WORK = 400, LIMIT_BUILD_MEM = 2000, LIMIT_BUILD_STACK = 2500, LIMIT_SETUP_WORK = 40, LIMIT_SETUP_MEM = 60,
                    LIMIT_NEAR_WORK = 900, LIMIT_RIBS = 1.3, LIMIT_LOAD_WORK = 150, LIMIT_LOAD_MEM = 100;
static double lg(double n) { return std::log2(n + 2); }

// ---------------------------------------------------------------- grounds of n triangles
static const char *NAME[] = {"plane", "strip", "soup", "stacked", "two sizes", "round", "rough"};
static M3 axes(Rng &r) {      // an exchange of the axes, or any rotation
  if (r.p(.25)) return rotation(r);
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  int const *p = P[r.p(.4) ? 0 : r.i(0, 5)];
  V3 e[3] = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)};
  M3 m; m.r0 = e[p[0]]; m.r1 = e[p[1]]; m.r2 = e[p[2]];
  if (r.p(.2)) m.r0 = m.r0 * -1;
  if (r.p(.2)) m.r2 = m.r2 * -1;
  return m;
}
static std::vector<Tri> ground(Rng &r, int kind, int n) {
  std::vector<Tri> T;
  double w = r.logu(.01, 1), mu = friction(r);
  V3 base = r.p(.5) ? V3(0, 0, 0) : V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * r.pick({1.0, 100.0, 1e4});
  M3 A = axes(r);
  auto quad = [&](V3 a, V3 b, V3 c, V3 d) { T.push_back(tri(base + A * a, base + A * b, base + A * c, mu)); if (int(T.size()) < n) T.push_back(tri(base + A * a, base + A * c, base + A * d, mu)); };
  switch (kind) {
  case 0: case 6: {
    int side = std::max(1, int(std::sqrt(n / 2.0) * r.pick({1.0, 1.0, 2.0, 8.0})));
    double sx = r.p(.5) ? 0 : r.u(-1, 1), sy = r.p(.5) ? 0 : r.pick({.5, 1.0, 2.0, r.u(0, 3)}), rough = kind == 6 ? w * r.logu(.01, 3) : 0;
    uint64_t key = r.next();
    auto P = [&](int i, int j) { Rng q(key + uint64_t(i) * 1000003u + uint64_t(j)); return V3(i * w, j * w, i * w * sx + j * w * sy + rough * q.u(-1, 1)); };
    for (int k = 0; int(T.size()) < n; ++k) { int i = k % side, j = k / side; quad(P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)); }
    break; }
  case 1: {                    // a strip that climbs: the shape of a ramp, a wall, a track
    double sy = r.pick({0.0, .25, .5, 1.0, 1.5, 2.0, 2.0, 2.0, 3.0, r.u(0, 4)}), sx = r.p(.7) ? 0 : r.pick({.5, 1.0, 2.0, r.u(-2, 2)}), wide = w * r.logu(.2, 5);
    double len = w * n / 2, off = r.p(.2) ? 0 : (r.p(.7) ? -1 : 1) * len * r.logu(.5 / n, 1);
    for (int k = 0; int(T.size()) < n; ++k) { double a = k * w, b = a + w; quad(V3(a * sx, a, a * sy + off), V3(a * sx + wide, a, a * sy + off), V3(b * sx + wide, b, b * sy + off), V3(b * sx, b, b * sy + off)); }
    break; }
  case 2: {
    V3 box(r.logu(.01, 1), r.logu(.01, 1), r.logu(.01, 1)); double size = std::cbrt(double(n)) * w * 4;
    for (int k = 0; k < n; ++k) { V3 c(r.u() * size * box.x, r.u() * size * box.y, r.u() * size * box.z); auto d = [&] { return V3(r.u(-w, w), r.u(-w, w), r.u(-w, w)); }; T.push_back(tri(base + A * (c + d()), base + A * (c + d()), base + A * (c + d()), mu)); }
    break; }
  case 3: {                    // the same place again and again
    int places = std::max(1, int(r.logu(1, n)));
    for (int k = 0; int(T.size()) < n; ++k) { double x = (k % places) * w; quad(V3(x, 0, 0), V3(x + w, 0, 0), V3(x + w, w, 0), V3(x, w, 0)); }
    break; }
  case 4: {                    // a fine patch in a coarse ground
    double W = w * r.logu(5, 1000); int side = int(std::sqrt(n / 4.0)) + 1;
    for (int k = 0; int(T.size()) < n / 2; ++k) { double x = (k % side) * w, y = (k / side) * w; quad(V3(x, y, 0), V3(x + w, y, 0), V3(x + w, y + w, 0), V3(x, y + w, 0)); }
    for (int k = 0; int(T.size()) < n; ++k) { double x = (k % side - side / 2) * W, y = (k / side - side / 2) * W; quad(V3(x, y, 0), V3(x + W, y, 0), V3(x + W, y + W, 0), V3(x, y + W, 0)); }
    break; }
  default: {                   // helix, drum, dome
    int how = r.i(0, 2), side = std::max(3, int(std::sqrt(n / 2.0))); double R = w * side / 3;
    auto P = [&](int i, int j) { double a = 2 * M_PI * i / side, b = .3 + 2.4 * j / (side + 2); return how == 0 ? V3(R * std::cos(a) * (1 + .1 * (j % 2)), R * std::sin(a) * (1 + .1 * (j % 2)), w * (i + j) * .2) : how == 1 ? V3(R * std::cos(a), R * std::sin(a), j * w) : V3(R * std::cos(a) * std::sin(b), R * std::sin(a) * std::sin(b), R * std::cos(b)); };
    for (int k = 0; int(T.size()) < n; ++k) { int i = k % side, j = k / side; if (how == 0) { i = k; j = 0; } quad(P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)); }
  } }
  if (r.p(.4)) r.shuffle(T);
  return T;
}

// ---------------------------------------------------------------- making the ground
static void build_case(Rng &r) {
  int kind = r.i(0, 6), n = int(r.logu(500, M.thorough ? 60000 : 12000));
  std::vector<Tri> T = ground(r, kind, n);
  M.describe = [&] { return std::string(NAME[kind]) + " " + str(T); };
  auto tg = make_tris(T);
  std::unique_ptr<enve::ground::mesh> m, c(new enve::ground::mesh());
  Cost k = cost([&] { m.reset(new enve::ground::mesh(tg)); });
  double N = double(T.size()), wn = k.work / (N * lg(N)), mn = k.mem / (N * lg(N)), sn = k.stack / (lg(N) + 10);
  M.peak("build: blocks per n log n", wn); M.peak("build: bytes per n log n", mn); M.peak("build: stack per log n", sn);
  if (wn > LIMIT_BUILD_WORK) M.fail("build-work", str(k) + " for " + std::to_string(T.size()) + " triangles");
  if (mn > LIMIT_BUILD_MEM) M.fail("build-memory", str(k) + " for " + std::to_string(T.size()) + " triangles");
  if (sn > LIMIT_BUILD_STACK) M.fail("build-stack", str(k) + " for " + std::to_string(T.size()) + " triangles");
  if (r.p(.3)) {
    Cost q = cost([&] { c->copy(*m); });
    M.peak("copy: blocks per n log n", q.work / (N * lg(N))); M.peak("copy: bytes per n log n", q.mem / (N * lg(N)));
    if (q.work > LIMIT_BUILD_WORK * N * lg(N)) M.fail("copy-work", str(q) + " for " + std::to_string(T.size()) + " triangles");
    if (q.mem > LIMIT_BUILD_MEM * N * lg(N)) M.fail("copy-memory", str(q) + " for " + std::to_string(T.size()) + " triangles");
    M.seen("copied");
  }
  M.seen(std::string("build:") + NAME[kind]);
  M.eval(mon::hash_bytes(&k, sizeof k, uint64_t(n)), true);
  M.sample([&] { return std::string(NAME[kind]) + " n=" + std::to_string(T.size()) + " " + str(k); });
}

// ---------------------------------------------------------------- standing on it
static void setup_case(Rng &r) {
  int kind = r.p(.5) ? r.pick({0, 6}) : r.i(0, 6), n = int(r.logu(2000, M.thorough ? 100000 : 12000));
  if (kind == 2 || kind == 3) n = std::min(n, 4000);   // many of them are near
  std::vector<Tri> T = ground(r, kind, n);
  Wheel w = wheel(r, false); w.n = std::min(w.n, 40);
  // the wheel is as large as some ten triangles
  double edge = 0; for (int k = 0; k < 20; ++k) { Tri const &t = T[size_t(r.i(0, int(T.size()) - 1))]; edge += (t.v[0] - t.v[1]).norm() / 20; }
  double q = edge * r.u(.3, 6) / w.Rx; w.Rx *= q; w.Ry *= q; w.Ly *= q;
  auto tg = make_tris(T);
  enve::ground::mesh m(tg);
  std::unique_ptr<enve::shell> a = make_shell(w), b = make_shell(w);
  std::string method = r.p(.6) ? "geometric" : "sampling";
  M.describe = [&] { return std::string(NAME[kind]) + " " + str(w) + " " + method + " " + str(T); };
  for (int k = 0; k < 6; ++k) {
    Tri const &t = T[size_t(r.i(0, int(T.size()) - 1))];
    Pose P; P.R = rotation(r); P.t = (t.v[0] + t.v[1] + t.v[2]) * (1.0 / 3) + V3(0, 0, w.Rx * r.u(.5, 1.2));
    bool air = r.p(.2); if (air) P.t = P.t + V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * (w.Rx * r.logu(3, 1e6));
    // what is near, as a mesh of its own
    double R = std::hypot(w.Rx, w.Ly); V3 lo = P.t - V3(R, R, R), hi = P.t + V3(R, R, R);
    enve::triangleground::vecptr near;
    for (size_t i = 0; i < T.size(); ++i) {
      V3 l = T[i].v[0], h = l;
      for (int j = 1; j < 3; ++j) { V3 v = T[i].v[j]; l = V3(std::min(l.x, v.x), std::min(l.y, v.y), std::min(l.z, v.z)); h = V3(std::max(h.x, v.x), std::max(h.y, v.y), std::max(h.z, v.z)); }
      if (l.x <= hi.x && h.x >= lo.x && l.y <= hi.y && h.y >= lo.y && l.z <= hi.z && h.z >= lo.z) near.push_back(tg[i]);
    }
    enve::ground::mesh few(near);
    acme::affine A = to_affine(P);
    bool x = false, y = false;
    // what the set up before left behind is given back by the next one: not counted
    Pose Q = P; Q.R = P.R * ref::roty(r.u(-3, 3)); acme::affine B = to_affine(Q);
    a->setup(m, B, method); b->setup(few, B, method);
    Cost cb = cost([&] { y = b->setup(few, A, method); });
    Cost ca = cost([&] { x = a->setup(m, A, method); });
    double K = double(near.size()), N = double(T.size());
    double over = (ca.work - 1.5 * cb.work) / (lg(N) * (K + 10)), overm = (ca.mem - 1.5 * cb.mem - 32768) / (lg(N) * (K + 10));
    M.peak("set up: blocks beyond the same near ground alone, per log n and near triangle", over);
    M.peak("set up: bytes beyond the same near ground alone and 32 KB, per log n and near triangle", overm);
    M.peak("set up: stack per log n", ca.stack / (lg(N) + 10));
    std::string what = std::to_string(T.size()) + " triangles, " + std::to_string(near.size()) + " near: " + str(ca) + "; these alone: " + str(cb) + " at " + str(P);
    if (over > LIMIT_SETUP_WORK) M.fail("set-up-work", what);
    if (overm > LIMIT_SETUP_MEM) M.fail("set-up-memory", what);
    if (ca.stack > LIMIT_BUILD_STACK * (lg(N) + 10)) M.fail("set-up-stack", what);
    double per = cb.work / ((K + 5) * (w.n + 1)); M.peak("set up: blocks per near triangle and rib", per);
    if (per > LIMIT_NEAR_WORK) M.fail("near-work", what);
    M.seen(near.empty() ? "set up:nothing near" : x ? "set up:contact" : "set up:near but no contact");
    if (K < N / 100) M.seen("set up:less than a hundredth near");
    (void)y;
    M.eval(mon::hash_bytes(&ca, sizeof ca, uint64_t(n)), true);
  }
}

// ---------------------------------------------------------------- again and again
static void again_case(Rng &r) {
  Scene s = mesh_scene(r, -1);
  s.w.n = std::max(1, std::min(s.w.n, int(6000 / (s.T.size() + 1))));
  bool flat = r.p(.25);
  std::string method = r.p(.6) ? "geometric" : "sampling";
  auto tg = make_tris(s.T);
  enve::ground::mesh m(tg);
  V3 nn = normal_up(r, .5); enve::ground::flat f(1, to_point(s.P.t - nn * s.w.Rx * .9), to_vec(nn));
  auto sh = make_shell(s.w);
  M.describe = [&] { return str(s) + " " + method + (flat ? " on a plane" : ""); };
  std::vector<acme::affine> P;
  for (Pose const &q : journey(r, s.P, s.w.Rx, 20)) P.push_back(to_affine(q));
  std::vector<acme::affine> out; std::vector<acme::point> vp; std::vector<acme::vec3> vn, va; std::vector<double> vd;
  auto lap = [&] { for (auto const &A : P) { if (flat) sh->setup(f, A, method); else sh->setup(m, A, method); sh->contactPointAffine(out); sh->contactPoint(vp); sh->contactNormal(vn); sh->relativeAngles(va); sh->contactDepth(vd); } };
  auto laps = [&](int n) { return cost([&] { for (int k = 0; k < n; ++k) lap(); }); };
  Cost one = laps(1), some = laps(4), many = laps(40);
  double ratio = many.work / 40 / std::max(1.0, std::min(one.work, some.work / 4));
  M.peak("again: work of a late lap by that of an early one", ratio);
  M.peak("again: bytes kept by 800 set ups", many.kept);
  if (ratio > 1.5) M.fail("again-work", "laps cost " + mon::num(one.work) + ", " + mon::num(some.work / 4) + ", then " + mon::num(many.work / 40) + " blocks");
  if (many.kept > 2048) M.fail("again-memory", mon::num(many.kept) + " more bytes held after 800 set ups than before");
  M.seen(flat ? "again:plane" : "again:mesh");
  M.eval(mon::hash_bytes(&one, sizeof one), true);
}

// ---------------------------------------------------------------- wheels of many ribs
static void ribs_case(Rng &r) {
  Wheel w = wheel(r, false); w.n = r.i(8, 20);
  Wheel v = w; int times = r.i(5, 20); v.n = w.n * times;
  int n = int(r.logu(50, 3000)); int kind = r.i(0, 6);
  std::vector<Tri> T = ground(r, kind, n);
  Tri const &t = T[size_t(r.i(0, n - 1))];
  Pose P; P.R = rotation(r); P.t = t.v[0] + V3(0, 0, w.Rx * .8);
  enve::ground::mesh m(make_tris(T));
  enve::ground::flat f(1, to_point(P.t - V3(0, 0, w.Rx * .9)), acme::vec3(0, 0, 1));
  std::string method = r.p(.6) ? "geometric" : "sampling";
  M.describe = [&] { return str(w) + " and " + std::to_string(times) + " times as many ribs, " + method + " " + str(T); };
  acme::affine A = to_affine(P);
  std::unique_ptr<enve::shell> a, b;
  struct Step { const char *name; std::function<void(enve::shell &)> f; };
  std::vector<acme::affine> o; std::vector<acme::point> vp; std::vector<acme::vec3> vn; std::vector<double> vd;
  acme::affine o1; acme::point p1; acme::vec3 v1; double d1;
  std::vector<Step> S{
    {"mesh", [&](enve::shell &s) { s.setup(m, A, method); }}, {"flat", [&](enve::shell &s) { s.setup(f, A, method); }},
    {"frames", [&](enve::shell &s) { s.contactPointAffine(o); }}, {"angles", [&](enve::shell &s) { s.relativeAngles(vn); }},
    {"points", [&](enve::shell &s) { s.contactPoint(vp); }}, {"normals", [&](enve::shell &s) { s.contactNormal(vn); }}, {"numbers", [&](enve::shell &s) { s.contactDepth(vd); s.contactFriction(vd); s.contactArea(vd); s.contactVolume(vd); }},
    {"frame", [&](enve::shell &s) { s.contactPointAffine(o1); }}, {"angle", [&](enve::shell &s) { s.relativeAngles(v1); }},
    {"totals", [&](enve::shell &s) { s.contactPoint(p1); s.contactNormal(v1); s.contactDepth(d1); s.contactFriction(d1); s.contactArea(d1); s.contactVolume(d1); }},
    {"resize", [&](enve::shell &s) { s.resize(s.size()); }}};
  a = make_shell(w); b = make_shell(v);
  for (auto &s : S) {
    if (std::string(s.name) == "resize") { a->resize(a->size()); b->resize(b->size()); }
    Cost ca = cost([&] { s.f(*a); }), cb = cost([&] { s.f(*b); });
    double k = (cb.work - 2000) / (ca.work + 200) / times, km = (cb.mem - 20000) / (ca.mem + 2000) / times;
    M.peak(std::string("ribs: growth of the work by that of the ribs, ") + s.name, k);
    M.peak(std::string("ribs: growth of the memory by that of the ribs, ") + s.name, km);
    if (k > LIMIT_RIBS) M.fail("ribs-work", std::string(s.name) + ": " + str(ca) + " then " + str(cb) + " for " + std::to_string(times) + " times as many ribs");
    if (km > LIMIT_RIBS) M.fail("ribs-memory", std::string(s.name) + ": " + str(ca) + " then " + str(cb) + " for " + std::to_string(times) + " times as many ribs");
    M.eval(mon::hash_bytes(&cb, sizeof cb), true);
  }
  M.seen("ribs");
}

// ---------------------------------------------------------------- reading it
static void load_case(Rng &r) {
  bool obj = r.p(.5), longs = r.p(.3);
  int kind = r.i(0, 6), n = int(r.logu(300, M.thorough ? 20000 : 5000));
  std::vector<Tri> T = ground(r, kind, n);
  std::string path = M.scratch + "/work" + (obj ? ".obj" : ".rdf"), text;
  auto junk = [&] { if (longs && r.p(.002)) text += std::string(obj ? "# " : "{ ") + std::string(size_t(r.logu(100, 30000)), r.pick({'a', ' ', '1'})) + "\n"; else if (r.p(.01)) text += r.p(.5) ? "\n" : "# c\n"; };
  auto node = [&](int i, V3 const &v) { junk(); text += (obj ? std::string("v") : std::to_string(i)) + " " + mon::num(v.x) + " " + mon::num(v.y) + " " + mon::num(v.z) + "\n"; };
  if (!obj) text += "[NODES]\n";
  for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) node(3 * i + j, T[size_t(i)].v[j]);
  if (!obj) text += "[ELEMENTS]\n";
  for (int i = 0; i < n; ++i) { junk(); int o = obj ? 1 : 0; text += (obj ? "f " : "") + std::to_string(3 * i + o) + " " + std::to_string(3 * i + 1 + o) + " " + std::to_string(3 * i + 2 + o) + (obj ? "" : " .5") + "\n"; }
  { std::ofstream f(path); f << text; }
  M.describe = [&] { return std::string(obj ? "obj" : "rdf") + " file of " + std::to_string(text.size()) + " bytes, " + NAME[kind] + " " + str(T); };
  enve::ground::mesh m;
  Cost k;
  { mon::Quiet q; k = cost([&] { if (obj) m.load(path, .5); else m.load(path); }); }
  ::unlink(path.c_str());
  double B = double(text.size()), N = n;
  double wn = (k.work - LIMIT_BUILD_WORK / 4 * N * lg(N)) / B, mn = (k.mem - LIMIT_BUILD_MEM / 4 * N * lg(N) - 4e6) / B;
  M.peak("load: blocks per byte", wn); M.peak("load: bytes per byte", mn);
  if (wn > LIMIT_LOAD_WORK) M.fail("load-work", str(k) + " for " + std::to_string(text.size()) + " bytes");
  if (mn > LIMIT_LOAD_MEM) M.fail("load-memory", str(k) + " for " + std::to_string(text.size()) + " bytes");
  M.seen(obj ? "load:obj" : "load:rdf");
  M.eval(mon::hash_bytes(&k, sizeof k), true);
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("build", 60, 600, build_case);
  M.run("set-up", 100, 1000, setup_case);
  M.run("again", 60, 600, again_case);
  M.run("ribs", 100, 1000, ribs_case);
  M.run("load", 60, 400, load_case);
  return M.finish();
}
