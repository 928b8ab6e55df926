// Workload generators: wheels, poses, flat grounds and meshes, and their enve counterparts.
#pragma once
#include "enve.hh"
#include "mon.hh"
#include "ref.hh"
#include <memory>
#include <unistd.h>

namespace gen {
using mon::Rng;
using ref::V3; using ref::M3; using ref::Pose; using ref::Tri;

// ---------------------------------------------------------------- conversions
inline acme::affine to_affine(Pose const &P) {
  acme::affine A;
  A.matrix() << P.R.r0.x, P.R.r0.y, P.R.r0.z, P.t.x,
                P.R.r1.x, P.R.r1.y, P.R.r1.z, P.t.y,
                P.R.r2.x, P.R.r2.y, P.R.r2.z, P.t.z,
                0.0, 0.0, 0.0, 1.0;
  return A;
}
inline acme::point to_point(V3 const &v) { return acme::point(v.x, v.y, v.z); }
inline acme::vec3 to_vec(V3 const &v) { return acme::vec3(v.x, v.y, v.z); }
template <class E> V3 to_v3(E const &e) { return V3(e.x(), e.y(), e.z()); }

inline std::string str(V3 const &v) { return "(" + mon::num(v.x) + "," + mon::num(v.y) + "," + mon::num(v.z) + ")"; }
inline std::string str(Pose const &P) { return "t=" + str(P.t) + " R=[" + str(P.R.r0) + str(P.R.r1) + str(P.R.r2) + "]"; }
inline std::string str(std::vector<Tri> const &T, size_t maxn = 6) {
  std::string s = std::to_string(T.size()) + " triangles:";
  for (size_t i = 0; i < T.size() && i < maxn; ++i)
    s += " {" + str(T[i].v[0]) + str(T[i].v[1]) + str(T[i].v[2]) + " mu=" + mon::num(T[i].mu) + "}";
  return s;
}

// ---------------------------------------------------------------- wheels
struct Wheel { double Rx, Mx, Ry, My, Ly; int n; };
inline std::string str(Wheel const &w) {
  return "wheel(n=" + std::to_string(w.n) + " Rx=" + mon::num(w.Rx) + " Mx=" + mon::num(w.Mx) + " Ry=" + mon::num(w.Ry) + " My=" + mon::num(w.My) + " Ly=" + mon::num(w.Ly) + ")";
}
inline double radius_of(Wheel const &w, double y) {
  return w.Rx * std::pow(1.0 - std::pow(std::fabs(y) / w.Ry, w.My), 1.0 / w.Mx);
}
inline ref::Rib rib_of(Wheel const &w, int i) {
  double bw = 2 * w.Ly / w.n;
  double y = -w.Ly + bw * (i + 0.5);
  return ref::Rib{radius_of(w, y), y, bw};
}
inline Wheel wheel(Rng &r, bool manyribs = true) {
  Wheel w;
  w.Rx = r.u(0.2, 0.45);
  w.Mx = r.p(0.5) ? double(r.i(2, 12)) : r.u(1.2, 12);
  w.Ry = r.u(0.08, 0.25);
  w.My = r.p(0.5) ? double(r.i(2, 12)) : r.u(1.2, 12);
  w.Ly = w.Ry * (r.p(0.2) ? r.pick({0.999, 0.3, 0.05}) : r.u(0.5, 0.98));
  if (r.p(0.15)) { w.Ry *= 6; w.Ly *= 6; }                       // wider than its radius
  if (r.p(0.2)) { double k = r.pick({0.12, 0.35, 4.0, 20.0}); w.Rx *= k; w.Ry *= k; w.Ly *= k; }
  w.n = r.pick({1, 2, 3, 4, 5, 7, 10, 10, 10, 20, 21});
  if (manyribs && r.p(0.03)) w.n = r.pick({50, 199, 200, 201, 260});
  return w;
}
inline std::unique_ptr<enve::shell> make_shell(Wheel const &w) {
  return std::unique_ptr<enve::shell>(new enve::shell(size_t(w.n), w.Rx, w.Mx, w.Ry, w.My, w.Ly));
}

// ---------------------------------------------------------------- poses
inline M3 rotation(Rng &r) {
  // axle frame: R = Rz(yaw) Rx(camber) Ry(spin)
  double yaw = r.p(0.3) ? r.pick({0.0, M_PI / 2, M_PI, -M_PI / 2, M_PI / 4}) : r.u(-M_PI, M_PI);
  double camber = r.p(0.3) ? 0.0 : r.p(0.7) ? r.u(-0.25, 0.25) : r.u(-1.2, 1.2);
  double spin = r.p(0.3) ? 0.0 : r.u(-M_PI, M_PI);
  if (r.p(0.12)) { int k = r.i(1, 7); auto few = [&] { return r.logu(1e-9, 1e-2) * (r.p(.5) ? 1 : -1); };   // next to a special attitude
    if (k & 1) yaw = r.pick({0.0, M_PI / 2, M_PI, -M_PI / 2}) + few();
    if (k & 2) camber = few();
    if (k & 4) spin = r.pick({0.0, M_PI / 2, M_PI, -M_PI / 2}) + few(); }
  if (r.p(0.05)) { yaw = r.u(-M_PI, M_PI); camber = r.u(-M_PI, M_PI); spin = r.u(-M_PI, M_PI); } // anything, also lying or overturned
  return ref::rotz(yaw) * ref::rotx(camber) * ref::roty(spin);
}
inline V3 place(Rng &r, double k = 1) { // world position of the scene
  switch (r.i(0, 4)) {
  case 0: return V3(0, 0, 0);
  case 1: return V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * k;
  case 2: return V3(r.u(-60, 60), r.u(-60, 60), r.u(-10, 10));
  case 3: return V3(r.i(-3, 3), r.i(-3, 3), r.i(-1, 1));
  default: return V3(r.u(-400, 400), r.u(-400, 400), r.u(-50, 50));
  }
}
inline V3 normal_up(Rng &r, double maxtilt) {
  double a = r.p(0.25) ? 0 : r.p(0.1) ? r.logu(1e-9, 1e-2) : r.u(0, maxtilt), b = r.u(-M_PI, M_PI);
  return V3(std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a));
}
inline double friction(Rng &r) { return r.p(0.2) ? r.pick({0.0, 1.0, 1e-3, 5.0}) : r.u(0, 1.5); }
// Of a ground with one friction: no limit applies to it.
inline double one_friction(Rng &r) { return r.p(0.05) ? r.logu(1.5, 1e4) : friction(r); }

// ---------------------------------------------------------------- meshes
inline Tri tri(V3 a, V3 b, V3 c, double mu) { Tri t; t.v[0] = a; t.v[1] = b; t.v[2] = c; t.mu = mu; return t; }
inline V3 inplane(V3 const &n, int k) { // two unit vectors spanning the plane of n
  V3 h = std::fabs(n.x) < 0.9 ? V3(1, 0, 0) : V3(0, 1, 0);
  V3 a = n.cross(h).unit();
  return k == 0 ? a : n.cross(a);
}

// A mesh around the origin for a wheel of radius R whose hub is around (0,0,R).
// kind is chosen by the caller or at random; grid meshes have zero-height corners on multiples of the step.
inline std::vector<Tri> mesh(Rng &r, double R, int kind) {
  std::vector<Tri> T;
  auto quad = [&](V3 a, V3 b, V3 c, V3 d, double m0, double m1, bool diag) {
    if (diag) { T.push_back(tri(a, b, c, m0)); T.push_back(tri(a, c, d, m1)); }
    else { T.push_back(tri(a, b, d, m0)); T.push_back(tri(b, c, d, m1)); }
  };
  switch (kind) {
  case 0: { // rough terrain
    int n = r.i(1, 11), m = r.i(1, 11);
    double sx = R * r.logu(0.06, 1.5), sy = R * r.logu(0.06, 1.5), amp = R * r.pick({0.0, 0.01, 0.05, 0.15, 0.4});
    double ox = -n * sx * r.u(0.2, 0.8), oy = -m * sy * r.u(0.2, 0.8);
    std::vector<std::vector<V3>> g(size_t(n + 1), std::vector<V3>(size_t(m + 1)));
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= m; ++j) g[size_t(i)][size_t(j)] = V3(ox + i * sx, oy + j * sy, r.u(-amp, amp));
    double mu = one_friction(r); bool onemu = r.p(0.4);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j)
      quad(g[size_t(i)][size_t(j)], g[size_t(i + 1)][size_t(j)], g[size_t(i + 1)][size_t(j + 1)], g[size_t(i)][size_t(j + 1)], onemu ? mu : friction(r), onemu ? mu : friction(r), r.p(0.5));
    if (r.p(0.3)) for (size_t k = 0; k < T.size();) { if (r.p(0.15) && T.size() > 1) T.erase(T.begin() + long(k)); else ++k; } // holes
    break; }
  case 1: { // exact grid, flat or with integer-ish steps: vertices and edges in special position
    int n = 2 * r.i(1, 4); double s = r.pick({0.125, 0.25, 0.5, 1.0}) * (R > 1 ? std::floor(R) : R > 0.15 ? 1.0 : 0.125);
    double amp = r.pick({0.0, 0.0, 0.03125});
    double mu = one_friction(r); bool onemu = r.p(0.5); int diag = r.i(0, 2);
    std::vector<std::vector<V3>> g(size_t(n + 1), std::vector<V3>(size_t(n + 1)));
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) g[size_t(i)][size_t(j)] = V3((i - n / 2) * s, (j - n / 2) * s, amp * r.i(-1, 1));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      quad(g[size_t(i)][size_t(j)], g[size_t(i + 1)][size_t(j)], g[size_t(i + 1)][size_t(j + 1)], g[size_t(i)][size_t(j + 1)], onemu ? mu : friction(r), onemu ? mu : friction(r), diag == 2 ? r.p(0.5) : diag == 1);
    break; }
  case 2: { // one to three big triangles
    int n = r.i(1, 3);
    for (int k = 0; k < n; ++k) {
      V3 nn = normal_up(r, 0.4), a = inplane(nn, 0), b = inplane(nn, 1), c(r.u(-.3, .3) * R, r.u(-.3, .3) * R, r.u(-.1, .1) * R);
      double th = r.u(0, 6.28), l = R * r.logu(1, 40);
      V3 p[3];
      for (int i = 0; i < 3; ++i) { double q = th + 2.0943951 * i + r.u(-.5, .5); p[i] = c + (a * std::cos(q) + b * std::sin(q)) * l; }
      T.push_back(tri(p[0], p[1], p[2], friction(r)));
    }
    break; }
  case 3: { // soup all around the wheel
    int n = r.i(1, 60);
    for (int k = 0; k < n; ++k) {
      V3 c(r.u(-1.2, 1.2) * R, r.u(-.8, .8) * R, r.u(-.2, 2.1) * R);
      double l = R * r.logu(0.05, 1.0);
      V3 p[3];
      for (int i = 0; i < 3; ++i) p[i] = c + V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * l;
      T.push_back(tri(p[0], p[1], p[2], friction(r)));
    }
    break; }
  case 4: { // step: two levels and a riser, crossing the wheel
    double h = R * r.u(-0.5, 0.5), x = R * r.u(-0.8, 0.8), L = R * r.u(1.5, 6), mu = friction(r), mu2 = friction(r);
    double slant = r.p(0.5) ? 0.0 : R * r.u(-0.1, 0.1);
    quad(V3(-L, -L, 0), V3(x, -L, 0), V3(x, L, 0), V3(-L, L, 0), mu, mu, true);
    quad(V3(x, -L, 0), V3(x + slant, -L, h), V3(x + slant, L, h), V3(x, L, 0), mu2, mu2, false);
    quad(V3(x + slant, -L, h), V3(L, -L, h), V3(L, L, h), V3(x + slant, L, h), mu, mu2, true);
    break; }
  case 5: { // fine patch: triangles much smaller than the contact
    int n = r.i(10, 34); double s = R * r.logu(0.004, 0.03), amp = s * r.pick({0.0, 0.3});
    double mu = friction(r);
    std::vector<std::vector<V3>> g(size_t(n + 1), std::vector<V3>(size_t(n + 1)));
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) g[size_t(i)][size_t(j)] = V3((i - n / 2.0) * s, (j - n / 2.0) * s, r.u(-amp, amp));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      quad(g[size_t(i)][size_t(j)], g[size_t(i + 1)][size_t(j)], g[size_t(i + 1)][size_t(j + 1)], g[size_t(i)][size_t(j + 1)], mu, mu, r.p(0.5));
    break; }
  case 6: { // trench: floor and two walls, also high
    double b = R * r.u(0.5, 1.2), H = R * r.u(0.5, 2.5), L = R * 3, f = R * r.u(-.3, 0.1), mu = friction(r);
    quad(V3(-b, -L, f), V3(b, -L, f), V3(b, L, f), V3(-b, L, f), mu, mu, true);
    quad(V3(-b, -L, f), V3(-b - R * r.u(0, .3), -L, H), V3(-b - R * r.u(0, .3), L, H), V3(-b, L, f), friction(r), mu, true);
    quad(V3(b, -L, f), V3(b + R * r.u(0, .3), -L, H), V3(b + R * r.u(0, .3), L, H), V3(b, L, f), mu, friction(r), true);
    break; }
  case 7: { // strips of slivers
    int n = r.i(2, 30); double s = R * r.logu(0.01, 0.2), L = R * r.u(1, 8), z0 = R * r.u(-.05, .05), z1 = R * r.u(-.05, .05);
    if (r.p(.02)) { n = r.i(130, 900); s = R * 2.5 / n; L = R * r.u(1, 3); z0 *= s / R; z1 *= s / R; }   // hundreds under a rib
    for (int i = 0; i < n; ++i) {
      double x0 = (i - n / 2.0) * s, x1 = x0 + s, m = friction(r);
      quad(V3(x0, -L, i % 2 ? z0 : z1), V3(x1, -L, i % 2 ? z1 : z0), V3(x1, L, i % 2 ? z1 : z0), V3(x0, L, i % 2 ? z0 : z1), m, m, r.p(0.5));
    }
    break; }
  default: { // bridge: ground and something above it
    double L = R * r.u(1.2, 4), g = -R * r.u(0, 1.5), mu = friction(r), h = R * r.u(-.1, 2.4);
    quad(V3(-L, -L, g), V3(L, -L, g), V3(L, L, g), V3(-L, L, g), mu, mu, true);
    double x0 = R * r.u(-1, 0.2), x1 = x0 + R * r.u(0.2, 1.5);
    quad(V3(x0, -L, h), V3(x1, -L, h), V3(x1, L, h), V3(x0, L, h), friction(r), friction(r), false);
    break; }
  }
  return T;
}
constexpr int KINDS = 9;

inline void transform(std::vector<Tri> &T, Pose const &P) {
  for (Tri &t : T) for (V3 &v : t.v) v = P * v;
}
inline void finish(Rng &r, std::vector<Tri> &T, bool disorder = true) {
  if (disorder) {
    r.shuffle(T);
    for (Tri &t : T) {
      int k = r.i(0, 5);
      if (k & 1) std::swap(t.v[0], t.v[1]);
      if (k & 2) std::swap(t.v[1], t.v[2]);
      if (k & 4) std::swap(t.v[0], t.v[2]);
    }
  }
  // drop degenerate triangles (their normal is undefined)
  std::vector<Tri> o;
  for (Tri &t : T) {
    V3 e1 = t.v[1] - t.v[0], e2 = t.v[2] - t.v[0];
    double a = e1.cross(e2).norm(), l = std::max(e1.norm(), std::max(e2.norm(), (t.v[2] - t.v[1]).norm()));
    if (a > 1e-4 * l * l) { t.n = ref::ground_normal(t); o.push_back(t); }
  }
  T.swap(o);
}

inline enve::triangleground::vecptr make_tris(std::vector<Tri> const &T, std::vector<int> const *ids = nullptr) {
  enve::triangleground::vecptr v;
  for (size_t i = 0; i < T.size(); ++i)
    v.push_back(std::make_shared<enve::triangleground const>(
        ids ? (*ids)[i] : int(i), T[i].mu, to_point(T[i].v[0]), to_point(T[i].v[1]), to_point(T[i].v[2])));
  return v;
}

struct Scene {
  Wheel w; Pose P; std::vector<Tri> T; int kind;
};
// A wheel over a mesh: ground patch placed somewhere in the world, hub at a random height over it.
inline Scene mesh_scene(Rng &r, int kind = -1, bool manyribs = true) {
  Scene s;
  s.w = wheel(r, manyribs);
  s.kind = kind >= 0 ? kind : r.i(0, KINDS - 1);
  s.T = mesh(r, s.w.Rx, s.kind);
  Pose G;                                   // ground frame
  bool exact = (s.kind == 1) && r.p(0.7);
  if (!exact) {
    V3 n = normal_up(r, r.pick({0.0, 0.2, 0.5}));
    double yaw = r.u(-M_PI, M_PI);
    M3 U; V3 a = inplane(n, 0), b = n.cross(a);
    U.r0 = V3(a.x, b.x, n.x); U.r1 = V3(a.y, b.y, n.y); U.r2 = V3(a.z, b.z, n.z);
    G.R = U * ref::rotz(yaw);
    G.t = place(r, s.w.Rx);
  } else G.t = V3(r.i(-2, 2), r.i(-2, 2), 0);
  transform(s.T, G);
  finish(r, s.T, true);
  s.P.R = rotation(r);
  double h = s.w.Rx * (r.p(0.7) ? r.u(0.75, 1.02) : r.p(0.8) ? r.u(0.1, 1.3) : r.u(-1.2, 3));
  V3 off = exact ? V3(r.i(-1, 1) * 0.25, r.i(-1, 1) * 0.25, h) : V3(r.u(-.5, .5) * s.w.Rx, r.u(-.5, .5) * s.w.Rx, h);
  if (exact && r.p(0.5)) { off.x += 1e-3 * r.u(); off.y += 1e-3 * r.u(); }
  s.P.t = G * off;
  if (s.kind == 5) s.P.t = G * V3(off.x * 0.05, off.y * 0.05, s.w.Rx * r.u(0.9, 0.9999));
  return s;
}
inline std::string str(Scene const &s) { return str(s.w) + " pose " + str(s.P) + " kind " + std::to_string(s.kind) + " " + str(s.T); }

// ---------------------------------------------------------------- objects that were used before
// What a wheel reports is a matter of this set up alone: some of the wheels were set up before, elsewhere on the
// same ground or on others, with either method, and some had another number of ribs then.
inline std::unique_ptr<enve::shell> lived_shell(Rng &r, Wheel const &w, Pose const &P, enve::ground::mesh const *m = nullptr, enve::ground::flat const *f = nullptr) {
  if (r.p(0.6)) return make_shell(w);
  Wheel v = w; if (r.p(0.3)) v.n = r.i(1, 24);
  auto sh = make_shell(v);
  int k = r.i(1, 3), at = r.i(0, k - 1);
  for (int i = 0; i < k; ++i) {
    Pose Q; double R = w.Rx;
    switch (r.i(0, 3)) {                    // where it was
    case 0: { double q = r.p(.5) ? .3 : r.logu(1e-9, .1); Q = P; Q.t = P.t + V3(r.u(-q, q), r.u(-q, q), r.u(-q, q)) * R; break; }
    case 1: Q.t = P.t; Q.R = rotation(r); break;
    case 2: Q.R = rotation(r); Q.t = P.t + V3(r.u(-3, 3), r.u(-3, 3), r.u(-1, 1)) * R; break;
    default: Q = P; Q.R = P.R * ref::roty(r.u(-3, 3)); break;
    }
    std::string method = r.p(0.6) ? "geometric" : "sampling";
    switch (r.i(0, 5)) {                    // on what
    case 0: case 1: if (m) { sh->setup(*m, to_affine(Q), method); break; }  // fall through
    case 2: if (f) { sh->setup(*f, to_affine(Q), method); break; }          // fall through
    case 3: { V3 n = normal_up(r, .3); enve::ground::flat g(r.u(0, 2), to_point(Q.t - n * (R * r.u(.5, 1.1))), to_vec(n)); sh->setup(g, to_affine(Q), method); break; }
    case 4: { V3 c = Q.t - V3(0, 0, R * r.u(.6, .98)); std::vector<Tri> T; double s = R * r.u(.2, 1.5);
      for (int a = -2; a < 2; ++a) for (int b = -2; b < 2; ++b) T.push_back(tri(c + V3(a * s, b * s, 0), c + V3((a + 1) * s, b * s, 0), c + V3(a * s, (b + 1) * s, r.u(-.1, .1) * s), r.u(0, 2)));
      enve::ground::mesh g(make_tris(T)); sh->setup(g, to_affine(Q), method); break; }
    default: { V3 c = Q.t + V3(40 * R, 0, 0); std::vector<Tri> T{tri(c, c + V3(R, 0, 0), c + V3(0, R, 0), 1)}; enve::ground::mesh g(make_tris(T)); sh->setup(g, to_affine(Q), method); break; }
    }
    if (i == at && v.n != w.n) sh->resize(size_t(w.n));
  }
  return sh;
}
// The same for meshes: some held other triangles, and were queried, before they were given these.
inline std::unique_ptr<enve::ground::mesh> lived_mesh(Rng &r, enve::triangleground::vecptr const &tg, Pose const &P, double R) {
  if (r.p(0.7)) return std::unique_ptr<enve::ground::mesh>(new enve::ground::mesh(tg));
  V3 c = P.t - V3(0, 0, R * r.u(.5, 1.1)); std::vector<Tri> T; double s = R * r.logu(.1, 3); int n = r.i(1, 4);
  for (int a = -n; a < n; ++a) for (int b = -n; b < n; ++b) T.push_back(tri(c + V3(a * s, b * s, 0), c + V3((a + 1) * s, b * s, 0), c + V3(a * s, (b + 1) * s, 0), r.u(0, 2)));
  std::unique_ptr<enve::ground::mesh> m(new enve::ground::mesh(make_tris(T)));
  if (r.p(0.7)) { auto b = std::make_shared<acme::aabb>(to_point(P.t - V3(R, R, R)), to_point(P.t + V3(R, R, R)), 0, 0); enve::triangleground::vecptr got; m->intersection(b, got); }
  enve::ground::mesh to(tg);
  m->copy(to);
  return m;
}

// A wheel on its way: n poses, mostly close to one another (down to not moving at all), now and then a jump or a lift.
inline std::vector<Pose> journey(Rng &r, Pose P, double R, int n) {
  std::vector<Pose> v;
  Pose Q = P;
  int left = 0, how = 0; double step = 0, turn = 0; V3 dir;
  for (int k = 0; k < n; ++k) {
    if (left-- <= 0) {
      left = r.i(1, 12); how = r.i(0, 6);
      step = R * r.logu(1e-9, .3); turn = r.logu(1e-9, .5) * (r.p(.5) ? 1 : -1);
      dir = V3(r.u(-1, 1), r.u(-1, 1), r.u(-.2, .2));
      if (r.p(.3)) { V3 to = P.t - Q.t; if (to.norm() > 0) dir = to.unit(); }
    }
    switch (how) {
    case 0: break;                                                        // stays
    case 1: Q.t = Q.t + dir * step; break;                                // slides
    case 2: Q.t = Q.t + dir * step; Q.R = Q.R * ref::roty(turn); break;   // rolls
    case 3: Q.R = Q.R * ref::roty(turn); break;                           // spins
    case 4: Q.R = ref::rotz(turn) * Q.R; break;                           // steers
    case 5: Q.R = Q.R * ref::rotx(turn); Q.t = Q.t + V3(0, 0, step); break; // leans and rises
    default: if (left == 0) { Q.R = rotation(r); Q.t = P.t + V3(r.u(-1, 1), r.u(-1, 1), r.u(-.3, .3)) * R; } break;  // jumps
    }
    if (r.p(.02)) Q.t = P.t + V3(0, 0, r.pick({3.0, 30.0})) * R;          // in the air, and back with the next jump
    else if ((Q.t - P.t).norm() > 2 * R && r.p(.3)) Q.t = P.t;
    v.push_back(Q);
  }
  return v;
}

// ---------------------------------------------------------------- comparison helpers
struct RibOut { V3 point, normal; double friction, depth, area, volume; };
inline RibOut rib_out(enve::shell const &sh, size_t i) {
  RibOut o; acme::point p; acme::vec3 n;
  sh.contactPoint(i, p); sh.contactNormal(i, n);
  o.point = to_v3(p); o.normal = to_v3(n);
  sh.contactFriction(i, o.friction); sh.contactDepth(i, o.depth); sh.contactArea(i, o.area); sh.contactVolume(i, o.volume);
  return o;
}
inline RibOut rib_out(enve::output const &u) {
  RibOut o; o.point = to_v3(u.point); o.normal = to_v3(u.normal); o.friction = u.friction; o.depth = u.depth; o.area = u.area; o.volume = u.volume;
  return o;
}
inline std::string str(RibOut const &o) {
  return "point" + str(o.point) + " normal" + str(o.normal) + " mu=" + mon::num(o.friction) + " depth=" + mon::num(o.depth) + " area=" + mon::num(o.area) + " volume=" + mon::num(o.volume);
}
inline std::string str(ref::Out const &o) {
  return std::string(o.contact ? "contact " : "no-contact ") + "point" + str(o.point) + " normal" + str(o.normal) + " mu=" + mon::num(o.friction) + " depth=" + mon::num(o.depth) + " area=" + mon::num(o.area) + " volume=" + mon::num(o.volume);
}
inline uint64_t fp(RibOut const &o) {
  double d[5] = {o.point.x, o.point.z, o.normal.x, o.area, o.volume};
  return mon::hash_bytes(d, sizeof d);
}
inline bool finite(RibOut const &o) {
  return std::isfinite(o.point.x + o.point.y + o.point.z + o.normal.x + o.normal.y + o.normal.z + o.friction + o.depth + o.area + o.volume);
}

// Compares what the library reported for a rib with the reference; tol is relative to the rib size.
// acme snaps points closer than ~1.5e-8 together, so lengths have an absolute floor too.
inline bool compare(mon::Mon &M, std::string const &pre, RibOut const &g, ref::Out const &x, ref::Rib const &rb, double world, double tol) {
  double L = rb.r, tp = tol * L + (tol > 1e-8 ? 3e-6 / std::max(1e-3, x.minsin) : 0) + 1e-12 * world;
  std::string both = " got " + str(g) + " expected " + str(x);
  long before = M.violations;
  if (!finite(g)) { M.fail(pre + "-not-finite", both); return false; }
  if (!((g.point - x.point).norm() <= tp)) M.fail(pre + "-point", both);
  if (x.normal_mass > 1e-2 && !((g.normal - x.normal).norm() <= 1e2 * tp / L)) M.fail(pre + "-normal", both);
  if (!(std::fabs(g.friction - x.friction) <= (1e-6 + 10 * tp / L) * std::max(1.0, x.friction))) M.fail(pre + "-friction", both);
  if (!(std::fabs(g.depth - x.depth) <= tp)) M.fail(pre + "-depth", both);
  if (!(std::fabs(g.area - x.area) <= (tp * std::max(1, x.pieces) + x.slack) * rb.w + 1e-15)) M.fail(pre + "-area", both);
  if (!(std::fabs(g.volume - x.volume) <= tp * L * rb.w * std::max(1, x.pieces) + 1e-15)) M.fail(pre + "-volume", both);
  return M.violations == before;
}
inline double world_scale(Pose const &P, std::vector<Tri> const &T) {
  double m = P.t.norm();
  for (Tri const &t : T) for (V3 const &v : t.v) m = std::max(m, v.norm());
  return m;
}
} // namespace gen
