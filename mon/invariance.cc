// The contact is a function of the surface, not of its description: the same surface described,
// placed or ordered differently gives the same contact.
#include "gen.hh"
using namespace gen;
static mon::Mon M;

struct Res { bool ret; std::vector<RibOut> rib; };
static Res solve(Rng &r, Wheel const &w, Pose const &P, std::vector<Tri> const &T, std::string const &method, std::vector<int> const *ids = nullptr) {
  auto tg = make_tris(T, ids);
  auto pm = lived_mesh(r, tg, P, w.Rx); enve::ground::mesh const &mesh = *pm;
  auto sh = lived_shell(r, w, P, &mesh);
  Res o; o.ret = sh->setup(mesh, to_affine(P), method);
  for (int i = 0; i < w.n; ++i) o.rib.push_back(rib_out(*sh, size_t(i)));
  return o;
}
static Res solve_flat(Rng &r, Wheel const &w, Pose const &P, V3 const &o, V3 const &n, double mu, std::string const &method) {
  enve::ground::flat f(mu, to_point(o), to_vec(n));
  auto sh = lived_shell(r, w, P, nullptr, &f);
  Res q; q.ret = sh->setup(f, to_affine(P), method);
  for (int i = 0; i < w.n; ++i) q.rib.push_back(rib_out(*sh, size_t(i)));
  return q;
}

struct Judge { std::vector<char> amb; std::vector<ref::Rib> rb; std::vector<double> cond; std::vector<char> soft; };
// where the model itself is discontinuous there is no verdict
static Judge judge(Wheel const &w, Pose const &P, std::vector<Tri> const &T, std::string const &method) {
  Judge j;
  bool vertical = false;               // which side of a vertical triangle is up is decided by its winding
  for (Tri const &t : T) if (std::fabs(t.n.z) < 1e-6) vertical = true;
  for (int i = 0; i < w.n; ++i) {
    ref::Rib rb = rib_of(w, i);
    j.rb.push_back(rb);
    ref::Out x;
    if (method == "geometric") x = ref::mesh_geometric(P, rb, T);
    else { V3 q[4]; ref::sample_origins(P, rb, q); ref::Hit h[4]; for (int k = 0; k < 4; ++k) h[k] = ref::drop(q[k], T); x = ref::sampling(P, rb, h);
      // ground outside of the box of the wheel need not be looked at
      for (int k = 0; k < 4; ++k) if (h[k].hit && std::fabs(h[k].p.z - P.t.z) > w.Rx) x.ambiguous = true; }
    bool weak = x.contact && !(x.length - x.slack > 1e-3 * rb.r + 2e-4 && x.length * rb.w > 1e-7);
    j.amb.push_back(x.ambiguous || weak);
    j.cond.push_back(std::max(1e-3, x.minsin));
    j.soft.push_back(x.normal_mass < 1e-2 || (vertical && method == "geometric"));
  }
  return j;
}
enum What { ALL = 0, EXTENT = 1 };   // EXTENT: area, volume, friction only
static void same(std::string const &name, Judge const &j, Res const &a, Res const &b, double world, What what = ALL,
                 std::function<RibOut(RibOut)> map = nullptr, bool reverse = false, bool contact_only = false) {
  bool certain = true;
  for (size_t i = 0; i < a.rib.size(); ++i) {
    if (j.amb[i]) { certain = false; M.seen(name + ":no-verdict"); continue; }
    RibOut x = map ? map(a.rib[i]) : a.rib[i];
    RibOut const &y = b.rib[reverse ? a.rib.size() - 1 - i : i];
    double L = j.rb[i].r, w = j.rb[i].w, t = 1e-6 * L / j.cond[i] + 1e-11 * world;
    bool contact = x.volume > 0;
    if (contact_only && !contact && !(y.volume > 0)) continue;
    M.eval(fp(x) ^ mon::hash_str(name), contact);
    if (contact) M.seen(name + ":contact");
    bool ok = std::fabs(x.area - y.area) <= 10 * t * w && std::fabs(x.volume - y.volume) <= 10 * t * w * L && std::fabs(x.friction - y.friction) <= (1e-5 + 10 * t / L) * std::max(1.0, x.friction);
    if (what == ALL) ok = ok && (x.point - y.point).norm() <= t && (j.soft[i] || (x.normal - y.normal).norm() <= 1e-4 / j.cond[i]) && std::fabs(x.depth - y.depth) <= t;
    if (!ok) { M.fail(name, "rib " + std::to_string(i) + ": " + str(x) + " then " + str(y)); return; }
  }
  if (certain && a.ret != b.ret) M.fail(name + "-return", std::to_string(a.ret) + " then " + std::to_string(b.ret));
}

static void describe(Scene const &s, std::string const &method) { M.describe = [&s, method] { return str(s) + " " + method; }; }
static std::string method_of(Rng &r) { return r.p(0.65) ? "geometric" : "sampling"; }

static void order_case(Rng &r) {   // order of the triangles and of their vertices, identifiers
  Scene s = mesh_scene(r); if (s.T.empty()) return;
  std::string m = method_of(r); describe(s, m);
  Judge j = judge(s.w, s.P, s.T, m);
  Res a = solve(r, s.w, s.P, s.T, m);
  std::vector<Tri> T = s.T; r.shuffle(T);
  for (Tri &t : T) { int k = r.i(0, 5); if (k & 1) std::swap(t.v[0], t.v[1]); if (k & 2) std::swap(t.v[1], t.v[2]); }
  std::vector<int> ids; int mode = r.i(0, 2); for (size_t i = 0; i < T.size(); ++i) ids.push_back(mode == 0 ? 0 : r.i(-4, 9999));
  same("order", j, a, solve(r, s.w, s.P, T, m, &ids), world_scale(s.P, s.T));
  if (a.ret) M.sample(M.describe);
}
static void far_case(Rng &r) {     // ground elsewhere does not matter
  Scene s = mesh_scene(r); if (s.T.empty()) return;
  std::string m = method_of(r); describe(s, m);
  Judge j = judge(s.w, s.P, s.T, m);
  Res a = solve(r, s.w, s.P, s.T, m);
  std::vector<Tri> T = s.T; double D = 6 * (s.w.Rx + s.w.Ly);
  for (int n = r.i(1, 60); n > 0; --n) {
    double th = r.u(0, 6.28), d = D * r.logu(1, 30);
    V3 c = s.P.t + V3(d * std::cos(th), d * std::sin(th), r.u(-1, 1) * D);
    if (r.p(0.2)) c = s.P.t + V3(r.u(-1, 1), r.u(-1, 1), r.sgn() * D * r.u(1.5, 3)); // above or below
    double l = 0.3 * D;
    T.push_back(tri(c, c + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), c + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), friction(r)));
  }
  finish(r, T, true);
  same("far-ground", j, a, solve(r, s.w, s.P, T, m), world_scale(s.P, s.T));
}
static void rigid_case(Rng &r) {   // moving wheel and ground together
  Scene s = mesh_scene(r); if (s.T.empty()) return;
  std::string m = method_of(r); describe(s, m);
  Judge j = judge(s.w, s.P, s.T, m);
  Pose G; G.R = ref::rotz(r.p(0.3) ? r.pick({M_PI / 2, M_PI, -M_PI / 2}) : r.u(-M_PI, M_PI)); G.t = V3(r.u(-5, 5), r.u(-5, 5), r.u(-2, 2));
  if (m == "geometric" && r.p(0.5)) { // also tilt, when no triangle changes side
    M3 R = ref::rotx(r.u(-.3, .3)) * ref::roty(r.u(-.3, .3)) * G.R;
    bool ok = true;
    for (Tri const &t : s.T) if (!((R * t.n).z > 1e-6) || !(t.n.z > 1e-6)) ok = false;
    if (ok) { G.R = R; M.seen("rigid:tilted"); }
  } else for (Tri const &t : s.T) if (std::fabs(t.n.z) < 1e-6) return;   // vertical: which side is up is decided by rounding
  std::vector<Tri> T = s.T; transform(T, G);
  for (Tri &t : T) t.n = ref::ground_normal(t);
  Pose Q; Q.R = G.R * s.P.R; Q.t = G * s.P.t;
  if (m == "geometric") { Judge k = judge(s.w, Q, T, m); for (size_t i = 0; i < k.amb.size(); ++i) j.amb[i] = j.amb[i] || k.amb[i]; }
  same("rigid-motion", j, solve(r, s.w, s.P, s.T, m), solve(r, s.w, Q, T, m), world_scale(s.P, s.T) + 6, ALL,
       [&](RibOut o) { o.point = G * o.point; o.normal = G.R * o.normal; return o; });
}
static void mirror_case(Rng &r) {  // mirror image across the x-z plane
  Scene s = mesh_scene(r); if (s.T.empty()) return;
  std::string m = method_of(r); describe(s, m);
  Judge j = judge(s.w, s.P, s.T, m);
  auto mv = [](V3 v) { v.y = -v.y; return v; };
  std::vector<Tri> T = s.T; for (Tri &t : T) { for (V3 &v : t.v) v = mv(v); }
  finish(r, T, false);
  if (T.size() != s.T.size()) return;
  for (Tri const &t : s.T) if (std::fabs(t.n.z) < 1e-6) return;
  Pose Q = s.P; Q.t = mv(Q.t);
  Q.R.r0.y = -Q.R.r0.y; Q.R.r1.x = -Q.R.r1.x; Q.R.r1.z = -Q.R.r1.z; Q.R.r2.y = -Q.R.r2.y;
  same("mirror", j, solve(r, s.w, s.P, s.T, m), solve(r, s.w, Q, T, m), world_scale(s.P, s.T), ALL,
       [&](RibOut o) { o.point = mv(o.point); o.normal = mv(o.normal); return o; }, true);
}
static void spin_case(Rng &r) {    // turning the wheel on its axle
  bool flat = r.p(0.3); double th = r.u(-M_PI, M_PI);
  Scene s = mesh_scene(r);
  if (flat) {
    double h = s.w.Rx * r.u(.6, 1.02); V3 n = normal_up(r, .4), o = s.P.t - n * h + inplane(n, 0) * r.u(-1, 1); double mu = friction(r);
    M.describe = [&] { return str(s.w) + " pose " + str(s.P) + " spin " + mon::num(th) + " flat " + str(o) + str(n); };
    Judge j; bool certain = true; std::string m = method_of(r);
    for (int i = 0; i < s.w.n; ++i) { ref::Rib rb = rib_of(s.w, i); ref::Out x;
      if (m == "geometric") x = ref::flat_geometric(s.P, rb, o, n, mu);
      else { V3 q[4]; ref::sample_origins(s.P, rb, q); ref::Hit h[4];
        for (int k = 0; k < 4; ++k) { h[k].hit = true; h[k].mu = mu; h[k].p = V3(q[k].x, q[k].y, o.z - ((q[k].x - o.x) * n.x + (q[k].y - o.y) * n.y) / n.z); }
        x = ref::sampling(s.P, rb, h); x.minsin = n.z; }
      bool weak = x.contact && x.length * rb.w < 1e-7; j.rb.push_back(rb); j.amb.push_back(x.ambiguous || weak); j.cond.push_back(std::max(1e-3, x.minsin)); j.soft.push_back(0); certain = certain && !weak; }
    Pose Q = s.P; Q.R = s.P.R * ref::roty(th);
    same("spin", j, solve_flat(r, s.w, s.P, o, n, mu, m), solve_flat(r, s.w, Q, o, n, mu, m), s.P.t.norm() + o.norm(), ALL, nullptr, false, true);
    return;
  }
  if (s.T.empty()) return;
  std::string m = method_of(r);
  describe(s, m);
  Judge j = judge(s.w, s.P, s.T, m);
  Pose Q = s.P; Q.R = s.P.R * ref::roty(th);
  if (m == "sampling") M.seen("spin:sampling");
  same("spin", j, solve(r, s.w, s.P, s.T, m), solve(r, s.w, Q, s.T, m), world_scale(s.P, s.T), ALL, nullptr, false, true);
}
static void subdivide_case(Rng &r) { // the same surface with smaller triangles
  Scene s = mesh_scene(r); if (s.T.empty() || s.T.size() > 300) return;
  describe(s, "geometric");
  std::vector<Tri> T;
  auto split = [&](Tri const &t) {
    auto put = [&](V3 a, V3 b, V3 c) { T.push_back(tri(a, b, c, t.mu)); };
    int how = r.i(0, 3);
    V3 const *v = t.v;
    if (how == 0) put(v[0], v[1], v[2]);
    else if (how == 1) { V3 a = (v[0] + v[1]) / 2, b = (v[1] + v[2]) / 2, c = (v[2] + v[0]) / 2; put(v[0], a, c); put(a, v[1], b); put(c, b, v[2]); put(a, b, c); }
    else if (how == 2) { double p = r.u(.2, .6), q = r.u(.1, .3); V3 m = v[0] * p + v[1] * q + v[2] * (1 - p - q); put(v[0], v[1], m); put(v[1], v[2], m); put(v[2], v[0], m); }
    else { double p = r.u(.2, .8); V3 m = v[0] * p + v[1] * (1 - p); put(v[0], m, v[2]); put(m, v[1], v[2]); }
  };
  for (Tri const &t : s.T) split(t);
  if (r.p(0.4) && T.size() < 300) { auto U = T; T.clear(); for (Tri const &t : U) split(t); }
  for (Tri &t : T) t.n = ref::ground_normal(t);
  r.shuffle(T);
  Judge j = judge(s.w, s.P, s.T, "geometric"), k = judge(s.w, s.P, T, "geometric");
  for (size_t i = 0; i < k.amb.size(); ++i) { j.amb[i] = j.amb[i] || k.amb[i]; j.cond[i] = std::min(j.cond[i], k.cond[i]) * 0.1; }
  same("subdivision", j, solve(r, s.w, s.P, s.T, "geometric"), solve(r, s.w, s.P, T, "geometric"), world_scale(s.P, s.T), EXTENT);
}
// A flat mesh and the same plane given as flat ground
static void flatmesh_case(Rng &r) {
  Wheel w = wheel(r, false);
  Pose P; P.R = rotation(r); P.t = place(r, w.Rx);
  V3 n = normal_up(r, 0.4); double mu = friction(r), h = w.Rx * (r.p(.8) ? r.u(.6, 1.02) : r.u(-.9, 1.3));
  V3 o = P.t - n * h, a = inplane(n, 0), b = inplane(n, 1);
  double th = r.u(0, 6.28); V3 e = a * std::cos(th) + b * std::sin(th), f = n.cross(e);
  double L = 3 * (w.Rx + w.Ly);
  int N = r.i(1, 8); double step = 2 * L / N, jit = N > 1 ? r.u(0, .2) * step : 0;   // quads stay convex
  std::vector<std::vector<V3>> g(size_t(N + 1), std::vector<V3>(size_t(N + 1)));
  for (int i = 0; i <= N; ++i) for (int k = 0; k <= N; ++k) {
    double x = -L + i * step, y = -L + k * step;
    if (i && k && i < N && k < N) { x += r.u(-jit, jit); y += r.u(-jit, jit); }
    g[size_t(i)][size_t(k)] = o + e * x + f * y;
  }
  std::vector<Tri> T;
  for (size_t i = 0; i < size_t(N); ++i) for (size_t k = 0; k < size_t(N); ++k) {
    if (r.p(.5)) { T.push_back(tri(g[i][k], g[i + 1][k], g[i + 1][k + 1], mu)); T.push_back(tri(g[i][k], g[i + 1][k + 1], g[i][k + 1], mu)); }
    else { T.push_back(tri(g[i][k], g[i + 1][k], g[i][k + 1], mu)); T.push_back(tri(g[i + 1][k], g[i + 1][k + 1], g[i][k + 1], mu)); }
  }
  finish(r, T);
  std::string m = method_of(r);
  M.describe = [&] { return str(w) + " pose " + str(P) + " flat origin " + str(o) + " normal " + str(n) + " mu " + mon::num(mu) + " mesh " + std::to_string(N) + " " + m; };
  Judge j = judge(w, P, T, m);
  for (int i = 0; i < w.n; ++i) {
    ref::Rib rb = rib_of(w, i);
    ref::Out x = ref::flat_geometric(P, rb, o, n, mu);
    // with the hub on the plane or below it the two descriptions differ: the mesh is then met from the other side
    if (m == "geometric" && (x.ambiguous || (P * V3(0, rb.y, 0) - o).dot(n) < 1e-3 * rb.r)) j.amb[size_t(i)] = 1;
    j.cond[size_t(i)] = std::min(j.cond[size_t(i)], std::max(1e-3, x.minsin)) * 0.1;
  }
  same("flat-as-mesh", j, solve_flat(r, w, P, o, n, mu, m), solve(r, w, P, T, m), world_scale(P, T), m == "sampling" ? ALL : EXTENT);
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("order", 16000, 300000, order_case);
  M.run("far-ground", 12000, 200000, far_case);
  M.run("rigid-motion", 14000, 300000, rigid_case);
  M.run("mirror", 12000, 200000, mirror_case);
  M.run("spin", 12000, 200000, spin_case);
  M.run("subdivision", 12000, 200000, subdivide_case);
  M.run("flat-as-mesh", 12000, 200000, flatmesh_case);
  return M.finish();
}
