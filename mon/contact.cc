// Monitors of the per-rib contact: flat ground, mesh, sampling (properties CONTACT-*).
#include "gen.hh"
using namespace gen;
static mon::Mon M;

// how wrong the model is allowed to be, by conditioning of the case
static double tol_of(ref::Out const &x) { return 1e-7 / std::max(1e-3, x.minsin); }

// not just a graze of the rim
static bool solid(ref::Out const &x, ref::Rib const &rb) {
  return x.length - x.slack > 1e-3 * rb.r + 2e-4 && x.length * rb.w > 1e-7;
}

static void judge(std::string const &pre, bool ret, RibOut const &g, ref::Out const &x, Pose const &P, ref::Rib const &rb, double world) {
  if (!finite(g)) { M.fail(pre + "-not-finite", str(g)); return; }
  if (x.ambiguous) { M.seen(pre + ":no-verdict"); return; }
  bool strong = x.contact && solid(x, rb);
  bool weak = x.contact && !strong;
  if (weak) { M.seen(pre + ":grazing"); return; }
  M.eval(fp(g), x.contact);
  if (x.contact != ret) {
    M.fail(pre + (ret ? "-false-contact" : "-lost-contact"), "returned " + std::to_string(ret) + " got " + str(g) + " expected " + str(x));
    return;
  }
  if (!x.contact) {
    M.seen(pre + ":no-contact");
    ref::Out z = ref::no_contact(P, rb);
    compare(M, pre + "-nocontact", g, z, rb, world, 1e-9);
    return;
  }
  M.seen(pre + ":contact");
  if (x.pieces > 1) M.seen(pre + ":contact-multi-piece");
  // in a weighted composition the point of a thin piece is ill conditioned only through its weight
  compare(M, pre, g, x, rb, world, tol_of(x));
}

static void flat_case(Rng &r, bool sampling) {
  Wheel w = wheel(r);
  Pose P; P.R = rotation(r); P.t = place(r, w.Rx);
  V3 n = normal_up(r, r.pick({0.1, 0.5, 1.3}));
  double mu = one_friction(r);
  // a point of the plane such that the hub is at a chosen height
  double h = w.Rx * (r.p(0.75) ? r.u(0.6, 1.02) : r.u(-1.3, 1.3));
  V3 o = P.t - n * h;
  if (r.p(.12)) {   // one of the ribs just touches, or just does not
    ref::Rib rb = rib_of(w, r.i(0, w.n - 1)); V3 c = P * V3(0, rb.y, 0), ax = P.R.col(1);
    double s = (n - ax * ax.dot(n)).norm(), dl = r.logu(1e-9, 1e-2) * (r.p(.8) ? 1 : -1);
    o = c - n * (rb.r * s * (1 - dl)); M.seen("flat:grazing");
  }
  o = o + (inplane(n, 0) * r.u(-1, 1) + inplane(n, 1) * r.u(-1, 1)) * r.pick({0.0, 1.0, 30.0});
  double len = r.p(0.5) ? 1.0 : r.logu(0.01, 100);
  V3 nn = n * len;
  M.describe = [&] { return str(w) + " pose " + str(P) + " flat origin " + str(o) + " normal " + str(nn) + " mu=" + mon::num(mu) + (sampling ? " sampling" : " geometric"); };
  int ctor = r.i(0, 2);
  std::unique_ptr<enve::ground::flat> f;
  if (ctor == 0) f.reset(new enve::ground::flat(mu, to_point(o), to_vec(nn)));
  else if (ctor == 1) f.reset(new enve::ground::flat(mu, o.x, o.y, o.z, nn.x, nn.y, nn.z));
  else f.reset(new enve::ground::flat(mu, acme::plane(to_point(o), to_vec(nn))));
  auto sh = lived_shell(r, w, P, nullptr, f.get());
  std::string method = sampling ? "sampling" : "geometric";
  bool ret = sh->setup(*f, to_affine(P), method);
  double world = P.t.norm() + o.norm();
  bool any = false, certain = true;
  std::string pre = sampling ? "flat-sampling" : "flat-geometric";
  for (int i = 0; i < w.n; ++i) {
    ref::Rib rb = rib_of(w, i);
    ref::Out x;
    if (!sampling) x = ref::flat_geometric(P, rb, o, n, mu);
    else {
      ref::Hit s[4]; V3 q[4]; ref::sample_origins(P, rb, q);
      for (int k = 0; k < 4; ++k) {
        s[k].hit = true; s[k].mu = mu;
        s[k].p = V3(q[k].x, q[k].y, o.z - ((q[k].x - o.x) * n.x + (q[k].y - o.y) * n.y) / n.z);
      }
      x = ref::sampling(P, rb, s);
      x.minsin = std::min(x.minsin, n.z);
      x.normal_mass = 1;
    }
    RibOut g = rib_out(*sh, size_t(i));
    enve::rib direct(i, rb.r, rb.y, rb.w, 0.0);
    enve::output u;
    bool dret = direct.envelop(*f, to_affine(P), method, u);
    judge(pre, dret, rib_out(u), x, P, rb, world);
    // the shell reports what its ribs report
    bool shret = g.area > 0 || g.volume > 0;
    judge("shell-" + pre, shret, g, x, P, rb, world);
    if (x.ambiguous || (x.contact && !solid(x, rb))) certain = false;
    any = any || x.contact;
  }
  if (certain && any != ret) M.fail(pre + "-return", "setup returned " + std::to_string(ret) + " expected " + std::to_string(any));
  M.sample(M.describe);
}

// Raises the hub until one of the ribs just touches.
static void graze(Rng &r, Scene &s, bool sampling) {
  if (!r.p(.12) || s.T.empty()) return;
  ref::Rib rb = rib_of(s.w, r.i(0, s.w.n - 1));
  double dl = rb.r * r.logu(1e-9, 1e-2) * (r.p(.85) ? 1 : -1);
  Pose P = s.P;
  for (int k = 0; k < 6; ++k) {
    ref::Out x;
    if (sampling) { ref::Hit h[4]; V3 q[4]; ref::sample_origins(P, rb, q); for (int j = 0; j < 4; ++j) h[j] = ref::drop(q[j], s.T); x = ref::sampling(P, rb, h); }
    else x = ref::mesh_geometric(P, rb, s.T);
    if (!x.contact) break;
    P.t = P.t + x.normal * (x.depth - dl);
  }
  s.P = P; M.seen("mesh:grazing");
}

static void mesh_case(Rng &r, int kind) {
  Scene s = mesh_scene(r, kind);
  graze(r, s, false);
  if (s.T.empty()) { M.seen("mesh:empty-scene"); return; }
  M.describe = [&] { return str(s); };
  auto tg = make_tris(s.T);
  auto pm = lived_mesh(r, tg, s.P, s.w.Rx); enve::ground::mesh const &mesh = *pm;
  auto sh = lived_shell(r, s.w, s.P, &mesh);
  bool ret = sh->setup(mesh, to_affine(s.P), "geometric");
  double world = world_scale(s.P, s.T);
  bool any = false, certain = true;
  for (int i = 0; i < s.w.n; ++i) {
    ref::Rib rb = rib_of(s.w, i);
    ref::Out x = ref::mesh_geometric(s.P, rb, s.T);
    RibOut g = rib_out(*sh, size_t(i));
    if (x.pieces > 200) M.seen("mesh:more than 200 pieces");
    judge("mesh-geometric", g.area > 0 || g.volume > 0, g, x, s.P, rb, world);
    if (i % 3 == 0 && s.T.size() < 400) {
      enve::rib direct(i, rb.r, rb.y, rb.w, 0.0);
      enve::output u;
      bool dret = direct.envelop(tg, to_affine(s.P), "geometric", u);
      judge("rib-mesh-geometric", dret, rib_out(u), x, s.P, rb, world);
    }
    if (x.ambiguous || (x.contact && !solid(x, rb))) certain = false;
    any = any || x.contact;
  }
  M.seen("mesh:kind" + std::to_string(s.kind));
  if (certain && any != ret) M.fail("mesh-geometric-return", "setup returned " + std::to_string(ret) + " expected " + std::to_string(any));
  if (any) M.sample(M.describe);
}

static void mesh_sampling_case(Rng &r, int kind) {
  Scene s = mesh_scene(r, kind);
  graze(r, s, true);
  if (s.T.empty()) { M.seen("mesh:empty-scene"); return; }
  M.describe = [&] { return str(s) + " sampling"; };
  auto tg = make_tris(s.T);
  auto pm = lived_mesh(r, tg, s.P, s.w.Rx); enve::ground::mesh const &mesh = *pm;
  auto sh = lived_shell(r, s.w, s.P, &mesh);
  bool ret = sh->setup(mesh, to_affine(s.P), "sampling");
  double world = world_scale(s.P, s.T);
  bool any = false, certain = true;
  // triangles the wheel can reach for sure
  std::vector<Tri> near, far;
  double a = s.w.Rx, b = 4 * (s.w.Rx + s.w.Ly);
  for (Tri const &t : s.T) {
    bool in = true, out = false;
    for (int k = 0; k < 3; ++k) {
      auto c = [&](V3 const &v) { return k == 0 ? v.x : k == 1 ? v.y : v.z; };
      double mn = std::min(c(t.v[0]), std::min(c(t.v[1]), c(t.v[2]))), mx = std::max(c(t.v[0]), std::max(c(t.v[1]), c(t.v[2]))), q = c(s.P.t);
      if (mn > q + a || mx < q - a) in = false;
      if (mn > q + b || mx < q - b) out = true;
    }
    if (in) near.push_back(t);
    if (!out) far.push_back(t);
  }
  for (int i = 0; i < s.w.n; ++i) {
    ref::Rib rb = rib_of(s.w, i);
    V3 q[4]; ref::sample_origins(s.P, rb, q);
    ref::Hit hn[4], hf[4], ha[4]; bool same = true;
    for (int k = 0; k < 4; ++k) {
      hn[k] = ref::drop(q[k], near); hf[k] = ref::drop(q[k], far); ha[k] = ref::drop(q[k], s.T);
      if (hf[k].ambiguous || hn[k].hit != hf[k].hit || (hn[k].hit && std::fabs(hn[k].p.z - hf[k].p.z) > 0)) same = false;
    }
    RibOut g = rib_out(*sh, size_t(i));
    bool gret = g.area > 0 || g.volume > 0;
    if (same) {
      ref::Out x = ref::sampling(s.P, rb, hn);
      judge("mesh-sampling", gret, g, x, s.P, rb, world);
      if (x.ambiguous || (x.contact && !solid(x, rb))) certain = false;
      any = any || x.contact;
    } else { M.seen("mesh-sampling:out-of-box"); certain = false; }
    if (i % 3 == 0) {
      enve::rib direct(i, rb.r, rb.y, rb.w, 0.0);
      enve::output u;
      bool dret = direct.envelop(tg, to_affine(s.P), "sampling", u);
      judge("rib-mesh-sampling", dret, rib_out(u), ref::sampling(s.P, rb, ha), s.P, rb, world);
    }
  }
  M.seen("mesh:kind" + std::to_string(s.kind));
  if (certain && any != ret) M.fail("mesh-sampling-return", "setup returned " + std::to_string(ret) + " expected " + std::to_string(any));
  if (any) M.sample(M.describe);
}

// Edges shared by two triangles lie in the plane of a rib, or next to it: the ground there counts once.
static void shared_edge_case(Rng &r) {
  Wheel w = wheel(r, false);
  Pose P; P.R = rotation(r); P.t = r.p(.3) ? V3(0, 0, 0) : place(r, w.Rx);
  if (r.p(.3)) P.R = ref::eye();
  int e = r.i(0, w.n - 1); ref::Rib rb = rib_of(w, e); double R = rb.r;
  int n = r.i(1, 8), m = 2 * r.i(1, 3); double sx = R * r.u(.1, 1.2), h = R * r.pick({.3, .8, .95, .99}), amp = R * r.pick({0.0, .01, .1});
  double near = r.pick({0.0, 0.0, 1e-16, 1e-13, 1e-10, 3e-9, -1e-16, -1e-10, -3e-9});
  bool onemu = r.p(.5); double mu = friction(r), x0 = -n * sx * r.u(.3, .7), sy = R * r.u(.05, .8);
  std::vector<std::vector<V3>> g(size_t(n + 1), std::vector<V3>(size_t(m + 1)));
  for (int i = 0; i <= n; ++i) for (int j = 0; j <= m; ++j)
    g[size_t(i)][size_t(j)] = P * V3(x0 + i * sx, rb.y + near + (j - m / 2) * sy + (j == m / 2 ? 0 : r.u(-.3, .3) * sy), -h + r.u(-amp, amp));
  std::vector<Tri> T; double lo = 1e300, hi = -1e300;
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
    V3 a = g[size_t(i)][size_t(j)], b = g[size_t(i + 1)][size_t(j)], c = g[size_t(i + 1)][size_t(j + 1)], d = g[size_t(i)][size_t(j + 1)];
    double k0 = onemu ? mu : friction(r), k1 = onemu ? mu : friction(r); lo = std::min(lo, std::min(k0, k1)); hi = std::max(hi, std::max(k0, k1));
    if (r.p(.5)) { T.push_back(tri(a, b, c, k0)); T.push_back(tri(a, c, d, k1)); } else { T.push_back(tri(a, b, d, k0)); T.push_back(tri(b, c, d, k1)); }
  }
  size_t before = T.size(); finish(r, T);
  M.describe = [&] { return str(w) + " pose " + str(P) + " edges in the plane of rib " + std::to_string(e) + " or off it by " + mon::num(near) + ", " + str(T); };
  if (T.size() != before) { M.seen("shared-edge:no-verdict"); return; }
  // the ground next to the rib, on both sides
  double dl = 1e-6 * R;
  ref::Rib one = rb, two = rb; one.y -= dl; two.y += dl;
  ref::Out x = ref::mesh_geometric(P, one, T), y = ref::mesh_geometric(P, two, T);
  double span = 0; for (Tri const &t : T) span = std::max(span, 1 / std::max(1e-6, t.n.cross(P.R.col(1)).norm()));
  if (x.ambiguous || y.ambiguous || x.contact != y.contact || (x.contact && (!solid(x, rb) || !solid(y, rb) || x.slack + y.slack > 0)) || span > 100) { M.seen("shared-edge:no-verdict"); return; }
  auto tg = make_tris(T);
  auto pm = lived_mesh(r, tg, P, w.Rx); enve::ground::mesh const &mesh = *pm; auto sh = lived_shell(r, w, P, &mesh);
  sh->setup(mesh, to_affine(P), "geometric");
  enve::rib direct(e, rb.r, rb.y, rb.w, 0.0); enve::output u; bool dret = direct.envelop(tg, to_affine(P), "geometric", u);
  for (int k = 0; k < 2; ++k) {
    RibOut o = k ? rib_out(u) : rib_out(*sh, size_t(e));
    std::string pre = k ? "rib-shared-edge" : "shared-edge", both = " got " + str(o) + " expected " + str(x);
    bool touch = o.area > 0 || o.volume > 0;
    M.eval(fp(o), x.contact);
    if (!finite(o)) { M.fail(pre + "-not-finite", both); continue; }
    if (touch != x.contact || (k && dret != x.contact)) { M.fail(pre + "-contact", both); continue; }
    if (!x.contact) { M.seen(pre + ":no-contact"); continue; }
    double tol = 1e-3 * R * std::max(1, x.pieces);
    if (!((o.point - x.point).norm() <= tol + .5 * x.length)) M.fail(pre + "-point", both);
    if (!(std::fabs(o.area - x.area) <= tol * rb.w)) M.fail(pre + "-area", both);
    if (!(std::fabs(o.volume - x.volume) <= tol * R * rb.w)) M.fail(pre + "-volume", both);
    if (!(o.friction >= lo - 1e-6 * (1 + hi) && o.friction <= hi + 1e-6 * (1 + hi))) M.fail(pre + "-friction", both);
    if (std::fabs(o.normal.norm() - 1) > 1e-9) M.fail(pre + "-normal", both);
    M.seen(pre + ":contact");
  }
  M.sample(M.describe);
}

// Walls whose plane holds the hub of a rib: chords without a volume under them.
static void radial_case(Rng &r) {
  Wheel w = wheel(r, false);
  Pose P; P.R = rotation(r); P.t = r.p(.3) ? V3(0, 0, 0) : place(r, w.Rx);
  int e = r.i(0, w.n - 1); ref::Rib rb = rib_of(w, e); double R = rb.r;
  V3 c = P * V3(0, rb.y, 0), ax = P.R.col(1);
  std::vector<Tri> T; double len = 0, muw = 0; V3 pw, nw; bool sure = true;
  for (int k = r.p(.7) ? 1 : 2; k > 0; --k) {
    double th = r.p(.3) ? -M_PI / 2 : r.u(-M_PI, M_PI);
    V3 d = P.R.col(0) * std::cos(th) + P.R.col(2) * std::sin(th), q = d.cross(ax);
    double tilt = r.p(.5) ? 0 : r.u(-.8, .8); V3 s = ax * std::cos(tilt) + q * std::sin(tilt);
    double a = R * r.u(.05, .9), b = r.p(.5) ? R * r.u(1.05, 3) : a + (R - a) * r.u(.3, .95), wd = std::max(rb.w, R) * r.u(.6, 4);
    V3 v[4] = {c + d * a - s * wd, c + d * b - s * wd, c + d * b + s * wd, c + d * a + s * wd};
    double cut = (a + b) / 2;     // the diagonal crosses the plane of the rib half way
    double mu[2] = {friction(r), friction(r)};
    T.push_back(tri(v[0], v[1], v[2], mu[0])); T.push_back(tri(v[0], v[2], v[3], mu[1]));
    T[T.size() - 2].n = ref::ground_normal(T[T.size() - 2]); T.back().n = ref::ground_normal(T.back());
    double iv[2][2] = {{cut, b}, {a, cut}};
    for (int j = 0; j < 2; ++j) {
      double l = iv[j][0], u = std::min(R, iv[j][1]); if (u <= l) continue;
      V3 n = T[T.size() - 2 + size_t(j)].n;
      if (std::fabs(n.z) < 1e-6 && tilt != 0) sure = false;
      double L = u - l; len += L; pw += (c + d * (2 * l * u / (l + u))) * L; nw += (-d + ax * n.dot(ax)).unit() * L; muw += mu[j] * L;
      if (std::fabs(iv[j][1] - R) < 1e-3 * R || std::fabs(iv[j][0] - R) < 1e-3 * R) sure = false;
    }
  }
  M.describe = [&] { return str(w) + " pose " + str(P) + " walls through the hub of rib " + std::to_string(e) + " " + str(T); };
  for (Tri const &t : T) if (t.n.cross(ax).norm() < .05) sure = false;
  size_t before = T.size(); finish(r, T);
  if (T.size() != before || len < 1e-2 * R || len * rb.w < 1e-6) { M.seen("radial:no-verdict"); return; }
  auto tg = make_tris(T);
  auto pm = lived_mesh(r, tg, P, w.Rx); enve::ground::mesh const &mesh = *pm; auto sh = lived_shell(r, w, P, &mesh);
  sh->setup(mesh, to_affine(P), "geometric");
  enve::rib direct(e, rb.r, rb.y, rb.w, 0.0); enve::output u; bool dret = direct.envelop(tg, to_affine(P), "geometric", u);
  pw = pw / len; muw /= len; V3 nu = nw.unit();
  for (int k = 0; k < 2; ++k) {
    RibOut o = k ? rib_out(u) : rib_out(*sh, size_t(e));
    std::string pre = k ? "rib-radial" : "radial", both = " got " + str(o) + " expected point" + str(pw) + " normal" + str(nu) + " mu=" + mon::num(muw) + " area=" + mon::num(len * rb.w) + " volume=0";
    M.eval(fp(o), true);
    if (!finite(o)) { M.fail(pre + "-not-finite", both); continue; }
    if (!(o.area > 0) || (k && !dret)) { M.fail(pre + "-lost-contact", both); continue; }
    if (!(o.volume >= 0 && o.volume <= 1e-7 * R * R * rb.w)) M.fail(pre + "-volume", both);
    if (!sure) { M.seen("radial:finite only"); continue; }
    double tol = 1e-5 * R + 1e-11 * P.t.norm();
    if (!((o.point - pw).norm() <= tol)) M.fail(pre + "-point", both);
    if (nw.norm() > .05 * len && !((o.normal - nu).norm() <= 1e-4)) M.fail(pre + "-normal", both);
    if (!(std::fabs(o.friction - muw) <= 1e-5 * 10)) M.fail(pre + "-friction", both);
    if (!(std::fabs(o.area - len * rb.w) <= 1e-5 * R * rb.w)) M.fail(pre + "-area", both);
    if (!(std::fabs(o.depth - (R - (pw - c).norm())) <= tol)) M.fail(pre + "-depth", both);
    M.seen(pre + ":contact");
  }
  // every rib reports numbers
  for (int i = 0; i < w.n; ++i) if (!finite(rib_out(*sh, size_t(i)))) M.fail("radial-not-finite", "rib " + std::to_string(i) + " " + str(rib_out(*sh, size_t(i))));
  M.sample(M.describe);
}

// Which ribs touch, and what is reported when none or only some do. The shell is used again and again.
static void partial_case(Rng &r) {
  Wheel w = wheel(r);
  if (w.n == 1 && r.p(0.7)) w.n = r.i(2, 12);
  auto sh = make_shell(w);
  Pose P; P.t = place(r, w.Rx);
  bool mesh = r.p(0.6), sampling = !mesh && r.p(0.4);
  std::string method = sampling ? "sampling" : "geometric";
  int rounds = r.i(1, 4);
  for (int k = 0; k < rounds; ++k) {
    P.R = rotation(r);
    // ground on the side of the wheel: along the axle only some ribs reach it
    std::vector<Tri> T; V3 o, n; double mu = friction(r);
    int mode = r.i(0, 4);
    V3 ax = P.R.col(1), zz = P.R.col(2), xx = P.R.col(0);
    double pos = w.Ly * r.u(-1.1, 1.1), R = w.Rx;
    V3 c = P.t + ax * pos;
    if (!mesh) {
      double cam = r.p(0.3) ? 0 : r.u(-0.9, 0.9);
      n = P.R * V3(std::sin(cam) * r.u(-.2, .2), std::sin(cam), std::cos(cam));
      if (n.z < 0) { P.R = P.R * ref::roty(M_PI); n = P.R * V3(0, std::sin(cam), std::cos(cam)); if (n.z < 0.05) continue; }
      n = n.unit();
      if (n.z < 0.05) continue;
      int e = r.i(0, w.n - 1); ref::Rib rb = rib_of(w, e);
      // the plane reaches a chosen rib by a chosen amount
      V3 in = n - P.R.col(1) * n.dot(P.R.col(1));
      o = P * V3(0, rb.y, 0) - in.unit() * (rb.r * (1 - r.pick({-0.5, -0.01, 0.002, 0.01, 0.1})));
    } else if (mode == 0) {          // nothing near
      T.push_back(tri(P.t + V3(50, 0, 0) * R, P.t + V3(53, 0, 0) * R, P.t + V3(50, 3, 0) * R, mu));
    } else if (mode == 1) {          // inside of the box of the wheel, out of its reach
      V3 q = P.t + (xx + zz) * (R * r.u(0.75, 0.95)) * r.sgn();
      for (int j = r.i(1, 6); j > 0; --j) { double l = R * 0.02; T.push_back(tri(q + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), q + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), q + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), mu)); }
    } else if (mode == 2) {          // next to the wheel, parallel to it
      V3 q = P.t + ax * (w.Ly * r.u(1.02, 1.6) * r.sgn());
      T.push_back(tri(q + (xx - zz) * R, q - (xx + zz) * R, q + zz * R, mu));
    } else {                          // a small patch or a wide plane under one side, or the middle
      double wd = w.Ly * r.pick({0.05, 0.2, 0.5, 3.0}), h = R * r.pick({0.7, 0.9, 0.98, 0.9995, 1.02, 1.3}), l = R * r.pick({0.05, 0.4, 2.0});
      double tilt = r.pick({0.0, 0.3, -0.3, 0.8});
      V3 u = (ax * std::cos(tilt) + zz * std::sin(tilt)) * wd, q = c - zz * h;
      int cut = r.p(0.5) ? r.i(2, 5) : 1;    // of many triangles: then each rib has its own ones
      if (cut > 1) {
        V3 f = xx * l; auto at = [&](int i, int j) { return q + f * (2.0 * i / cut - 1) + u * (2.0 * j / cut - 1); };
        for (int i = 0; i < cut; ++i) for (int j = 0; j < cut; ++j) { T.push_back(tri(at(i, j), at(i + 1, j), at(i + 1, j + 1), mu)); T.push_back(tri(at(i, j), at(i + 1, j + 1), at(i, j + 1), mu)); }
        M.seen("partial:many-triangles");
      }
      else for (int j = 0; j < 2; ++j) {
        V3 f = xx * l;
        if (j) T.push_back(tri(q - f - u, q + f - u, q + f + u, mu)); else T.push_back(tri(q - f - u, q + f + u, q - f + u, mu));
      }
      if (r.p(0.4)) { V3 q2 = P.t - ax * pos - zz * (R * r.u(.8, 1.1)); T.push_back(tri(q2 - xx * l - u, q2 + xx * l - u, q2 + xx * l + u, friction(r))); }
    }
    if (mesh) { finish(r, T); if (T.empty() && r.p(0.8)) continue; }
    M.describe = [&] { return str(w) + " pose " + str(P) + " round " + std::to_string(k) + " " + method + (mesh ? " mesh " + str(T) : " flat " + str(o) + str(n) + " mu=" + mon::num(mu)); };
    bool ret;
    if (mesh) { enve::ground::mesh g(make_tris(T)); ret = sh->setup(g, to_affine(P), method); if (T.empty()) M.seen("partial:empty-mesh"); }
    else { enve::ground::flat g(mu, to_point(o), to_vec(n)); ret = sh->setup(g, to_affine(P), method); }
    double world = world_scale(P, T) + o.norm();
    bool any = false, certain = true; int touching = 0, first = -1, last = -1;
    for (int i = 0; i < w.n; ++i) {
      ref::Rib rb = rib_of(w, i);
      ref::Out x;
      if (mesh) x = ref::mesh_geometric(P, rb, T);
      else if (!sampling) x = ref::flat_geometric(P, rb, o, n, mu);
      else {
        ref::Hit s[4]; V3 q[4]; ref::sample_origins(P, rb, q);
        for (int j = 0; j < 4; ++j) { s[j].hit = true; s[j].mu = mu; s[j].p = V3(q[j].x, q[j].y, o.z - ((q[j].x - o.x) * n.x + (q[j].y - o.y) * n.y) / n.z); }
        x = ref::sampling(P, rb, s);
        x.minsin = std::min(x.minsin, n.z);
      }
      RibOut g = rib_out(*sh, size_t(i));
      bool touch = g.area > 0 || g.volume > 0;
      judge("partial", touch, g, x, P, rb, world);
      if (x.ambiguous || (x.contact && !solid(x, rb))) certain = false;
      if (x.contact) { any = true; ++touching; if (first < 0) first = i; last = i; }
    }
    if (!certain) { M.seen("partial:no-verdict"); continue; }
    M.seen(!any ? "partial:none" : touching == w.n ? "partial:all" : last < w.n - 1 && first == 0 ? "partial:not-the-last" : last == w.n - 1 && first > 0 ? "partial:not-the-first" : "partial:middle-or-split");
    if (any != ret) M.fail("partial-return", "setup returned " + std::to_string(ret) + ", " + std::to_string(touching) + " of " + std::to_string(w.n) + " ribs touch, " + std::to_string(first) + ".." + std::to_string(last));
    // the totals of a wheel in the air
    zz = P.R.col(2);
    if (!any) {
      double a, v, d, f; sh->contactArea(a); sh->contactVolume(v); sh->contactDepth(d); sh->contactFriction(f);
      if (a != 0 || v != 0 || d != 0 || f != 0) M.fail("partial-air-totals", "area " + mon::num(a) + " volume " + mon::num(v) + " depth " + mon::num(d) + " friction " + mon::num(f));
      acme::vec3 nn; sh->contactNormal(nn); acme::point pp; sh->contactPoint(pp);
      V3 mean; for (int i = 0; i < w.n; ++i) { ref::Rib rb = rib_of(w, i); mean += P * V3(0, rb.y, -rb.r); }
      mean = mean / w.n;
      if (!((to_v3(nn) - zz).norm() < 1e-9)) M.fail("partial-air-normal", str(to_v3(nn)) + " wheel z " + str(zz));
      if (!((to_v3(pp) - mean).norm() < 1e-9 * (1 + world))) M.fail("partial-air-point", str(to_v3(pp)) + " lowest " + str(mean));
    }
    M.sample(M.describe);
  }
}
// The single rib with no ground at all
static void rib_air_case(Rng &r) {
  ref::Rib rb{r.logu(.01, 3), r.u(-1, 1), r.logu(.001, .5)};
  Pose P; P.R = rotation(r); P.t = place(r, 1);
  M.describe = [&] { return "rib r=" + mon::num(rb.r) + " y=" + mon::num(rb.y) + " w=" + mon::num(rb.w) + " pose " + str(P); };
  enve::rib rib(0, rb.r, rb.y, rb.w, 0.0);
  enve::output u; u.friction = u.depth = u.area = u.volume = 7;
  ref::Out z = ref::no_contact(P, rb);
  rib.envelop(to_affine(P), u);
  RibOut a = rib_out(u);
  M.eval(fp(a), true);
  compare(M, "rib-air", a, z, rb, P.t.norm(), 1e-9);
  enve::triangleground::vecptr none;
  enve::output v; v.friction = v.depth = v.area = v.volume = 7;
  bool c = rib.envelop(none, to_affine(P), r.p(.5) ? "geometric" : "sampling", v);
  if (c) M.fail("rib-air-return", "contact with no triangles");
  compare(M, "rib-no-triangles", rib_out(v), z, rb, P.t.norm(), 1e-9);
  M.seen("rib-air");
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("flat-geometric", 4000, 200000, [](Rng &r) { flat_case(r, false); });
  M.run("flat-sampling", 3000, 150000, [](Rng &r) { flat_case(r, true); });
  M.run("partial", 8000, 400000, partial_case);
  M.run("shared-edge", 2500, 100000, shared_edge_case);
  M.run("radial", 2500, 100000, radial_case);
  M.run("rib-air", 4000, 100000, rib_air_case);
  for (int k = 0; k < KINDS; ++k) {
    M.run("mesh" + std::to_string(k), 700, 30000, [k](Rng &r) { mesh_case(r, k); });
    M.run("meshsamp" + std::to_string(k), 400, 20000, [k](Rng &r) { mesh_sampling_case(r, k); });
  }
  return M.finish();
}
