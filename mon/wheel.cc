// The wheel as a whole: totals, frames and angles, discretisation into ribs, the surface of the shell.
#include "gen.hh"
using namespace gen;
static mon::Mon M;

static M3 from(acme::mat3 const &m) { M3 o; o.r0 = V3(m(0, 0), m(0, 1), m(0, 2)); o.r1 = V3(m(1, 0), m(1, 1), m(1, 2)); o.r2 = V3(m(2, 0), m(2, 1), m(2, 2)); return o; }
static double diff(M3 const &a, M3 const &b) { return std::max((a.r0 - b.r0).norm(), std::max((a.r1 - b.r1).norm(), (a.r2 - b.r2).norm())); }

// ---------------------------------------------------------------- a wheel on some ground
struct Stage { Wheel w; Pose P; std::unique_ptr<enve::shell> sh; std::string text; bool ret = false; };
static void put_on_ground(Rng &r, Stage &s) {
  if (r.p(0.5)) {
    Scene c = mesh_scene(r, -1);
    s.w = c.w; s.P = c.P;
    std::string m = r.p(.7) ? "geometric" : "sampling";
    s.text = str(c) + " " + m;
    enve::ground::mesh g(make_tris(c.T));
    if (!s.sh) s.sh = lived_shell(r, s.w, s.P, &g);
    s.ret = s.sh->setup(g, to_affine(s.P), m);
  } else {
    s.w = wheel(r);
    s.P.R = rotation(r); s.P.t = place(r, s.w.Rx);
    V3 n = normal_up(r, r.pick({0.0, .5, 1.2}));
    V3 o = s.P.t - n * (s.w.Rx * (r.p(.2) ? 1 - r.logu(1e-6, 1e-2) : r.p(.8) ? r.u(.6, 1.03) : r.u(-1.2, 1.2)));
    double mu = friction(r);
    std::string m = r.p(.7) ? "geometric" : "sampling";
    s.text = str(s.w) + " pose " + str(s.P) + " flat " + str(o) + str(n) + " mu=" + mon::num(mu) + " " + m;
    enve::ground::flat g(mu, to_point(o), to_vec(n));
    s.sh = lived_shell(r, s.w, s.P, nullptr, &g);
    s.ret = s.sh->setup(g, to_affine(s.P), m);
  }
}

// the same value by another way: equal up to rounding
static bool same(double a, double b, double s = 0) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::max(s, std::max(std::fabs(a), std::fabs(b))); }
static bool same(V3 const &a, V3 const &b) { double s = std::max(a.norm(), b.norm()); return same(a.x, b.x, s) && same(a.y, b.y, s) && same(a.z, b.z, s); }

static void totals_case(Rng &r) {
  Stage s; put_on_ground(r, s);
  M.describe = [&] { return s.text; };
  enve::shell const &sh = *s.sh;
  size_t n = size_t(s.w.n);
  if (sh.size() != n) { M.fail("size", std::to_string(sh.size())); return; }
  std::vector<RibOut> o;
  for (size_t i = 0; i < n; ++i) o.push_back(rib_out(sh, i));
  // overloads
  size_t junk = size_t(r.i(0, 30));
  std::vector<acme::point> vp(junk); std::vector<acme::vec3> vn(junk);
  std::vector<double> vf(junk, 9), vd(junk, 9), va(junk, 9), vv(junk, 9);
  sh.contactPoint(vp); sh.contactNormal(vn); sh.contactFriction(vf); sh.contactDepth(vd); sh.contactArea(va); sh.contactVolume(vv);
  if (vp.size() != n || vn.size() != n || vf.size() != n || vd.size() != n || va.size() != n || vv.size() != n) { M.fail("vector-size", "not one element per rib"); return; }
  for (size_t i = 0; i < n; ++i)
    if (!same(to_v3(vp[i]), o[i].point) || !same(to_v3(vn[i]), o[i].normal) || !same(vf[i], o[i].friction) || !same(vd[i], o[i].depth) || !same(va[i], o[i].area) || !same(vv[i], o[i].volume))
      M.fail("vector-overload", "rib " + std::to_string(i) + " differs between the overloads: " + str(o[i]));
  // totals
  double A = 0, V = 0; V3 p, nn, mp, mn; double f = 0, d = 0, mf = 0, md = 0, world = s.P.t.norm() + s.w.Rx;
  for (auto const &x : o) {
    if (!finite(x)) { M.fail("not-finite", str(x)); return; }
    A += x.area; V += x.volume;
    p += x.point * x.volume; nn += x.normal * x.volume; f += x.friction * x.volume; d += x.depth * x.volume;
    mp += x.point / double(n); mn += x.normal / double(n); mf += x.friction / double(n); md += x.depth / double(n);
  }
  acme::point gp(7, 7, 7); acme::vec3 gn(7, 7, 7); double gf = 7, gd = 7, ga = 7, gv = 7;
  sh.contactPoint(gp); sh.contactNormal(gn); sh.contactFriction(gf); sh.contactDepth(gd); sh.contactArea(ga); sh.contactVolume(gv);
  M.eval(mon::hash_bytes(&V, sizeof V) ^ mon::hash_bytes(&p, sizeof p), V > 0 && n > 1);
  double rel = 1e-9;
  if (!(std::fabs(ga - A) <= rel * (A + 1e-12))) M.fail("total-area", mon::num(ga) + " sum " + mon::num(A));
  if (!(std::fabs(gv - V) <= rel * (V + 1e-15))) M.fail("total-volume", mon::num(gv) + " sum " + mon::num(V));
  const double small = 1.4901161193847656e-08;
  bool near_switch = V > 0.99 * small && V < 1.01 * small;
  if (near_switch) { M.seen("totals:at-the-switch"); return; }
  V3 ep, en; double ef, ed;
  if (V < small) { ep = mp; en = mn; ef = mf; ed = md; M.seen(V > 0 ? "totals:small-volume" : "totals:air"); }
  else { ep = p / V; en = nn / V; ef = f / V; ed = d / V; M.seen("totals:weighted"); }
  double tol = 1e-9 * (1 + world);
  if (!((to_v3(gp) - ep).norm() <= tol)) M.fail("total-point", str(to_v3(gp)) + " expected " + str(ep));
  if (en.norm() > 1e-3 && !((to_v3(gn) - en.unit()).norm() <= 1e-8 / en.norm())) M.fail("total-normal", str(to_v3(gn)) + " expected " + str(en.unit()));
  if (!(std::fabs(gf - ef) <= 1e-9 * (1 + ef))) M.fail("total-friction", mon::num(gf) + " expected " + mon::num(ef));
  if (!(std::fabs(gd - ed) <= 1e-9 * (1 + s.w.Rx))) M.fail("total-depth", mon::num(gd) + " expected " + mon::num(ed));
  if (V > 0) M.sample(M.describe);
}

// ---------------------------------------------------------------- frames and angles
static void check_frame(std::string const &k, acme::affine const &F, V3 const &axle, V3 const &normal, V3 const &point) {
  acme::mat4 m = F.matrix();
  M3 R = from(F.linear());
  V3 x = R.col(0), y = R.col(1), z = R.col(2), t(m(0, 3), m(1, 3), m(2, 3));
  V3 c = axle.cross(normal);
  if (c.norm() < 1e-3) { M.seen("frame:axle-along-normal"); return; }
  double e = 1e-9 / c.norm();
  M.eval(mon::hash_bytes(&t, sizeof t) ^ mon::hash_bytes(&x, sizeof x), true);
  if (!same(t, point)) M.fail(k + "-origin", str(t) + " contact point " + str(point));
  if (!same(z, normal)) M.fail(k + "-z", str(z) + " contact normal " + str(normal));
  if (!((x - c.unit()).norm() <= e)) M.fail(k + "-x", str(x) + " expected axle x normal " + str(c.unit()));
  if (!((y - normal.cross(c).unit()).norm() <= e)) M.fail(k + "-y", str(y) + " expected " + str(normal.cross(c).unit()));
  if (m(3, 0) != 0 || m(3, 1) != 0 || m(3, 2) != 0 || m(3, 3) != 1) M.fail(k + "-last-row", "not (0 0 0 1)");
  if (!(diff(R * R.t(), ref::eye()) <= 10 * e)) M.fail(k + "-orthonormal", str(x) + str(y) + str(z));
  if (!(x.cross(y).dot(z) > 0.99)) M.fail(k + "-handed", str(x) + str(y) + str(z));
  M.seen("frame");
}
// the angles are yaw, camber and rotation: R = Rz(a0) Rx(a1) Ry(a2)
static void check_angles(std::string const &k, V3 const &a, M3 const &R) {
  M3 E = ref::rotz(a.x) * ref::rotx(a.y) * ref::roty(a.z);
  if (!(diff(E, R) <= 1e-7)) M.fail(k, "angles " + str(a) + " give a rotation that is off by " + mon::num(diff(E, R)));
  M.seen("angles");
}
static void frames_case(Rng &r) {
  Stage s; put_on_ground(r, s);
  M.describe = [&] { return s.text; };
  enve::shell const &sh = *s.sh;
  size_t n = size_t(s.w.n);
  M3 W = s.P.R; V3 axle = W.col(1);
  // hub
  acme::affine H = sh.transformation();
  if (!same(to_v3(sh.translation()), s.P.t)) M.fail("hub-translation", str(to_v3(sh.translation())));
  if (!(diff(from(sh.linear()), W) <= 1e-15) || !(diff(from(H.linear()), W) <= 1e-15)) M.fail("hub-linear", "not the pose given");
  if (!(diff(from(sh.rotation()), W) <= 1e-12)) M.fail("hub-rotation", "not the pose given");
  if (!same(to_v3(sh.x()), W.col(0)) || !same(to_v3(sh.y()), W.col(1)) || !same(to_v3(sh.z()), W.col(2))) M.fail("hub-axes", str(to_v3(sh.x())) + str(to_v3(sh.y())) + str(to_v3(sh.z())));
  acme::vec3 e; sh.eulerAngles(e); check_angles("hub-angles", to_v3(e), W);
  if (!sh.checkTransformation(H)) M.fail("hub-check", "a rigid motion is refused");
  // wheel
  acme::affine F; F.matrix().setConstant(5); sh.contactPointAffine(F);
  acme::point p; acme::vec3 nv; sh.contactPoint(p); sh.contactNormal(nv);
  check_frame("frame", F, axle, to_v3(nv), to_v3(p));
  bool fine = axle.cross(to_v3(nv)).norm() > 1e-3;
  acme::vec3 a(5, 5, 5); sh.relativeAngles(a);
  if (fine) check_angles("relative-angles", to_v3(a), from(F.linear()).t() * W);
  // ribs
  std::vector<acme::affine> vF(size_t(r.i(0, 30))); std::vector<acme::vec3> va(size_t(r.i(0, 30)));
  sh.contactPointAffine(vF); sh.relativeAngles(va);
  if (vF.size() != n || va.size() != n) { M.fail("frames-vector-size", "not one element per rib"); return; }
  for (size_t i = 0; i < n; ++i) {
    acme::affine G; sh.contactPointAffine(i, G);
    RibOut o = rib_out(sh, i);
    check_frame("rib-frame", G, axle, o.normal, o.point);
    bool ok = axle.cross(o.normal).norm() > 1e-3;
    acme::vec3 b; sh.relativeAngles(i, b);
    if (ok) {
      V3 q = to_v3(b); q.x += sh.ribAngle(i);
      check_angles("rib-relative-angles", q, from(G.linear()).t() * W);
      for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) if (!same(G.matrix()(x, y), vF[i].matrix()(x, y), 1)) { M.fail("rib-frame-overload", "rib " + std::to_string(i)); x = 4; break; }
      if (!same(to_v3(b), to_v3(va[i]))) M.fail("rib-angles-overload", "rib " + std::to_string(i));
    }
  }
  if (s.ret) M.sample(M.describe);
}
// moving the hub by hand
static void motion_case(Rng &r) {
  Wheel w = wheel(r, false);
  auto sh = make_shell(w);
  Pose P;   // expected
  std::string log = str(w);
  M.describe = [&] { return log; };
  for (int k = r.i(1, 6); k > 0; --k) {
    int op = r.i(0, 3);
    if (op == 0) { V3 v(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)); sh->translate(to_vec(v)); P.t = P.R * v + P.t; log += " translate" + str(v); }
    else if (op == 1) {
      int ax = r.i(0, 2); double a = r.u(-4, 4);
      sh->rotate(a, ax == 0 ? acme::vec3(1, 0, 0) : ax == 1 ? acme::vec3(0, 1, 0) : acme::vec3(0, 0, 1));
      P.R = P.R * (ax == 0 ? ref::rotx(a) : ax == 1 ? ref::roty(a) : ref::rotz(a)); log += " rotate " + std::to_string(ax) + " by " + mon::num(a);
    } else if (op == 2) { P.R = rotation(r); P.t = place(r, 1); sh->transform(to_affine(P)); log += " transform " + str(P); }
    else { sh->updateBBox(); V3 c = (to_v3(sh->bbox()->min()) + to_v3(sh->bbox()->max())) / 2; if (!((c - P.t).norm() <= 1e-9 * (1 + P.t.norm()))) M.fail("bbox-centre", str(c) + " hub " + str(P.t)); }
    M.eval(mon::hash_bytes(&P, sizeof P), true);
    if (!((to_v3(sh->translation()) - P.t).norm() <= 1e-9 * (1 + P.t.norm()))) M.fail("motion-translation", str(to_v3(sh->translation())) + " expected " + str(P.t));
    if (!(diff(from(sh->linear()), P.R) <= 1e-9)) M.fail("motion-rotation", "off by " + mon::num(diff(from(sh->linear()), P.R)));
    if (!((to_v3(sh->y()) - P.R.col(1)).norm() <= 1e-9)) M.fail("motion-axle", str(to_v3(sh->y())));
  }
  // volume preserving poses are told from the others
  acme::affine good = to_affine(P), bad = good;
  double k = r.pick({0.5, 0.9, 1.1, 2.0, -1.0, 0.0});
  for (int i = 0; i < 3; ++i) bad.matrix()(i, 1) *= k;
  if (!sh->checkTransformation(good) || sh->checkTransformation(bad)) M.fail("motion-check", "pose check is wrong for scale " + mon::num(k));
  M.seen("motion");
}

// ---------------------------------------------------------------- ribs and surface
static void check_ribs(std::string const &k, enve::shell const &sh, Wheel const &w) {
  if (sh.size() != size_t(w.n)) { M.fail(k + "-count", std::to_string(sh.size()) + " ribs"); return; }
  double covered = 0;
  for (int i = 0; i < w.n; ++i) {
    ref::Rib b = rib_of(w, i);
    size_t j = size_t(i);
    V3 c = to_v3(sh.ribCenter(j));
    double e = 1e-12 * (w.Rx + w.Ly) * w.n;
    // derivative of the radius at the middle of the rib
    double yb = std::fabs(b.y), u = std::pow(yb / w.Ry, w.My);
    double dr = yb <= 2e-8 ? 0 : -(b.y > 0 ? 1 : -1) * w.Rx * (w.My / w.Mx) * std::pow(1 - u, 1 / w.Mx - 1) * u / yb;
    double cond = 1 / (1 - u);
    M.eval(mon::hash_bytes(&b, sizeof b), true);
    if (!((c - V3(0, b.y, 0)).norm() <= e)) M.fail(k + "-centre", "rib " + std::to_string(i) + " at " + str(c) + " expected y " + mon::num(b.y));
    if (!(std::fabs(sh.ribWidth(j) - b.w) <= e)) M.fail(k + "-width", "rib " + std::to_string(i) + " " + mon::num(sh.ribWidth(j)) + " expected " + mon::num(b.w));
    if (!(std::fabs(sh.ribRadius(j) - b.r) <= 1e-10 * w.Rx * cond)) M.fail(k + "-radius", "rib " + std::to_string(i) + " " + mon::num(sh.ribRadius(j)) + " expected " + mon::num(b.r));
    if (yb > 1e-6 * w.Ry && !(std::fabs(sh.ribAngle(j) - std::atan(dr)) <= 1e-8 * cond)) M.fail(k + "-angle", "rib " + std::to_string(i) + " " + mon::num(sh.ribAngle(j)) + " expected " + mon::num(std::atan(dr)));
    covered += sh.ribWidth(j);
  }
  if (!(std::fabs(covered - 2 * w.Ly) <= 1e-9 * w.Ly)) M.fail(k + "-tiling", "ribs cover " + mon::num(covered) + " of " + mon::num(2 * w.Ly));
  M.seen("ribs", w.n);
}
static void ribs_case(Rng &r) {
  Wheel w = wheel(r);
  if (r.p(0.2)) w.n = r.i(1, 400);
  M.describe = [&] { return str(w); };
  auto sh = make_shell(w);
  check_ribs("ribs", *sh, w);
  if (sh->surfaceMaxRadius() != w.Rx || sh->surfaceWidth() != w.Ly || sh->surfaceMaxWidth() != w.Ly) M.fail("surface-parameters", "not those given");
  for (int k = r.i(0, 3); k > 0; --k) {
    w.n = r.p(.1) ? r.i(190, 300) : r.i(1, 30);
    sh->resize(size_t(w.n));
    check_ribs("resize", *sh, w);
    // every output has one element per rib and a set up on the resized wheel is that of a fresh one
    std::vector<double> a; sh->contactArea(a); std::vector<acme::point> p; sh->contactPoint(p);
    if (a.size() != size_t(w.n) || p.size() != size_t(w.n)) M.fail("resize-outputs", std::to_string(a.size()));
    Pose P; P.R = rotation(r); P.t = place(r, 1);
    V3 n = normal_up(r, .3), o = P.t - n * (w.Rx * r.u(.7, 1));
    enve::ground::flat f(0.7, to_point(o), to_vec(n));
    auto fresh = make_shell(w);
    bool a1 = sh->setup(f, to_affine(P), "geometric"), a2 = fresh->setup(f, to_affine(P), "geometric");
    if (a1 != a2) M.fail("resize-setup-return", "differs from a fresh wheel");
    for (size_t i = 0; i < size_t(w.n); ++i) { RibOut x = rib_out(*sh, i), y = rib_out(*fresh, i); if (!same(x.point, y.point) || !same(x.normal, y.normal) || !same(x.depth, y.depth) || !same(x.area, y.area) || !same(x.volume, y.volume) || !same(x.friction, y.friction)) { M.fail("resize-setup", "rib " + std::to_string(i) + ": " + str(x) + " fresh " + str(y)); break; } }
  }
  M.sample(M.describe);
}
template <class F> static bool throws(F f) { try { f(); } catch (std::exception const &) { return true; } return false; }
static void refuse_case(Rng &r) {
  Wheel w = wheel(r, false);
  int how = r.i(0, 4);
  if (how == 0) w.n = 0;
  else if (how == 1) w.Rx = -w.Rx * r.pick({1.0, 0.0});
  else if (how == 2) { w.n = r.i(2, 12); w.Ly = w.Ry * r.u(2.1, 4);}  // outermost ribs past the end of the curve
  else if (how == 3) w.Rx = std::nan("");
  else { w.Mx = std::nan(""); w.n = r.i(2, 12); }
  M.describe = [&] { return str(w) + " way " + std::to_string(how); };
  M.eval(mon::hash_bytes(&w, sizeof w), true);
  if (!throws([&] { make_shell(w); })) M.fail("refuse", "a wheel that cannot exist is accepted");
  Wheel g = wheel(r, false);
  auto sh = make_shell(g);
  if (!throws([&] { sh->resize(0); })) M.fail("refuse-resize", "zero ribs accepted");
  M.seen("refuse:" + std::to_string(how));
}
static void surface_case(Rng &r) {
  Wheel w = wheel(r, false);
  auto sh = make_shell(w);
  enve::shape sp(w.Rx, w.Mx, w.Ry, w.My, w.Ly);
  for (int k = 0; k < 6; ++k) {
    double y = r.p(.1) ? r.pick({0.0, w.Ly, -w.Ly}) : r.u(-w.Ly, w.Ly);
    M.describe = [&] { return str(w) + " y=" + mon::num(y); };
    double u = std::pow(std::fabs(y) / w.Ry, w.My), cond = 1 / (1 - u);
    auto far = [&](double a, double b) { return !(std::fabs(a - b) <= 1e-12 * cond * std::max(std::fabs(a), std::fabs(b))); };
    double R = sh->surfaceRadius(y);
    M.eval(mon::hash_bytes(&y, sizeof y), true);
    if (!(std::fabs(R - radius_of(w, y)) <= 1e-10 * w.Rx * cond)) M.fail("surface-radius", mon::num(R) + " expected " + mon::num(radius_of(w, y)));
    if (R > w.Rx * (1 + 1e-12) || R < 0) M.fail("surface-max", mon::num(R) + " outside [0, Rx]");
    if (far(sh->surfaceRadius(-y), R) || far(sp.surfaceRadius(y), R)) M.fail("surface-even", "radius differs between y and -y");
    double d = sh->surfaceDerivative(y);
    if (far(sh->surfaceDerivative(-y), -d) || far(sp.surfaceDerivative(y), d)) M.fail("surface-odd", "derivative of y and -y");
    if (std::fabs(sh->surfaceAngle(y) - std::atan(d)) > 1e-12 || far(sp.surfaceAngle(y), sh->surfaceAngle(y))) M.fail("surface-angle", mon::num(sh->surfaceAngle(y)));
    double h = 1e-5 * w.Ry;
    if (std::fabs(y) > 1e-3 * w.Ry && std::fabs(y) + 2 * h < w.Ly && cond < 50) {
      double f1 = (sh->surfaceRadius(y + h) - sh->surfaceRadius(y - h)) / (2 * h), f2 = (sh->surfaceRadius(y + 2 * h) - sh->surfaceRadius(y - 2 * h)) / (4 * h);
      double fd = (4 * f1 - f2) / 3, s = w.Rx / w.Ry;
      if (!(std::fabs(d - fd) <= 1e-5 * s * (1 + std::fabs(d) / s) * cond)) M.fail("surface-derivative", mon::num(d) + " finite difference " + mon::num(fd));
      M.seen("surface:derivative");
    }
    // past the end
    double out = w.Ly * r.pick({1.0000001, 1.01, 2.0, 1e6}) * r.sgn();
    if (sh->checkWidthBound(out) || !sh->checkWidthBound(y)) M.fail("surface-bound", mon::num(out));
    if (!throws([&] { sh->surfaceRadius(out); }) || !throws([&] { sh->surfaceDerivative(out); }) || !throws([&] { sh->surfaceAngle(out); })) M.fail("surface-outside", "no exception at y = " + mon::num(out));
    M.seen("surface");
  }
  M.sample(M.describe);
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("totals", 20000, 600000, totals_case);
  M.run("frames", 12000, 300000, frames_case);
  M.run("motion", 6000, 200000, motion_case);
  M.run("ribs", 6000, 200000, ribs_case);
  M.run("refuse", 2000, 50000, refuse_case);
  M.run("surface", 8000, 300000, surface_case);
  return M.finish();
}
