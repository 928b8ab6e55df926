// Grounds are what they were made of, or are refused; copies are equal, independent, and isApprox tells what differs.
#include "snap.hh"
using namespace gen;
static mon::Mon M;
static const double NaN = std::numeric_limits<double>::quiet_NaN();

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
template <class E> static bool same3(E const &e, V3 const &v) { return same(e(0), v.x) && same(e(1), v.y) && same(e(2), v.z); }
static V3 anywhere(Rng &r) {
  double k = r.pick({1e-3, 1.0, 10.0, 1e4, 1e6});
  V3 v(r.u(-k, k), r.u(-k, k), r.u(-k, k));
  if (r.p(.2)) v.x = 0; if (r.p(.2)) v.y = 0; if (r.p(.2)) v.z = 0;
  return v;
}
static double good_mu(Rng &r) { return r.p(.3) ? r.pick({0.0, 1.0, 1e-300, 1e6}) : r.u(0, 2); }

// ---------------------------------------------------------------- C16
static std::unique_ptr<enve::ground::flat> make_flat(int how, double mu, V3 const &o, V3 const &n) {
  enve::ground::flat *f;
  if (how == 0) f = new enve::ground::flat(mu, o.x, o.y, o.z, n.x, n.y, n.z);
  else if (how == 1) f = new enve::ground::flat(mu, to_point(o), to_vec(n));
  else { acme::plane p(to_point(o), to_vec(n)); f = new enve::ground::flat(mu, p); }
  return std::unique_ptr<enve::ground::flat>(f);
}
static void flats(Rng &r) {
  int how = r.i(0, 2);
  V3 o = anywhere(r), n(r.u(-1, 1), r.u(-1, 1), r.p(.2) ? r.logu(1e-6, 1) : r.u(.05, 1));
  n = n * (r.p(.5) ? 1.0 : r.logu(1e-4, 1e5));
  if (r.p(.2)) n = V3(0, 0, r.logu(1e-5, 1e5));
  double mu = good_mu(r);
  M.describe = [&] { return "flat " + std::to_string(how) + " mu=" + mon::num(mu) + " " + str(o) + str(n); };
  auto f = make_flat(how, mu, o, n);
  enve::ground::flat const &c = *f;
  V3 u = n.unit(), g = to_v3(c.normal());
  M.eval(mon::hash_bytes(&n, sizeof n) ^ mon::hash_bytes(&o, sizeof o), true);
  if (!((g - u).norm() <= 1e-12)) M.fail("flat-normal", str(g) + " expected " + str(u));
  if (!same3(c.origin(), o)) M.fail("flat-origin", str(to_v3(c.origin())));
  if (!same(c.friction(), mu)) M.fail("flat-friction", mon::num(c.friction()));
  if ((to_v3(c.layingPlane().normal()) - g).norm() != 0 || (to_v3(c.layingPlane().origin()) - to_v3(c.origin())).norm() != 0) M.fail("flat-plane", "the laying plane is another one");
  if (r.p(.3)) { f->friction() = mu + 1; if (!same(c.friction(), mu + 1)) M.fail("flat-friction-set", mon::num(c.friction())); M.seen("flat:friction set"); }
  M.seen("flat:made"); M.sample(M.describe);
}
static void flats_refused(Rng &r) {
  int how = r.i(0, 2), k = r.i(0, 3);
  V3 o = anywhere(r), n(r.u(-1, 1), r.u(-1, 1), r.u(.05, 1));
  double mu = good_mu(r); std::string why;
  if (k == 0) { mu = -r.pick({r.logu(1e-12, 10), 1.0, std::numeric_limits<double>::infinity()}); why = "negative friction"; }
  else if (k == 1) { mu = NaN; why = "friction not a number"; }
  else if (k == 2) { n.z = -n.z * r.pick({1.0, 1e-9}); why = "downward normal"; }
  else { n.z = r.p(.5) ? 0 : -0.0; why = "horizontal normal"; }
  M.describe = [&] { return why + ": flat " + std::to_string(how) + " mu=" + mon::num(mu) + " " + str(o) + str(n); };
  bool threw = false;
  try { make_flat(how, mu, o, n); } catch (std::exception const &) { threw = true; }
  M.eval(mon::hash_bytes(&n, sizeof n) ^ mon::hash_bytes(&o, sizeof o) ^ uint64_t(how * 8 + k), true);
  if (!threw) M.fail("flat-accepted", why);
  M.seen("flat:refused:" + why);
}
static std::shared_ptr<enve::triangleground const> make_tri(int how, int id, double mu, V3 const *v) {
  if (how == 0) return std::make_shared<enve::triangleground const>(id, mu, v[0].x, v[0].y, v[0].z, v[1].x, v[1].y, v[1].z, v[2].x, v[2].y, v[2].z);
  if (how == 1) return std::make_shared<enve::triangleground const>(id, mu, to_point(v[0]), to_point(v[1]), to_point(v[2]));
  acme::point p[3] = {to_point(v[0]), to_point(v[1]), to_point(v[2])};
  return std::make_shared<enve::triangleground const>(id, mu, p);
}
static void triangle_points(Rng &r, V3 *v) {
  V3 c = anywhere(r); double l = r.logu(1e-3, 1e3);
  for (int i = 0; i < 3; ++i) v[i] = c + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l));
  switch (r.i(0, 7)) {
  case 0: v[1].z = v[0].z; v[2].z = v[0].z; break;                    // level
  case 1: v[1].y = v[0].y; v[2].y = v[0].y; break;                    // vertical
  case 2: { V3 e = v[1] - v[0]; v[2] = v[0] + V3(e.x, e.y, 0) * r.u() + V3(0, 0, l); break; } // vertical
  case 3: v[2] = v[0] + (v[1] - v[0]) * r.u() + V3(0, 0, l * r.logu(1e-6, 1e-2)); break;      // sliver
  default: break;
  }
}
static void check_tri(enve::triangleground const &t, int id, double mu, V3 const *v, std::string const &k) {
  for (int i = 0; i < 3; ++i) {
    if (!same3(t.vertex(size_t(i)), v[i])) M.fail(k + "-vertex", "vertex " + std::to_string(i) + " " + str(to_v3(t.vertex(size_t(i)))));
    if (!same3(t[size_t(i)], v[i])) M.fail(k + "-vertex-operator", std::to_string(i));
  }
  if (t.id() != id) M.fail(k + "-id", std::to_string(t.id()));
  if (!same(t.friction(), mu)) M.fail(k + "-friction", mon::num(t.friction()));
  V3 lo = v[0], hi = v[0];
  for (int i = 1; i < 3; ++i) { lo = V3(std::min(lo.x, v[i].x), std::min(lo.y, v[i].y), std::min(lo.z, v[i].z)); hi = V3(std::max(hi.x, v[i].x), std::max(hi.y, v[i].y), std::max(hi.z, v[i].z)); }
  if (!same3(t.bbox().min(), lo) || !same3(t.bbox().max(), hi)) M.fail(k + "-box", str(to_v3(t.bbox().min())) + str(to_v3(t.bbox().max())) + " expected " + str(lo) + str(hi));
  if (t.bbox().id() != id) M.fail(k + "-box-id", std::to_string(t.bbox().id()));
  V3 e1 = v[1] - v[0], e2 = v[2] - v[0], e3 = v[2] - v[1], x = e1.cross(e2);
  double L = std::max(e1.norm(), std::max(e2.norm(), e3.norm())), area = x.norm(), W = std::max(v[0].norm(), std::max(v[1].norm(), v[2].norm()));
  double cond = area / (L * L);                                      // sine of the thinnest corner
  double err = 1e-14 * (W / L + 1) / (cond * cond);
  if (L > 0 && cond > 0 && err < 1e-3) {
    V3 n = to_v3(t.normal()), u = x * (1 / area);
    if (!(std::fabs(n.norm() - 1) <= 1e-12)) M.fail(k + "-normal-unit", str(n));
    if (std::fabs(u.z) > 1e-9 + 10 * err) {
      if (u.z < 0) u = u * -1.0;
      if (!((n - u).norm() <= 1e-9 + 10 * err)) M.fail(k + "-normal", str(n) + " expected " + str(u));
      M.seen(k + ":normal judged");
    } else {
      if (n.z < 0 || !(std::min((n - u).norm(), (n + u).norm()) <= 1e-9 + 10 * err)) M.fail(k + "-normal-vertical", str(n) + " expected +-" + str(u));
      M.seen(k + ":vertical");
    }
  } else M.seen(k + ":normal not judged");
}
static void tris(Rng &r) {
  V3 v[3]; triangle_points(r, v);
  int how = r.i(0, 2), id = r.pick({0, 1, 7, -3, 1000000, r.i(-1000, 100000)});
  double mu = good_mu(r);
  M.describe = [&] { return "triangle " + std::to_string(how) + " id=" + std::to_string(id) + " mu=" + mon::num(mu) + " " + str(v[0]) + str(v[1]) + str(v[2]); };
  auto t = make_tri(how, id, mu, v);
  M.eval(mon::hash_bytes(v, sizeof v), true);
  check_tri(*t, id, mu, v, "triangle");
  M.seen("triangle:made"); M.sample(M.describe);
  // and refused with a friction that is not one
  double bad = r.p(.3) ? NaN : -r.logu(1e-12, 10);
  bool threw = false;
  try { make_tri(how, id, bad, v); } catch (std::exception const &) { threw = true; }
  if (!threw) M.fail("triangle-accepted", "friction " + mon::num(bad));
  M.seen("triangle:refused");
}
static void meshes(Rng &r) {
  int n = r.p(.1) ? 0 : r.i(1, 60);
  enve::triangleground::vecptr ts; std::vector<std::vector<V3>> vs; std::vector<double> mus; std::vector<int> ids;
  for (int i = 0; i < n; ++i) {
    std::vector<V3> v(3); triangle_points(r, v.data());
    mus.push_back(good_mu(r)); ids.push_back(r.p(.5) ? i : r.i(-5, 1000)); vs.push_back(v);
    ts.push_back(make_tri(r.i(0, 2), ids.back(), mus.back(), v.data()));
    if (i && r.p(.05)) { ts.back() = ts[0]; vs.back() = vs[0]; mus.back() = mus[0]; ids.back() = ids[0]; }
  }
  M.describe = [&] { return "mesh of " + std::to_string(n); };
  enve::ground::mesh m(ts);
  M.eval(mon::hash_bytes(vs.empty() ? nullptr : vs[0].data(), vs.empty() ? 0 : 72), n > 0);
  if (m.size() != size_t(n) || m.vecptrTriangleground().size() != size_t(n)) { M.fail("mesh-size", std::to_string(m.size())); return; }
  for (int i = 0; i < n; ++i) {
    if (m.ptrTriangleground(size_t(i)) != ts[size_t(i)] || m[size_t(i)] != ts[size_t(i)] || m.vecptrTriangleground()[size_t(i)] != ts[size_t(i)]) M.fail("mesh-triangle", std::to_string(i));
    check_tri(*m[size_t(i)], ids[size_t(i)], mus[size_t(i)], vs[size_t(i)].data(), "mesh triangle");
  }
  M.seen("mesh:made"); if (n == 0) M.seen("mesh:empty");
}
static void defaults(Rng &) {
  enve::ground::flat f; enve::triangleground const t; enve::rib b; enve::shape s; enve::output o; acme::point p; enve::ground::mesh m;
  auto n3 = [](auto const &e) { return std::isnan(e(0)) && std::isnan(e(1)) && std::isnan(e(2)); };
  if (!std::isnan(f.friction()) || !n3(f.origin()) || !n3(f.normal())) M.fail("default-flat", "is not NaN");
  if (!std::isnan(t.friction()) || !n3(t.normal()) || !n3(t.vertex(0)) || !n3(t.vertex(1)) || !n3(t.vertex(2)) || !n3(t.bbox().min()) || !n3(t.bbox().max())) M.fail("default-triangle", "is not NaN");
  if (!std::isnan(b.width()) || !std::isnan(b.angle()) || !std::isnan(b.radius()) || !n3(b.center())) M.fail("default-rib", "is not NaN");
  if (!std::isnan(s.Rx() + s.Ry() + s.Mx() + s.My() + s.Ly()) || !std::isnan(s.Rx()) || !std::isnan(s.Ry()) || !std::isnan(s.Mx()) || !std::isnan(s.My()) || !std::isnan(s.Ly())) M.fail("default-shape", "is not NaN");
  if (!n3(p) || !n3(o.point) || !n3(o.normal) || !std::isnan(o.friction) || !std::isnan(o.depth) || !std::isnan(o.area) || !std::isnan(o.volume)) M.fail("default-output", "is not NaN");
  if (m.size() != 0) M.fail("default-mesh", "is not empty");
  M.eval(uint64_t(M.idx), false); M.seen("defaults");
}

// ---------------------------------------------------------------- C17
// isApprox for one changed value: below: how it must be told equal, above: different; both ways round
template <class T> static void approx(T const &a, T const &b, double tol, bool expected, std::string const &k) {
  bool ab = a.isApprox(b, tol), ba = b.isApprox(a, tol);
  if (ab != expected || ba != expected) M.fail(k, "tolerance " + mon::num(tol) + ": " + std::to_string(ab) + " and " + std::to_string(ba) + ", expected " + std::to_string(expected));
  M.seen(expected ? "approx:equal" : "approx:different");
}
static V3 bump(Rng &r, V3 v, double d) { double *p = &v.x; int k = r.i(0, 2); p[k] += d * r.sgn(); return v; }
// the change of a vector v that is surely within / beyond a relative or absolute tolerance
static double near_by(V3 const &v, double tol) { return .01 * tol * std::min(1.0, v.norm()); }
static double far_off(V3 const &v, double tol) { return 100 * tol * std::max(1.0, v.norm()); }
static double tolerance(Rng &r) { return r.p(.3) ? 1.49e-8 : r.logu(1e-9, 1e-3); }
static V3 body(Rng &r) { V3 v(r.u(-5, 5), r.u(-5, 5), r.u(-5, 5)); if (v.norm() < 1) v.x += 2; return v; }

static void copy_flat(Rng &r) {
  V3 o = body(r), n = normal_up(r, 1.2), o2 = body(r), n2 = normal_up(r, 1.2);
  double tol = tolerance(r), most = tol > 1e-9 && r.p(.3) ? 1000 : 2, mu = r.u(0, most), mu2 = r.u(0, most);
  M.describe = [&] { return "flat mu=" + mon::num(mu) + str(o) + str(n) + " tol " + mon::num(tol); };
  auto a = make_flat(0, mu, o, n), b = make_flat(0, mu2, o2, n2);
  b->copy(*a);
  M.eval(mon::hash_bytes(&o, sizeof o), true);
  if ((to_v3(b->normal()) - to_v3(a->normal())).norm() > 1e-14 || (to_v3(b->origin()) - o).norm() != 0 || b->friction() != mu) M.fail("copy-flat", "the copy differs");
  approx(*a, *b, 1e-9, true, "approx-flat-copy");
  if (r.p(.2)) { a->copy(*a); if ((to_v3(a->normal()) - n).norm() > 1e-12 || a->friction() != mu) M.fail("copy-flat-itself", "changed"); }
  a->friction() = mu + 1;
  a->layingPlane().translate(acme::vec3(1, 2, 3));
  if (b->friction() != mu || (to_v3(b->origin()) - o).norm() != 0) M.fail("copy-flat-shared", "changing the source changes the copy");
  a = make_flat(0, mu, o, n);
  auto against = [&](double m, V3 oo, V3 nn, bool e, char const *k) { auto c = make_flat(r.i(0, 2), m, oo, nn); approx(*a, *c, tol, e, k); };
  against(mu + .01 * tol, o, n, true, "approx-flat-friction"); against(mu + 100 * tol, o, n, false, "approx-flat-friction");
  against(mu, bump(r, o, near_by(o, tol)), n, true, "approx-flat-origin"); against(mu, bump(r, o, far_off(o, tol)), n, false, "approx-flat-origin");
  V3 t = inplane(n, r.i(0, 1)) * (100 * tol * r.sgn());
  V3 nn = (n + t).unit(); if (nn.z > .05) against(mu, o, nn, false, "approx-flat-normal");
  against(mu, o, (n + t * 1e-4).unit(), true, "approx-flat-normal");
  enve::ground::flat z; approx(*a, z, tol, false, "approx-flat-nan");
  M.seen("copy:flat");
}
static void copy_tri(Rng &r) {
  V3 v[3], u[3]; for (int i = 0; i < 3; ++i) { v[i] = body(r); u[i] = body(r); }
  double tol = tolerance(r), mu = tol > 1e-9 && r.p(.3) ? r.u(0, 1000) : r.u(0, 2); int id = r.i(1, 1000);
  M.describe = [&] { return "triangle mu=" + mon::num(mu) + str(v[0]) + str(v[1]) + str(v[2]) + " tol " + mon::num(tol); };
  std::unique_ptr<enve::triangleground> a(new enve::triangleground(id, mu, to_point(v[0]), to_point(v[1]), to_point(v[2]))), b;
  if (r.p(.5)) b.reset(new enve::triangleground(id + 3, mu + 1, to_point(u[0]), to_point(u[1]), to_point(u[2]))); else b.reset(new enve::triangleground());
  b->copy(*a);
  check_tri(*b, id, mu, v, "copied triangle");
  M.eval(mon::hash_bytes(v, sizeof v), true);
  approx(*a, *b, 1e-9, true, "approx-triangle-copy");
  if (r.p(.2)) { a->copy(*a); check_tri(*a, id, mu, v, "triangle copied on itself"); }
  a.reset(new enve::triangleground(5, 0.1, to_point(u[0]), to_point(u[1]), to_point(u[2])));
  check_tri(*b, id, mu, v, "copy of a deleted triangle");
  auto against = [&](double m, V3 const *w, bool e, char const *k) { enve::triangleground c(id, m, to_point(w[0]), to_point(w[1]), to_point(w[2])); approx(*b, c, tol, e, k); };
  against(mu + .01 * tol, v, true, "approx-triangle-friction"); against(mu + 100 * tol, v, false, "approx-triangle-friction");
  for (int i = 0; i < 3; ++i) {
    V3 w[3] = {v[0], v[1], v[2]};
    w[i] = bump(r, v[i], near_by(v[i], tol)); against(mu, w, true, "approx-triangle-vertex");
    w[i] = bump(r, v[i], far_off(v[i], tol)); against(mu, w, false, "approx-triangle-vertex");
  }
  enve::triangleground z; approx(*b, z, tol, false, "approx-triangle-nan");
  M.seen("copy:triangle");
}
static void copy_shape(Rng &r) {
  double p[5], q[5]; for (int i = 0; i < 5; ++i) { p[i] = r.u(.1, 5); q[i] = r.u(.1, 5); }
  double tol = tolerance(r);
  M.describe = [&] { return "shape " + mon::num(p[0]) + " tol " + mon::num(tol); };
  enve::shape a(p[0], p[1], p[2], p[3], p[4]), b(q[0], q[1], q[2], q[3], q[4]);
  auto is = [&](enve::shape const &s, double const *e, char const *k) {
    if (s.Rx() != e[0] || s.Mx() != e[1] || s.Ry() != e[2] || s.My() != e[3] || s.Ly() != e[4]) M.fail(k, "parameters differ");
    if (s.surfaceMaxRadius() != e[0] || s.surfaceMaxWidth() != e[4] || s.surfaceWidth() != e[4]) M.fail(std::string(k) + "-surface", "accessors differ");
  };
  is(a, p, "shape-made");
  b.copy(a); is(b, p, "copy-shape"); approx(a, b, 1e-9, true, "approx-shape-copy");
  enve::shape c(a); is(c, p, "copy-shape-constructor");
  M.eval(mon::hash_bytes(p, sizeof p), true);
  a.Rx() = q[0]; a.Mx() = q[1]; a.Ry() = q[2]; a.My() = q[3]; a.Ly() = q[4];
  is(a, q, "shape-set"); is(b, p, "copy-shape-shared"); is(c, p, "copy-shape-shared");
  for (int i = 0; i < 5; ++i) {
    double w[5]; std::copy(p, p + 5, w);
    w[i] = p[i] + .01 * tol * r.sgn(); approx(b, enve::shape(w[0], w[1], w[2], w[3], w[4]), tol, true, "approx-shape");
    w[i] = p[i] + 100 * tol * r.sgn(); approx(b, enve::shape(w[0], w[1], w[2], w[3], w[4]), tol, false, "approx-shape");
  }
  approx(b, enve::shape(), tol, false, "approx-shape-nan");
  M.seen("copy:shape");
}
static void copy_rib(Rng &r) {
  double R = r.u(.2, 1), y = r.u(-.2, .2), w = r.u(.005, .05), an = r.u(-1, 1), tol = tolerance(r); int id = r.i(1, 50);
  M.describe = [&] { return "rib R=" + mon::num(R) + " y=" + mon::num(y) + " width=" + mon::num(w) + " angle=" + mon::num(an) + " tol " + mon::num(tol); };
  enve::rib a(id, R, y, w, an), b = r.p(.5) ? enve::rib(id + 2, R + .1, y + .1, w + .1, an + .1) : enve::rib();
  auto is = [&](enve::rib const &s, char const *k) {
    if (s.radius() != R || s.width() != w || s.angle() != an || !same3(s.center(), V3(0, y, 0))) M.fail(k, "rib differs");
    if ((to_v3(s.normal()) - V3(0, 1, 0)).norm() > 1e-15) M.fail(k, "axis differs");
  };
  is(a, "rib-made");
  b.copy(a); is(b, "copy-rib"); approx(a, b, 1e-9, true, "approx-rib-copy");
  enve::rib c(a); is(c, "copy-rib-constructor"); approx(a, c, 1e-9, true, "approx-rib-copy");
  M.eval(mon::hash_bytes(&R, sizeof R), true);
  // the copy envelops as the source
  Pose P; P.R = rotation(r); P.t = V3(0, 0, R * r.u(.5, 1.05));
  enve::ground::flat f(friction(r), acme::point(0, 0, 0), to_vec(normal_up(r, .3)));
  std::string me = r.p(.5) ? "geometric" : "sampling";
  enve::output o1, o2, o3;
  bool t1 = a.envelop(f, to_affine(P), me, o1), t2 = b.envelop(f, to_affine(P), me, o2), t3 = c.envelop(f, to_affine(P), me, o3);
  std::string s1 = str(rib_out(o1));
  if (t1 != t2 || t1 != t3 || s1 != str(rib_out(o2)) || s1 != str(rib_out(o3))) M.fail("copy-rib-envelop", s1 + " copy " + str(rib_out(o2)) + " copy " + str(rib_out(o3)));
  a.width() = w + 1; a.angle() = an + 1; a.radius() = R + 1;
  if (a.width() != w + 1 || a.angle() != an + 1 || a.radius() != R + 1) M.fail("rib-set", "is not set");
  is(b, "copy-rib-shared"); is(c, "copy-rib-shared");
  auto against = [&](int i, double R2, double y2, double w2, double a2, bool e, char const *k) { approx(b, enve::rib(i, R2, y2, w2, a2), tol, e, k); };
  against(id + 1, R, y, w, an, false, "approx-rib-id"); against(id, R, y, w, an, true, "approx-rib");
  double s = .01 * tol, g = 100 * tol;
  against(id, R + s, y, w, an, true, "approx-rib-radius"); against(id, R + g, y, w, an, false, "approx-rib-radius");
  against(id, R, y, w + s, an, true, "approx-rib-width"); against(id, R, y, w + g, an, false, "approx-rib-width");
  against(id, R, y, w, an + s, true, "approx-rib-angle"); against(id, R, y, w, an + g, false, "approx-rib-angle");
  if (std::fabs(y) > .01) against(id, R, y + s * std::fabs(y), w, an, true, "approx-rib-position");
  against(id, R, y + g, w, an, false, "approx-rib-position");
  approx(b, enve::rib(), tol, false, "approx-rib-nan");
  M.seen("copy:rib");
}
static std::vector<int> query(enve::ground::mesh const &m, enve::triangleground::vecptr const &all, V3 lo, V3 hi, bool &any) {
  enve::triangleground::vecptr out;
  any = m.intersection(std::make_shared<acme::aabb>(to_point(lo), to_point(hi), 0), out);
  std::vector<int> v;
  for (auto &t : out) { int k = -1; for (size_t i = 0; i < all.size(); ++i) if (all[i] == t) k = int(i); v.push_back(k); }
  std::sort(v.begin(), v.end());
  return v;
}
static void copy_mesh(Rng &r) {
  auto make = [&](size_t n) {
    enve::triangleground::vecptr ts;
    for (size_t i = 0; i < n; ++i) { V3 c = V3(r.u(-5, 5), r.u(-5, 5), r.u(-1, 1)), v[3]; for (V3 &x : v) x = c + V3(r.u(-1, 1), r.u(-1, 1), r.u(-.2, .2)); ts.push_back(make_tri(1, int(i), friction(r), v)); }
    return ts;
  };
  auto A = make(size_t(r.p(.1) ? 0 : r.i(1, 40))), B = make(size_t(r.p(.2) ? 0 : r.i(1, 40)));
  M.describe = [&] { return "mesh of " + std::to_string(A.size()) + " over one of " + std::to_string(B.size()); };
  std::unique_ptr<enve::ground::mesh> a(A.empty() ? new enve::ground::mesh() : new enve::ground::mesh(A)), b(B.empty() ? new enve::ground::mesh() : new enve::ground::mesh(B));
  auto judge = [&](enve::ground::mesh const &m, enve::triangleground::vecptr const &T, char const *k) {
    if (m.size() != T.size()) { M.fail(k, "size " + std::to_string(m.size()) + " expected " + std::to_string(T.size())); return; }
    for (size_t i = 0; i < T.size(); ++i) if (contents(m).empty() || (to_v3(m[i]->vertex(0)) - to_v3(T[i]->vertex(0))).norm() != 0 || m[i]->friction() != T[i]->friction() || m[i]->id() != T[i]->id()) M.fail(k, "triangle " + std::to_string(i) + " differs");
    for (int q = 0; q < 3; ++q) {
      V3 lo(r.u(-6, 5), r.u(-6, 5), r.u(-2, 1)), hi = lo + V3(r.u(0, 6), r.u(0, 6), r.u(0, 3));
      if (q == 0) { lo = V3(-99, -99, -99); hi = V3(99, 99, 99); }
      size_t n = 0;
      for (auto &t : T) {
        auto &x = t->bbox();
        if (x.min(0) <= hi.x && x.max(0) >= lo.x && x.min(1) <= hi.y && x.max(1) >= lo.y && x.min(2) <= hi.z && x.max(2) >= lo.z) ++n;
      }
      enve::triangleground::vecptr out;
      bool any = m.intersection(std::make_shared<acme::aabb>(to_point(lo), to_point(hi), 0), out);
      if (any != (n > 0) || out.size() != n) M.fail(std::string(k) + "-query", std::to_string(out.size()) + " found, expected " + std::to_string(n));
    }
  };
  M.eval(mon::mix(uint64_t(M.idx) * 131 + A.size() * 64 + B.size()), !A.empty());
  judge(*a, A, "mesh"); judge(*b, B, "mesh");
  b->copy(*a); judge(*b, A, "copy-mesh"); judge(*a, A, "copy-mesh-source");
  switch (r.i(0, 4)) {
  case 0: a->clear(); judge(*a, {}, "clear-mesh"); judge(*b, A, "copy-mesh-shared"); break;
  case 1: a.reset(); judge(*b, A, "copy-mesh-shared"); break;
  case 2: b->clear(); judge(*b, {}, "clear-mesh"); judge(*a, A, "copy-mesh-shared"); break;
  case 3: a->copy(enve::ground::mesh(B)); judge(*a, B, "copy-mesh-again"); judge(*b, A, "copy-mesh-shared"); break;
  default: a->copy(*a); judge(*a, A, "copy-mesh-itself"); b->clear(); b->clear(); judge(*b, {}, "clear-mesh"); b->copy(*a); judge(*b, A, "copy-mesh-after-clear"); break;
  }
  M.seen("copy:mesh");
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("flat", 20000, 400000, flats);
  M.run("flat-refused", 8000, 100000, flats_refused);
  M.run("triangle", 30000, 600000, tris);
  M.run("mesh", 3000, 60000, meshes);
  M.run("defaults", 50, 200, defaults);
  M.run("copy-flat", 15000, 300000, copy_flat);
  M.run("copy-triangle", 15000, 300000, copy_tri);
  M.run("copy-shape", 15000, 300000, copy_shape);
  M.run("copy-rib", 15000, 300000, copy_rib);
  M.run("copy-mesh", 3000, 50000, copy_mesh);
  return M.finish();
}
