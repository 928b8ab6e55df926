// Life cycles and abuse of the public interface. Under the sanitizers every access is judged by them;
// in the plain build the live allocations are counted.
#include "alloc.hh"
#include "snap.hh"
using namespace gen;
static mon::Mon M;
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
static volatile double sink_;
static void use(Snap const &s) { double x = 0; for (auto *v : {&s.rib, &s.total, &s.frame, &s.pose}) for (double d : *v) if (d > 0) x += 1; sink_ = x; }

static double odd(Rng &r) { return r.pick({0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, -1e300, 1e-12, 1e12, NaN, INF, -INF, r.u(-1, 1), r.u(-100, 100)}); }
static V3 oddv(Rng &r) { return V3(odd(r), odd(r), odd(r)); }
static enve::triangleground::vecptr odd_tris(Rng &r, int n) {
  enve::triangleground::vecptr ts;
  double p = r.pick({0.0, .02, .3, 1.0});
  for (int i = 0; i < n; ++i) {
    V3 v[3]; V3 c(r.u(-1, 1), r.u(-1, 1), r.u(-.2, .5));
    for (V3 &x : v) x = r.p(p) ? oddv(r) : c + V3(r.u(-.5, .5), r.u(-.5, .5), r.u(-.1, .1));
    if (r.p(.1)) v[1] = v[0];
    if (r.p(.1)) v[2] = v[0] + (v[1] - v[0]) * r.u(-1, 2);
    if (r.p(.03)) v[1] = v[2] = v[0];
    ts.push_back(std::make_shared<enve::triangleground const>(r.p(.8) ? i : r.i(-2147483647, 2147483647), r.p(.05) ? INF : r.u(), to_point(v[0]), to_point(v[1]), to_point(v[2])));
  }
  return ts;
}
static acme::affine odd_pose(Rng &r) {
  Pose P; P.R = rotation(r); P.t = V3(r.u(-.3, .3), r.u(-.3, .3), r.u(0, .5));
  acme::affine A = to_affine(P);
  if (r.p(.3)) A.matrix()(r.i(0, 2), r.i(0, 3)) = odd(r);
  if (r.p(.1)) A.linear() *= r.pick({0.0, 1e-9, 3.0, -1.0});
  return A;
}
// every getter into vectors of any size
static void getters(Rng &r, enve::shell const &s) {
  size_t n = size_t(r.i(0, 30));
  auto len = [&](size_t m, char const *k) { if (m != s.size()) M.fail("memory-getter-size", std::string(k) + " gives " + std::to_string(m) + " of " + std::to_string(s.size())); };
  std::vector<acme::point> p(n); s.contactPoint(p); len(p.size(), "points");
  std::vector<acme::vec3> v(n); s.contactNormal(v); len(v.size(), "normals");
  std::vector<double> d(n); s.contactFriction(d); len(d.size(), "frictions");
  d.resize(n); s.contactDepth(d); len(d.size(), "depths"); d.resize(n); s.contactArea(d); len(d.size(), "areas"); d.resize(n); s.contactVolume(d); len(d.size(), "volumes");
  std::vector<acme::affine> a(n); s.contactPointAffine(a); len(a.size(), "frames");
  v.resize(n); s.relativeAngles(v); len(v.size(), "angles");
  double x = 0;
  for (auto &q : p) x += q.x() > 0; for (auto &q : v) x += q.x() > 0; for (auto &q : a) x += q.matrix()(0, 0) > 0; for (double q : d) x += q > 0;
  sink_ = x;
  M.seen("getters");
}
static void abuse(Rng &r) {
  auto ts = odd_tris(r, r.pick({0, 1, 2, 5, 30, 200}));
  std::string log = std::to_string(ts.size()) + " triangles";
  M.describe = [&] { return log; };
  std::unique_ptr<enve::ground::mesh> m(ts.empty() ? new enve::ground::mesh() : new enve::ground::mesh(ts));
  Wheel w = wheel(r, false);
  auto s = make_shell(w);
  int k = r.i(1, 8);
  enve::triangleground::vecptr kept; std::shared_ptr<acme::aabb> box;
  while (k-- > 0) {
    try {
      switch (r.i(0, 13)) {
      case 0: case 1: case 2: log += "; set up mesh"; s->setup(*m, odd_pose(r), r.p(.6) ? "geometric" : "sampling"); break;
      case 3: { log += "; set up flat"; V3 n = oddv(r), o = oddv(r); if (!(n.z > 0)) n.z = 1; enve::ground::flat f(r.u(), to_point(o), to_vec(n)); s->setup(f, odd_pose(r), r.p(.6) ? "geometric" : "sampling"); break; }
      case 4: log += "; default flat"; { enve::ground::flat f; s->setup(f, odd_pose(r), "geometric"); s->setup(f, odd_pose(r), "sampling"); } break;
      case 5: log += "; bad method"; s->setup(*m, odd_pose(r), r.p(.5) ? "" : std::string(3000, 'x')); break;
      case 6: log += "; resize"; s->resize(size_t(r.pick({0, 1, 2, 7, 60, 5000}))); break;
      case 7: { log += "; query"; auto b = std::make_shared<acme::aabb>(to_point(oddv(r)), to_point(oddv(r)), 0); m->intersection(b, kept); break; }
      case 8: log += "; clear"; m->clear(); break;
      case 9: log += "; copy"; { enve::ground::mesh c; c.copy(*m); m->copy(c); if (r.p(.3)) m->copy(*m); } break;
      case 10: log += "; keep box"; box = s->bbox(); s->updateBBox(); break;
      case 11: log += "; move"; s->transform(odd_pose(r)); s->translate(to_vec(oddv(r))); s->rotate(r.u(-3, 3), to_vec(oddv(r))); break;
      case 12: { log += "; new wheel"; std::unique_ptr<enve::shell> t(new enve::shell(size_t(r.i(0, 5)), odd(r), odd(r), odd(r), odd(r), odd(r))); s = std::move(t); break; }
      default: { log += "; section"; double y = odd(r); sink_ = s->checkWidthBound(y); sink_ = s->surfaceRadius(y); sink_ = s->surfaceDerivative(y); sink_ = s->surfaceAngle(y); }
      }
      M.seen("calls");
    } catch (std::exception const &) { M.seen("refused calls"); }
    if (r.p(.5)) use(snapshot(*s));
    if (r.p(.3)) getters(r, *s);
  }
  if (r.p(.2)) { std::ostringstream os; s->print(os); for (auto &t : ts) t->print(os); m->print(M.scratch + "/print.txt"); enve::ground::flat f; f.print(os); std::remove((M.scratch + "/print.txt").c_str()); sink_ = double(os.str().size()); M.seen("prints"); }
  // what was taken out stays valid after the objects are gone
  m.reset(); ts.clear();
  double x = 0;
  for (auto &t : kept) x += t->vertex(2).z() > 0 ? 1 : 0, x += t->bbox().max(2) > 0 ? 1 : 0;
  s.reset();
  if (box) x += box->max(0) > 0;
  sink_ = x;
  M.eval(mon::hash_str(log) ^ uint64_t(M.idx), true);
  M.sample(M.describe);
}
static void ribs_alone(Rng &r) {
  enve::rib b = r.p(.1) ? enve::rib() : enve::rib(r.i(0, 9), r.p(.1) ? odd(r) : r.u(.2, .5), r.u(-.1, .1), r.u(.01, .1), 0);
  auto ts = odd_tris(r, r.i(0, 40));
  enve::output o;
  M.describe = [&] { return "a rib and " + std::to_string(ts.size()) + " triangles"; };
  for (int k = 0; k < 4; ++k) {
    try {
      sink_ = b.envelop(ts, odd_pose(r), r.p(.5) ? "geometric" : "sampling", o);
      V3 n = oddv(r); if (!(n.z > 0)) n.z = .5;
      enve::ground::flat f(r.u(), to_point(oddv(r)), to_vec(n));
      sink_ = b.envelop(f, odd_pose(r), r.p(.5) ? "geometric" : "sampling", o);
      sink_ = b.envelop(odd_pose(r), o);
      sink_ = (o.point.x() > 0) + (o.normal.x() > 0) + (o.volume > 0) + (o.area > 0) + (o.depth > 0) + (o.friction > 0);
    } catch (std::exception const &) { M.seen("refused calls"); }
    M.seen("calls", 3);
  }
  M.eval(mon::mix(uint64_t(M.idx)), true);
}
// deep and wide trees
static void deep(Rng &r) {
  int n = r.pick({1000, 5000, 20000}), kind = r.i(0, 4);
  enve::triangleground::vecptr ts;
  for (int i = 0; i < n; ++i) {
    double x = kind == 0 ? std::ldexp(1.0, -(i % 1000)) : kind == 1 ? 0.0 : kind == 2 ? double(i) : kind == 3 ? std::ldexp(1.0, i % 900) : r.u(-1, 1);
    ts.push_back(std::make_shared<enve::triangleground const>(i, 1.0, acme::point(x, 0, 0), acme::point(x + 1e-3, 0, 0), acme::point(x, 1e-3, 0)));
  }
  M.describe = [&] { return std::to_string(n) + " triangles of kind " + std::to_string(kind); };
  enve::ground::mesh m(ts);
  enve::triangleground::vecptr out;
  m.intersection(std::make_shared<acme::aabb>(acme::point(-1e9, -1, -1), acme::point(1e9, 1, 1), 0), out);
  enve::ground::mesh c; c.copy(m); c.clear();
  Wheel w = wheel(r, false); auto s = make_shell(w);
  Pose P; P.t = V3(0, 0, w.Rx * .9);
  s->setup(m, to_affine(P), "geometric"); use(snapshot(*s));
  M.eval(mon::mix(uint64_t(M.idx)), true); M.seen("deep");
}
static void write_mesh(Rng &r, std::string const &p, bool rdf, int how) {
  std::ofstream f(p);
  int n = r.i(1, 20);
  if (rdf) f << "[NODES]\n";
  for (int i = 0; i < 3 * n; ++i) { if (rdf) f << i << " "; else f << "v "; f << r.u(-1, 1) << " " << r.u(-1, 1) << " " << r.u(0, .2); if (how == 1 && i == n) f << " x"; f << "\n"; }
  if (rdf) f << "[ELEMENTS]\n";
  for (int i = 0; i < n; ++i) { int o = rdf ? 0 : 1; if (!rdf) f << "f "; f << 3 * i + o << " " << 3 * i + 1 + o << " " << (how == 2 && i == n - 1 ? 99999 : 3 * i + 2 + o); if (rdf) f << " " << (how == 3 ? -1.0 : .7); f << "\n"; }
}
// everything is given back
static void life(Rng &r) {
  auto body = [&](Rng q) {
    std::vector<std::unique_ptr<enve::shell>> ss; std::vector<std::unique_ptr<enve::ground::mesh>> ms;
    int k = q.i(2, 14);
    ms.emplace_back(new enve::ground::mesh()); { Wheel w = wheel(q, false); ss.push_back(make_shell(w)); }
    while (k-- > 0) {
      try {
        switch (q.i(0, 9)) {
        case 0: { Wheel w = wheel(q, false); ss.push_back(make_shell(w)); break; }
        case 1: ms.emplace_back(new enve::ground::mesh(odd_tris(q, q.i(1, 40)))); break;
        case 2: case 3: ss[size_t(q.i(0, int(ss.size()) - 1))]->setup(*ms[size_t(q.i(0, int(ms.size()) - 1))], odd_pose(q), q.p(.6) ? "geometric" : "sampling"); break;
        case 4: ss[0]->resize(size_t(q.i(0, 40))); break;
        case 5: case 6: { bool rdf = q.p(.5); std::string p = M.scratch + (rdf ? "/l.rdf" : "/l.obj"); write_mesh(q, p, rdf, q.i(0, 3)); if (rdf) ms.back()->load(p); else ms.back()->load(p, .5); break; }
        case 7: { std::unique_ptr<enve::shell> t(new enve::shell(size_t(q.i(0, 9)), odd(q), odd(q), odd(q), odd(q), odd(q))); break; }
        case 8: ms[0]->copy(*ms.back()); break;
        default: if (q.p(.5)) ms[0]->clear(); else { enve::ground::mesh n(M.scratch + "/none.rdf"); }
        }
      } catch (std::exception const &) { }
    }
    for (auto &s : ss) { s->setup(*ms[0], odd_pose(q), "geometric"); }
  };
  M.describe = [&] { return "a life cycle"; };
  uint64_t s = r.next();
  body(Rng(s));
  long a = alloc::live(); body(Rng(s)); long b = alloc::live(); body(Rng(s)); long c = alloc::live();
  M.eval(s, true);
  if (b > a && c > b) M.fail("memory-leak", std::to_string(b - a) + " allocations more after a life cycle, " + std::to_string(c - b) + " after the next");
  if (ALLOC_COUNTED) M.seen("life cycles counted");
  M.seen("life cycles");
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("abuse", 4000, 100000, abuse);
  M.run("ribs", 4000, 100000, ribs_alone);
  M.run("deep", 16, 200, deep);
  M.run("life", 2000, 40000, life);
  return M.finish();
}
