// What is printed: the values of the object, in order, where asked and nowhere else.
#include "ent.hh"
#include "snap.hh"
#include <array>
#include <fstream>
#include <sys/stat.h>
using namespace ent;
using gen::snapshot; using gen::differ; using gen::contents;
static mon::Mon M;

static std::vector<double> numbers(std::string const &s) {
  std::vector<double> v;
  for (size_t i = 0; i < s.size();) {
    unsigned char prev = i ? (unsigned char)s[i - 1] : ' ';
    bool free = !(std::isalnum(prev) || prev == '_' || prev == '.' || prev >= 128);
    size_t j = i; if (s[j] == '-' || s[j] == '+') ++j;
    if (free && j < s.size() && (std::isdigit((unsigned char)s[j]) || s.compare(j, 3, "nan") == 0 || s.compare(j, 3, "inf") == 0)) {
      char *e; v.push_back(std::strtod(s.c_str() + i, &e)); i = size_t(e - s.c_str());
    } else ++i;
  }
  return v;
}
// the values are among the numbers, in order (labels may hold numbers of their own)
static std::string in_order(std::vector<double> const &have, std::vector<double> const &want) {
  size_t k = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    auto same = [&](double a, double b) { return std::isnan(a) ? std::isnan(b) : std::fabs(a - b) <= 6e-6 * std::fabs(a) || a == b || std::fabs(a) < 1e-300; };
    while (k < have.size() && !same(want[i], have[k])) ++k;
    if (k == have.size()) return "value " + std::to_string(i) + " of " + std::to_string(want.size()) + ", " + mon::num(want[i]) + ", is not there";
    ++k;
  }
  return "";
}
// prints with f to a stream of its own; what, for whom, is expected
static void printed(const char *kind, std::function<void(std::ostream &)> const &f, std::vector<double> const &want) {
  std::ostringstream a, b; std::string elsewhere;
  { mon::Quiet q; f(a); f(b); elsewhere = q.sink.str(); }
  std::string t = a.str();
  std::string d = in_order(numbers(t), want);
  if (!d.empty()) M.fail(kind, d + " in: " + t.substr(0, 1500));
  if (b.str() != t) M.fail(kind, "printed otherwise the second time");
  if (!elsewhere.empty()) M.fail(kind, "printed on the standard output: " + elsewhere.substr(0, 200));
  if (!a.good()) M.fail(kind, "left the stream in a bad state");
  // after something else, to a stream that holds something
  std::ostringstream c; c << "7 "; { mon::Quiet q; f(c); }
  if (c.str().compare(0, 2, "7 ") != 0 || !in_order(numbers(c.str().substr(2)), want).empty()) M.fail(kind, "on a stream that holds something");
  M.seen(std::string(kind)); M.seen("values", long(want.size()));
}
template <class T> static void app(std::vector<double> &v, T const &p) { for (int i = 0; i < 3; ++i) v.push_back(p(i)); }
static double coordinate(Rng &r) { return r.p(.2) ? double(r.i(-5, 5)) : r.p(.3) ? r.sgn() * r.logu(1e-9, 1e9) : r.u(-20, 20); }
static V3 vec(Rng &r) { return V3(coordinate(r), coordinate(r), coordinate(r)); }
static void app(std::vector<double> &v, V3 const &p) { v.push_back(p.x); v.push_back(p.y); v.push_back(p.z); }

static void entities(Rng &r) {
  V3 a = vec(r), b = vec(r), c = vec(r); double R = std::fabs(coordinate(r));
  std::vector<double> w;
  int t = r.i(0, 10);
  M.describe = [&] { return std::to_string(t) + " of " + gen::str(a) + gen::str(b) + gen::str(c) + " " + mon::num(R); };
  M.eval(mon::hash_str(M.describe()), true);
  auto P = to_point(a), Q = to_point(b), S = to_point(c); auto D = to_vec(b);
#define SHOW(K, O) printed(K, [&](std::ostream &os) { os << O; }, w)
  switch (t) {
  case 0: { acme::vec3 x = to_vec(a); app(w, a); printed("vec3", [&](std::ostream &os) { acme::operator<<(os, x); }, w); break; }
  case 1: app(w, a); printed("point", [&](std::ostream &os) { acme::operator<<(os, P); }, w); break;
  case 2: { acme::line x(P, D); app(w, a); app(w, b); SHOW("line", x); break; }
  case 3: { acme::ray x(P, D); app(w, a); app(w, b); SHOW("ray", x); break; }
  case 4: { acme::plane x(P, D); app(w, a); app(w, b); SHOW("plane", x); break; }
  case 5: { acme::segment x(P, Q); app(w, a); app(w, b); SHOW("segment", x); break; }
  case 6: { acme::triangle x(P, Q, S); app(w, a); app(w, b); app(w, c); SHOW("triangle", x); break; }
  case 7: { acme::disk x(R, P, D); w.push_back(R); app(w, a); app(w, b); SHOW("disk", x); break; }
  case 8: { acme::ball x(R, P); w.push_back(R); app(w, a); SHOW("ball", x); break; }
  case 9: { acme::aabb x(P, Q, 3, 4); app(w, V3(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z))); app(w, V3(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z))); SHOW("box", x); break; }
  default: { acme::affine x; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double e = i == 3 ? double(j == 3) : coordinate(r); x.matrix()(i, j) = e; w.push_back(e); } printed("affine", [&](std::ostream &os) { acme::operator<<(os, x); }, w); }
  }
#undef SHOW
}
static void tree(Rng &r) {
  std::vector<std::array<double, 6>> v; acme::aabb::vecptr p;
  for (int n = r.p(.1) ? 0 : r.i(1, 25); n > 0; --n) {
    std::array<double, 6> b; for (size_t i = 0; i < 3; ++i) { double x = r.u(-9, 9), y = r.p(.2) ? x : r.u(-9, 9); b[i] = std::min(x, y); b[3 + i] = std::max(x, y); }
    if (!v.empty() && r.p(.1)) b = v[0];
    v.push_back(b); p.push_back(std::make_shared<acme::aabb>(b[0], b[1], b[2], b[3], b[4], b[5], int(v.size()), 0));
  }
  M.describe = [&] { std::string s; for (auto const &b : v) { for (double x : b) s += " " + mon::num(x); s += ";"; } return s; };
  M.eval(mon::hash_str(M.describe()), !v.empty());
  acme::AABBtree t; t.build(p);
  std::ostringstream o; { mon::Quiet q; t.print(o); if (!q.sink.str().empty()) M.fail("tree", "printed on the standard output"); }
  auto n = numbers(o.str());
  if (v.empty()) { if (!n.empty() || o.str().empty()) M.fail("tree", "an empty tree: " + o.str()); M.seen("tree:empty"); return; }
  if (n.size() % 6 || n.size() / 6 < v.size()) { M.fail("tree", std::to_string(n.size()) + " numbers for " + std::to_string(v.size()) + " boxes"); return; }
  std::array<double, 6> all = v[0]; for (auto const &b : v) for (size_t i = 0; i < 3; ++i) { all[i] = std::min(all[i], b[i]); all[3 + i] = std::max(all[3 + i], b[3 + i]); }
  auto same = [&](size_t k, std::array<double, 6> const &b) { for (size_t i = 0; i < 6; ++i) if (std::fabs(n[6 * k + i] - b[i]) > 6e-7 * std::fabs(b[i])) return false; return true; };
  if (!same(0, all)) M.fail("tree", "the first box is not that of all: " + o.str().substr(0, 300));
  for (auto const &b : v) { size_t have = 0, want = 0; for (auto const &c : v) want += c == b; for (size_t k = 0; k < n.size() / 6; ++k) have += same(k, b); if (have < want) { M.fail("tree", "a box is printed " + std::to_string(have) + " times, given " + std::to_string(want)); break; } }
  M.seen("tree"); M.sample(M.describe);
}
static void grounds(Rng &r) {
  double R = r.u(.2, .5); int kind = r.i(0, 8);
  auto T = gen::mesh(r, R, kind); V3 at = gen::place(r); for (auto &t : T) for (auto &x : t.v) x = x + at;
  if (T.size() > 200) T.resize(200);
  M.describe = [&] { return gen::str(T); };
  enve::triangleground::vecptr v; for (size_t i = 0; i < T.size(); ++i) v.push_back(std::make_shared<enve::triangleground const>(int(i) * 3 + 1, T[i].mu, to_point(T[i].v[0]), to_point(T[i].v[1]), to_point(T[i].v[2])));
  enve::ground::mesh m(v);
  M.eval(mon::hash_str(M.describe()), !T.empty());
  auto before = contents(m);
  if (!v.empty()) {
    auto const &t = *v[size_t(r.i(0, int(v.size()) - 1))]; std::vector<double> w{double(t.id()), t.friction()};
    for (size_t k = 0; k < 3; ++k) app(w, t.vertex(k)); app(w, t.normal()); app(w, t.bbox().max()); app(w, t.bbox().min());
    printed("triangleground", [&](std::ostream &os) { t.print(os); }, w);
  }
  { double mu = gen::friction(r); V3 o = vec(r), n = dirvec(r).unit(); if (n.z < 0) n = -n; if (n.z < .01) n = V3(0, 0, 1); enve::ground::flat f(mu, to_point(o), to_vec(n)); std::vector<double> w{mu}; app(w, f.origin()); app(w, f.normal()); printed("flat", [&](std::ostream &os) { f.print(os); }, w); }
  // a file
  std::string path = M.scratch + "/mesh.txt";
  if (r.p(.4)) { std::ofstream old(path); for (int k = r.i(1, 3000); k > 0; --k) old << "T  = 5 V0 = [ 1, 2, 3 ]'\n"; }
  std::string elsewhere; { mon::Quiet q; m.print(path); elsewhere = q.sink.str(); }
  if (!elsewhere.empty()) M.fail("mesh", "printed on the standard output");
  std::ifstream in(path); std::stringstream all; all << in.rdbuf();
  std::vector<double> w; for (size_t i = 0; i < m.size(); ++i) { auto const &t = *m.ptrTriangleground(i); w.push_back(double(i)); for (size_t k = 0; k < 3; ++k) app(w, t.vertex(k)); app(w, t.normal()); w.push_back(t.friction()); }
  auto have = numbers(all.str()); std::string d = in_order(have, w);
  if (!d.empty()) M.fail("mesh", d);
  if (have.size() > w.size() + 10) M.fail("mesh", std::to_string(have.size()) + " numbers in the file, expected " + std::to_string(w.size()));
  if (differ("", before, contents(m), 0) != "") M.fail("mesh", "changed by printing");
  { mon::Quiet q; try { m.print(M.scratch + "/none/mesh.txt"); } catch (std::exception const &) { /* may be reported */ } }
  if (differ("", before, contents(m), 0) != "") M.fail("mesh", "changed by printing to a missing folder");
  struct stat st; if (stat((M.scratch + "/none").c_str(), &st) == 0) M.fail("mesh", "made a folder");
  ::unlink(path.c_str());
  M.seen("mesh"); M.seen("values", long(w.size()));
}
static void wheels(Rng &r) {
  gen::Wheel W = gen::wheel(r, false); auto sh = gen::make_shell(W);
  M.describe = [&] { return gen::str(W); };
  ref::Pose P; P.R = gen::rotation(r); P.t = gen::place(r) + V3(0, 0, r.u(0, 1.2) * W.Rx);
  int how = r.i(0, 3);
  if (how) {
    enve::ground::flat f(gen::friction(r), to_point(P.t - V3(0, 0, W.Rx * r.u(.3, 1.1))), to_vec(gen::normal_up(r, .3)));
    sh->setup(f, to_affine(P), how == 1 ? "geometric" : "sampling");
  }
  M.eval(mon::hash_str(M.describe()) ^ uint64_t(how), true);
  auto s = snapshot(*sh);
  { std::vector<double> w{W.Rx, W.Mx, W.Ry, W.My, W.Ly}; enve::shape x(W.Rx, W.Mx, W.Ry, W.My, W.Ly); printed("shape", [&](std::ostream &os) { x.print(os); }, w); }
  std::vector<double> w{W.Rx, W.Mx, W.Ry, W.My, W.Ly};
  size_t n = sh->size(); acme::point p; acme::vec3 q; double x; acme::affine A;
  for (size_t i = 0; i < n; ++i) { app(w, sh->ribCenter(i)); w.push_back(sh->ribRadius(i)); w.push_back(sh->ribWidth(i)); w.push_back(sh->ribAngle(i)); }
  w.push_back(sh->surfaceMaxRadius()); sh->eulerAngles(q); w.push_back(q(1) / M_PI); w.push_back(q(2) / M_PI); w.push_back(q(0) / M_PI);
  auto put = [&](double v) { w.push_back(v); };
  auto mat = [&] { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) w.push_back(A.matrix()(i, j)); };
  sh->contactPoint(p); app(w, p); for (size_t i = 0; i < n; ++i) { sh->contactPoint(i, p); app(w, p); }
  sh->contactNormal(q); app(w, q); for (size_t i = 0; i < n; ++i) { sh->contactNormal(i, q); app(w, q); }
  sh->contactFriction(x); put(x); for (size_t i = 0; i < n; ++i) { sh->contactFriction(i, x); put(x); }
  sh->contactDepth(x); put(x); for (size_t i = 0; i < n; ++i) { sh->contactDepth(i, x); put(x); }
  sh->contactArea(x); put(x); for (size_t i = 0; i < n; ++i) { sh->contactArea(i, x); put(x); }
  sh->contactVolume(x); put(x); for (size_t i = 0; i < n; ++i) { sh->contactVolume(i, x); put(x); }
  A = sh->transformation(); mat(); sh->contactPointAffine(A); mat();
  sh->relativeAngles(q); app(w, acme::vec3(q / M_PI)); for (size_t i = 0; i < n; ++i) { sh->relativeAngles(i, q); app(w, acme::vec3(q / M_PI)); }
  printed("wheel", [&](std::ostream &os) { sh->print(os); }, w);
  std::string d = differ(s, snapshot(*sh), 0); if (!d.empty()) M.fail("wheel", "changed by printing: " + d);
  M.sample(M.describe);
}
int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("entities", 40000, 1000000, entities);
  M.run("tree", 10000, 200000, tree);
  M.run("grounds", 3000, 60000, grounds);
  M.run("wheels", 5000, 100000, wheels);
  return M.finish();
}
