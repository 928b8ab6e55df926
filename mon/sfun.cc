// The S-function interface gives what the C++ interface gives.
#include "alloc.hh"
#include "snap.hh"
#include "enve_sfun_interface.h"
using namespace gen;
static mon::Mon M;
static const double TOL = 1e-10;

static std::string write_mesh(std::vector<Tri> const &T, bool rdf, std::string const &name) {
  std::string p = M.scratch + "/" + name + (rdf ? ".rdf" : ".obj");
  std::ofstream f(p);
  if (rdf) f << "[NODES]\n";
  for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 3; ++k) {
    if (rdf) f << 3 * i + size_t(k) << " "; else f << "v ";
    f << mon::num(T[i].v[k].x) << " " << mon::num(T[i].v[k].y) << " " << mon::num(T[i].v[k].z) << "\n";
  }
  if (rdf) f << "[ELEMENTS]\n";
  for (size_t i = 0; i < T.size(); ++i) {
    if (rdf) f << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << mon::num(T[i].mu) << "\n";
    else f << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n";
  }
  return p;
}
struct Par { double n, Rx, Mx, Ry, My, Ly, h, mu; };
static void init(Par const &p) { enve_sfun_init(&p.n, &p.Rx, &p.Mx, &p.Ry, &p.My, &p.Ly, &p.h, &p.mu); }
static Par par(Wheel const &w, double h, double mu) { return Par{double(w.n), w.Rx, w.Mx, w.Ry, w.My, w.Ly, h, mu}; }
static EnveInputBus bus(Pose const &P) {
  EnveInputBus b; acme::affine A = to_affine(P);
  for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) b.HubAffine[r + 4 * c] = A.matrix()(r, c);
  return b;
}
// the bus has a guard after it: nothing may be written there
struct Guarded { EnveOutputBus o; double guard[16]; };
static void poison(Guarded &g, double v) { double *p = reinterpret_cast<double *>(&g); for (size_t i = 0; i < sizeof g / 8; ++i) p[i] = v; }

static std::string compare_bus(EnveOutputBus const &o, enve::shell const &sh) {
  acme::affine A; double x;
  sh.contactPointAffine(A);
  for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) if (!eq(o.ShellAffine[r + 4 * c], A.matrix()(r, c), TOL)) return "ShellAffine(" + std::to_string(r) + "," + std::to_string(c) + ") " + mon::num(o.ShellAffine[r + 4 * c]) + " expected " + mon::num(A.matrix()(r, c));
  sh.contactDepth(x); if (!eq(o.ShellRho, x, TOL)) return "ShellRho " + mon::num(o.ShellRho) + " expected " + mon::num(x);
  sh.contactFriction(x); if (!eq(o.ShellFriction, x, TOL)) return "ShellFriction " + mon::num(o.ShellFriction) + " expected " + mon::num(x);
  for (int i = 0; i < ENVE_MAX_RIBS; ++i) {
    std::string k = " of rib " + std::to_string(i);
    if (i < int(sh.size())) {
      sh.contactPointAffine(size_t(i), A);
      for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) if (!eq(o.RibsAffine[r + 4 * c + 16 * i], A.matrix()(r, c), TOL)) return "RibsAffine(" + std::to_string(r) + "," + std::to_string(c) + ")" + k + " " + mon::num(o.RibsAffine[r + 4 * c + 16 * i]) + " expected " + mon::num(A.matrix()(r, c));
      sh.contactDepth(size_t(i), x); if (!eq(o.RibsRho[i], x, TOL)) return "RibsRho" + k + " " + mon::num(o.RibsRho[i]) + " expected " + mon::num(x);
      sh.contactFriction(size_t(i), x); if (!eq(o.RibsFriction[i], x, TOL)) return "RibsFriction" + k + " " + mon::num(o.RibsFriction[i]) + " expected " + mon::num(x);
    } else {
      for (int j = 0; j < 16; ++j) if (!std::isnan(o.RibsAffine[j + 16 * i])) return "RibsAffine" + k + " is not NaN past the last rib";
      if (!std::isnan(o.RibsRho[i]) || !std::isnan(o.RibsFriction[i])) return "output" + k + " is not NaN past the last rib";
    }
  }
  return "";
}

static void steps(Rng &r, int cycles) {
  std::string log;
  M.describe = [&] { return log; };
  for (int cy = 0; cy < cycles; ++cy) {
    Wheel w = wheel(r, false);
    w.n = r.pick({1, 2, 3, 5, 10, 19, 20, 21, 25, 40});
    Scene s = mesh_scene(r, -1, false);
    while (s.T.empty()) s = mesh_scene(r, -1, false);
    if (s.T.size() > 150) s.T.resize(150);
    bool rdf = r.p(.5);
    std::string path = write_mesh(s.T, rdf, r.p(.2) ? "a.rdf.b" : "s");
    double h = s.P.t.z - w.Rx * r.u(.7, 1.1), mu = friction(r);
    setenv("ENVE_GROUND_PATH", path.c_str(), 1);
    Par p = par(w, h, mu);
    log += "\ninit " + str(w) + " flat " + mon::num(h) + " " + mon::num(mu) + " ground " + path + " " + str(s.T, 2);
    init(p);
    enve::ground::mesh g;
    if (rdf) g.load(path); else g.load(path, 1.0);
    enve::ground::flat f(mu, acme::point(0, 0, h), acme::vec3(0, 0, 1));
    for (int k = r.i(1, 8); k > 0; --k) {
      Pose P; P.R = rotation(r);
      P.t = s.P.t + V3(r.u(-1, 1), r.u(-1, 1), r.u(-.5, .5)) * w.Rx;
      if (r.p(.15)) P.t = P.t + V3(30, 30, 0) * w.Rx;   // off the road
      double method = r.i(0, 1), flat = r.p(.3) ? 1 : 0;
      EnveInputBus in = bus(P), in0 = in;
      Guarded o; poison(o, 77);
      log += "\n out " + str(P) + " method " + mon::num(method) + " flat " + mon::num(flat);
      enve_sfun_out(&in, &o.o, &method, &flat);
      auto sh = make_shell(w);
      std::string name = method == 0 ? "geometric" : "sampling";
      bool contact = false;
      if (flat == 0) contact = sh->setup(g, to_affine(P), name);
      bool inmesh = flat == 1 || contact;
      if (!contact) sh->setup(f, to_affine(P), name);
      uint64_t fpr = mon::hash_bytes(&o.o, sizeof o.o);
      M.eval(fpr, true);
      if (o.o.InMesh != (inmesh ? 1.0 : 0.0)) M.fail("in-mesh", mon::num(o.o.InMesh) + " expected " + std::to_string(inmesh));
      std::string d = compare_bus(o.o, *sh);
      if (!d.empty()) M.fail("bus", d);
      for (double x : o.guard) if (x != 77) { M.fail("bus-overrun", "written past the end of the bus"); break; }
      if (std::memcmp(&in, &in0, sizeof in)) M.fail("input-changed", "the input bus is changed");
      M.seen(flat == 1 ? "flat" : contact ? "mesh" : "fallback");
      M.seen("ribs:" + std::string(w.n < 20 ? "fewer" : w.n == 20 ? "all" : "more"));
      if (r.p(.2)) {   // refused, and then as before
        double bm = r.pick({2.0, -1.0, 0.5, 1e9}), ok = 0, bf = r.pick({2.0, -1.0, 0.5});
        bool badm = r.p(.5), threw = false;
        Guarded z; poison(z, 3);
        try { enve_sfun_out(&in, &z.o, badm ? &bm : &ok, badm ? &ok : &bf); } catch (std::exception const &) { threw = true; }
        if (!threw) M.fail("accepted", badm ? "method " + mon::num(bm) : "selector " + mon::num(bf));
        Guarded y; poison(y, 5);
        enve_sfun_out(&in, &y.o, &method, &flat);
        if (o.o.InMesh != y.o.InMesh || !compare_bus(y.o, *sh).empty()) M.fail("after-refusal", "the same step gives another result: " + compare_bus(y.o, *sh));
        M.seen("refused step");
      }
    }
    enve_sfun_end();
    if (r.p(.2)) { enve_sfun_end(); M.seen("ended twice"); }
  }
  M.sample(M.describe);
}
// a journey by small steps with one output bus; judged at once or after it
static void journeys(Rng &r) {
  Wheel w = wheel(r, false);
  Scene s = mesh_scene(r, -1, false);
  while (s.T.empty()) s = mesh_scene(r, -1, false);
  if (s.T.size() > 150) s.T.resize(150);
  w.Rx = s.w.Rx;
  bool rdf = r.p(.5), later = r.p(.5);
  std::string path = write_mesh(s.T, rdf, "j");
  double h = s.P.t.z - w.Rx * r.u(.7, 1.1), mu = friction(r), method = r.i(0, 1), flat = r.p(.15) ? 1 : 0;
  setenv("ENVE_GROUND_PATH", path.c_str(), 1);
  std::vector<Pose> way = journey(r, s.P, w.Rx, r.p(.1) ? r.i(100, 400) : r.i(8, 40));
  size_t at = 0;
  M.describe = [&] { return str(w) + " flat " + mon::num(h) + " " + mon::num(mu) + " ground " + str(s.T, 2) + " step " + std::to_string(at) + " at " + str(way[at]); };
  init(par(w, h, mu));
  enve::ground::mesh g;
  if (rdf) g.load(path); else g.load(path, 1.0);
  enve::ground::flat f(mu, acme::point(0, 0, h), acme::vec3(0, 0, 1));
  struct Step { size_t at; double method, flat; EnveOutputBus o; };
  auto judge = [&](Step const &q) {
    at = q.at;
    auto sh = make_shell(w);
    std::string name = q.method == 0 ? "geometric" : "sampling";
    bool contact = false;
    if (q.flat == 0) contact = sh->setup(g, to_affine(way[at]), name);
    bool inmesh = q.flat == 1 || contact;
    if (!contact) sh->setup(f, to_affine(way[at]), name);
    M.eval(mon::hash_bytes(&q.o, sizeof q.o), true);
    if (q.o.InMesh != (inmesh ? 1.0 : 0.0)) M.fail("in-mesh", mon::num(q.o.InMesh) + " expected " + std::to_string(inmesh));
    std::string d = compare_bus(q.o, *sh);
    if (!d.empty()) M.fail("bus", d);
  };
  std::vector<std::unique_ptr<Step>> done;
  Guarded o; poison(o, 77);
  for (size_t k = 0; k < way.size(); ++k) {
    at = k;
    if (r.p(.04)) method = 1 - method;
    if (r.p(.04)) flat = 1 - flat;
    EnveInputBus in = bus(way[k]);
    enve_sfun_out(&in, &o.o, &method, &flat);
    if (r.p(way.size() > 100 ? .1 : .4) || k + 1 == way.size()) {
      std::unique_ptr<Step> q(new Step{k, method, flat, o.o});
      if (later) done.push_back(std::move(q)); else judge(*q);
    }
  }
  for (auto const &q : done) judge(*q);
  at = 0;
  enve_sfun_end();
  M.seen("journey steps", long(way.size()));
}
// what cannot be initialised is refused, and a proper start follows
static void refuse(Rng &r) {
  Wheel w = wheel(r, false);
  std::vector<Tri> T{tri(V3(-100, -100, 0), V3(100, -100, 0), V3(0, 100, 0), 1)};
  std::string good = write_mesh(T, r.p(.5), "g");
  int how = r.i(0, 6);
  Par p = par(w, 0, 1);
  std::string what;
  if (how == 0) { unsetenv("ENVE_GROUND_PATH"); what = "no ENVE_GROUND_PATH"; }
  else if (how == 1) { std::string q = r.pick({"", "a", "abc"}); setenv("ENVE_GROUND_PATH", q.c_str(), 1); what = "short path"; }
  else if (how == 2) { setenv("ENVE_GROUND_PATH", (M.scratch + "/none.rdf").c_str(), 1); what = "missing file"; }
  else if (how == 3) { setenv("ENVE_GROUND_PATH", (M.scratch + "/g.txt").c_str(), 1); std::ofstream(M.scratch + "/g.txt") << "x"; what = "other extension"; }
  else if (how == 4) { setenv("ENVE_GROUND_PATH", good.c_str(), 1); p.n = 0; what = "no ribs"; }
  else if (how == 5) { setenv("ENVE_GROUND_PATH", good.c_str(), 1); p.Rx = -p.Rx; what = "negative radius"; }
  else { setenv("ENVE_GROUND_PATH", good.c_str(), 1); p.mu = r.pick({-.5, std::nan("")}); what = "friction is not a friction"; }
  M.describe = [&] { return what; };
  bool threw = false;
  auto start = [&] { threw = false; try { init(p); } catch (std::exception const &) { threw = true; } };
  start();
  if (ALLOC_COUNTED) {   // the first one also warms up
    std::cout.flush();
    long base = alloc::live();
    for (int k = 0; k < 2 && threw; ++k) start();
    if (threw && alloc::live() != base) M.fail("refused-leak", std::to_string(alloc::live() - base) + " allocations are kept by two refused starts: " + what);
  }
  M.eval(mon::hash_str(what) ^ mon::hash_bytes(&p, sizeof p), true);
  if (!threw) M.fail("init-accepted", what);
  setenv("ENVE_GROUND_PATH", good.c_str(), 1);
  init(par(w, 0, 1));
  EnveInputBus in = bus(Pose()); in.HubAffine[14] = w.Rx * .9;
  Guarded o; poison(o, 9); double z = 0;
  enve_sfun_out(&in, &o.o, &z, &z);
  auto sh = make_shell(w);
  Pose P; P.t = V3(0, 0, in.HubAffine[14]);
  enve::ground::mesh g(make_tris(T));
  bool c = sh->setup(g, to_affine(P), "geometric");
  std::string d;
  if (c) d = compare_bus(o.o, *sh);
  if (o.o.InMesh != (c ? 1.0 : 0.0) || !d.empty()) M.fail("init-after-refusal", "the step after a proper start is wrong: " + d);
  enve_sfun_end();
  M.seen("refused:" + what);
}
// starting, stepping and ending keeps no memory
static void memory(Rng &r) {
  if (!ALLOC_COUNTED) return;
  std::vector<Tri> T;
  for (int i = r.i(1, 60); i > 0; --i) { V3 c(r.u(-1, 1), r.u(-1, 1), 0); T.push_back(tri(c, c + V3(.3, 0, 0), c + V3(0, .3, .02), 1)); }
  std::string path = write_mesh(T, r.p(.5), "k");
  setenv("ENVE_GROUND_PATH", path.c_str(), 1);
  Wheel w = wheel(r, false);
  Par p = par(w, -.1, 1);
  EnveInputBus in = bus(Pose()); in.HubAffine[14] = w.Rx * .9;
  static Guarded o;
  long base = 0, after = 0;
  int n = r.i(1, 5), starts = r.p(.4) ? r.i(2, 3) : 1;
  M.describe = [&] { return str(w) + " " + std::to_string(T.size()) + " triangles, " + std::to_string(n) + " steps, " + std::to_string(starts) + " starts"; };
  std::cout.flush();
  for (int k = 0; k < 3; ++k) {   // the first time also warms up
    if (k == 1) base = alloc::live();
    for (int j = 0; j < starts; ++j) init(p);
    for (int j = 0; j < n; ++j) { double m = j % 2, f = 0; enve_sfun_out(&in, &o.o, &m, &f); }
    enve_sfun_end();
    after = alloc::live();
  }
  M.eval(mon::hash_str(M.describe()), true);
  if (after != base) M.fail("leak", std::to_string(after - base) + " allocations are kept by two cycles of start and end");
  M.seen("cycles", 3); if (starts > 1) M.seen("started again");
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  struct Null : std::streambuf { int overflow(int c) override { return c; } } null;
  std::streambuf *old = std::cout.rdbuf(&null);
  M.run("steps", 3000, 80000, [](Rng &r) { steps(r, 1); });
  M.run("cycles", 600, 16000, [](Rng &r) { steps(r, r.i(2, 5)); });
  M.run("journeys", 300, 6000, journeys);
  M.run("refuse", 600, 10000, refuse);
  M.run("memory", 300, 5000, memory);
  std::cout.rdbuf(old);
  return M.finish();
}
