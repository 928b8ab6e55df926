// What was done before does not matter: a set up gives what a fresh wheel on a fresh ground gives.
#include "snap.hh"
using namespace gen;
static mon::Mon M;

struct W { Wheel w; std::unique_ptr<enve::shell> s; Snap last; bool set = false, moved = false; Pose P; bool placed = false; };
struct G { std::vector<Tri> T; std::unique_ptr<enve::ground::mesh> m; std::vector<double> c; };
struct F { V3 o, n; double mu; bool set = false; std::unique_ptr<enve::ground::flat> f; };

static std::vector<Tri> ground(Rng &r, double R, V3 const &t) {
  int kind = r.i(0, KINDS - 1);
  std::vector<Tri> T = mesh(r, R, kind);
  if (T.size() > 120) T.resize(120);
  Pose P; P.R = ref::rotz(r.u(-3, 3)) * ref::rotx(r.u(-.2, .2)); P.t = t;
  transform(T, P);
  finish(r, T, r.p(.5));
  return T;
}
static std::string write_mesh(std::vector<Tri> const &T, bool rdf) {
  std::string p = M.scratch + (rdf ? "/h.rdf" : "/h.obj");
  std::ofstream f(p);
  if (rdf) f << "[NODES]\n";
  for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 3; ++k) {
    if (rdf) f << 3 * i + size_t(k) << " "; else f << "v ";
    f << mon::num(T[i].v[k].x) << " " << mon::num(T[i].v[k].y) << " " << mon::num(T[i].v[k].z) << "\n";
  }
  if (rdf) f << "[ELEMENTS]\n";
  for (size_t i = 0; i < T.size(); ++i) {
    if (rdf) f << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << mon::num(T[i].mu) << "\n";
    else f << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n";
  }
  return p;
}
static const double TOL = 1e-10;
// As many triangles, at other heights or with other frictions.
static std::vector<Tri> altered(Rng &r, std::vector<Tri> T) {
  int k = r.i(0, 3);
  double d = r.u(-.05, .05), mu = friction(r);
  for (Tri &t : T) {
    if (k == 0 || k == 2) for (V3 &v : t.v) v.z += d;
    if (k >= 1) t.mu = k == 3 ? friction(r) : mu;
  }
  finish(r, T, false);
  return T;
}

struct Done { Wheel w; Pose P; std::string method; bool flat, ret, set; V3 o, n; double mu; std::vector<Tri> T; Snap got; };
static void compare(Done const &d) {
  auto fresh = make_shell(d.w);
  bool rb;
  if (d.flat) {
    enve::ground::flat ff(d.mu, to_point(d.o), to_vec(d.n));
    if (d.set) ff.normal() = to_vec(d.n);
    rb = fresh->setup(ff, to_affine(d.P), d.method);
  } else {
    enve::ground::mesh gg(make_tris(d.T));
    rb = fresh->setup(gg, to_affine(d.P), d.method);
  }
  Snap x = snapshot(*fresh);
  M.eval(fp(x), d.ret || rb);
  if (d.ret != rb) M.fail("history-return", "set up returns " + std::to_string(d.ret) + ", a fresh wheel " + std::to_string(rb));
  std::string e = differ(d.got, x, TOL);
  if (!e.empty()) M.fail("history", "differs from a fresh wheel: " + e);
  M.seen(std::string("setup:") + (d.flat ? "flat:" : "mesh:") + d.method + (rb ? ":contact" : ":none"));
}

// The fresh wheels are set up at once or, so that nothing comes between the steps, after the last of them.
static void history(Rng &r, bool files) {
  bool later = r.p(.5);
  std::vector<Done> done;
  double R = .3;
  V3 here = place(r, R);
  std::vector<W> ws(size_t(r.i(1, 3)));
  std::vector<G> gs(size_t(r.i(1, 3)));
  std::vector<F> fs(2);
  std::string log;
  M.describe = [&] { return log; };
  for (W &w : ws) { w.w = wheel(r, false); w.s = make_shell(w.w); log += str(w.w) + " "; }
  for (G &g : gs) { g.T = ground(r, R, here); g.m.reset(new enve::ground::mesh(make_tris(g.T))); g.c = contents(*g.m); }
  for (F &f : fs) { f.set = false; f.n = normal_up(r, .5); f.o = here + V3(0, 0, r.u(-.3, .1)); f.mu = one_friction(r); f.f.reset(new enve::ground::flat(f.mu, to_point(f.o), to_vec(f.n))); }
  int steps = r.i(3, 24), kinds = 0;
  for (int k = 0; k < steps; ++k) {
    size_t a = size_t(r.i(0, int(ws.size()) - 1)), b = size_t(r.i(0, int(gs.size()) - 1)), c = size_t(r.i(0, 1));
    W &w = ws[a]; G &g = gs[b]; F &f = fs[c];
    int op = r.i(0, 17);
    std::string me = "\n " + std::to_string(k) + ": ";
    if (op <= 7) {            // set up
      Pose P; P.R = r.p(.2) && w.set ? ref::eye() : rotation(r);
      P.t = here + V3(r.u(-.5, .5), r.u(-.5, .5), r.u(-.1, 1.2) * w.w.Rx);
      if (r.p(.35)) { W &o = ws[r.p(.6) ? a : size_t(r.i(0, int(ws.size()) - 1))]; if (o.placed) { P = o.P; M.seen("same pose again"); } }
      w.P = P; w.placed = true;
      std::string method = r.p(.65) ? "geometric" : "sampling";
      bool flat = r.p(.35);
      log += me + "wheel " + std::to_string(a) + (flat ? " flat " + std::to_string(c) : " mesh " + std::to_string(b)) + " " + method + " " + str(P);
      bool ra;
      if (flat) {
        ra = w.s->setup(*f.f, to_affine(P), method);
        enve::ground::flat ff(f.mu, to_point(f.o), to_vec(f.n));
        if (f.set) ff.normal() = to_vec(f.n);   // the very same bits
        V3 n = to_v3(f.f->normal()) - to_v3(ff.normal());
        if ((to_v3(f.f->origin()) - f.o).norm() != 0 || f.f->friction() != f.mu || n.norm() != 0) M.fail("ground-changed", "the plane is not what it was");
      } else {
        ra = w.s->setup(*g.m, to_affine(P), method);
        if (g.m->size() != g.T.size() || !differ("", contents(*g.m), g.c, 0).empty()) M.fail("ground-changed", "the mesh is not what it was: " + differ("value", contents(*g.m), g.c, 0));
      }
      w.last = snapshot(*w.s); w.set = true; w.moved = false;
      Done d; d.w = w.w; d.P = P; d.method = method; d.flat = flat; d.ret = ra; d.got = w.last;
      if (flat) { d.o = f.o; d.n = f.n; d.mu = f.mu; d.set = f.set; } else d.T = g.T;
      if (later) done.push_back(d); else compare(d);
    } else if (op == 8) {     // a method that does not exist
      log += me + "wheel " + std::to_string(a) + " bad method";
      Pose P; P.R = rotation(r); P.t = here;
      bool threw = false;
      try { w.s->setup(*f.f, to_affine(P), r.pick({"", "Geometric", "geometric ", "samplin", "none"})); } catch (std::exception const &) { threw = true; }
      if (!threw) M.fail("bad-method", "is accepted");
      w.set = false; M.seen("bad method");
    } else if (op == 9) {
      w.w.n = r.i(1, 25); w.s->resize(size_t(w.w.n)); log += me + "wheel " + std::to_string(a) + " resize " + std::to_string(w.w.n);
      w.set = false; M.seen("resize");
    } else if (op == 10) {
      log += me + "wheel " + std::to_string(a) + " resize 0";
      try { w.s->resize(0); M.fail("resize-zero", "accepted"); } catch (std::exception const &) { }
      if (w.s->size() != size_t(w.w.n)) M.fail("resize-refused", std::to_string(w.s->size()) + " ribs after a refused resize");
      M.seen("resize refused");
    } else if (op == 11) {    // hub motions move the hub and nothing else
      int m = r.i(0, 3); log += me + "wheel " + std::to_string(a) + " moves " + std::to_string(m);
      if (m == 0) w.s->translate(acme::vec3(r.u(), r.u(), r.u())); else if (m == 1) w.s->rotate(r.u(-3, 3), acme::vec3(0, 0, 1));
      else if (m == 2) { Pose P; P.R = rotation(r); w.s->transform(to_affine(P)); } else w.s->updateBBox();
      w.moved = true; M.seen("motion");
    } else if (op == 12) {    // another content
      std::vector<Tri> T = r.p(.5) && !g.T.empty() ? altered(r, g.T) : ground(r, R, here);
      if (T.empty()) continue;
      if (T.size() == g.T.size()) M.seen("as many triangles");
      bool rdf = r.p(.5); log += me + "mesh " + std::to_string(b) + " loads " + (rdf ? "rdf" : "obj") + " of " + std::to_string(T.size());
      if (files) {
        double mu = friction(r);
        std::string p = write_mesh(T, rdf);
        if (rdf) g.m->load(p); else { g.m->load(p, mu); for (Tri &t : T) t.mu = mu; }
        g.T = T; g.c = contents(*g.m);
        enve::ground::mesh gg(make_tris(g.T));
        std::string d = differ("value", g.c, contents(gg), 1e-12);
        if (!d.empty()) M.fail("reload", "the mesh is not the one of the file: " + d);
        M.seen("load");
      } else { g.T = T; g.m.reset(); g.m.reset(new enve::ground::mesh(make_tris(T))); g.c = contents(*g.m); M.seen("new mesh"); }
    } else if (op == 13) {    // copies
      size_t e = size_t(r.i(0, int(gs.size()) - 1));
      log += me + "mesh " + std::to_string(b) + " copies " + std::to_string(e);
      g.m->copy(*gs[e].m); g.T = gs[e].T; g.c = gs[e].c; M.seen(e == b ? "copy of itself" : "copy");
    } else if (op == 14) {
      if (r.p(.5)) continue;
      log += me + "mesh " + std::to_string(b) + " clear";
      g.m->clear(); g.T.clear(); g.c.clear(); M.seen("clear");
    } else if (op == 15) {    // the plane is another
      log += me + "flat " + std::to_string(c) + " is changed";
      int what = r.i(1, 7);
      if (what & 1) { f.o = r.p(.5) ? f.o + V3(0, 0, r.u(-.1, .1)) : here + V3(0, 0, r.u(-.3, .1)); f.f->origin() = to_point(f.o); }
      if (what & 2) { f.n = normal_up(r, .5); f.f->normal() = to_vec(f.n); f.set = true; }
      if (what & 4) { f.mu = one_friction(r); f.f->friction() = f.mu; }
      M.seen("changed plane");
    } else if (op == 16) {    // a copy of an altered mesh
      if (g.T.empty()) continue;
      g.T = altered(r, g.T);
      log += me + "mesh " + std::to_string(b) + " copies one altered";
      enve::ground::mesh gg(make_tris(g.T)); g.m->copy(gg); g.c = contents(*g.m);
      M.seen("copy of an altered mesh");
    } else {                  // a refused load
      log += me + "mesh " + std::to_string(b) + " refuses";
      bool threw = false;
      try { if (r.p(.5)) g.m->load(M.scratch + "/none.rdf"); else g.m->load(M.scratch + "/none.obj", 1.0); } catch (std::exception const &) { threw = true; }
      if (!threw) M.fail("load-missing", "accepted");
      M.seen("refused load");
    }
    // the others are as they were
    for (size_t i = 0; i < ws.size(); ++i) if (ws[i].set) {
      Snap s = snapshot(*ws[i].s);
      std::string d = differ(s, ws[i].last, 0, !ws[i].moved);
      if (!d.empty()) { M.fail(i == a ? "getters-change" : "another-wheel-changed", "wheel " + std::to_string(i) + ": " + d); ws[i].last = s; }
    }
    for (size_t i = 0; i < gs.size(); ++i) if (i != b || r.p(.3)) {
      std::string d = differ("value", contents(*gs[i].m), gs[i].c, 0);
      if (!d.empty()) { M.fail("another-mesh-changed", "mesh " + std::to_string(i) + ": " + d); gs[i].c = contents(*gs[i].m); }
    }
    kinds |= 1 << op;
  }
  r.shuffle(done);
  for (Done const &d : done) compare(d);
  M.seen(later ? "compared later" : "compared at once");
  M.seen("steps", steps);
  M.sample(M.describe);
}

// A resize that is refused half way; then the wheel is resized again.
static void half_resize(Rng &r) {
  Wheel w = wheel(r, false);
  w.Ly = w.Ry * r.u(1.1, 1.9); w.n = 1;
  M.describe = [&] { return str(w); };
  std::unique_ptr<enve::shell> s = make_shell(w);
  bool threw = false;
  try { s->resize(size_t(r.i(20, 60))); } catch (std::exception const &) { threw = true; }
  if (!threw) M.fail("half-resize", "ribs past the end of the section are accepted");
  s->resize(1);
  auto fresh = make_shell(w);
  for (int k = 0; k < 3; ++k) {
    Pose P; P.R = rotation(r); P.t = V3(0, 0, w.Rx * r.u(.5, 1.1));
    enve::ground::flat f(friction(r), acme::point(0, 0, 0), to_vec(normal_up(r, .3)));
    std::string method = r.p(.5) ? "geometric" : "sampling";
    bool a = s->setup(f, to_affine(P), method), b = fresh->setup(f, to_affine(P), method);
    Snap x = snapshot(*s), y = snapshot(*fresh);
    M.eval(fp(y), true);
    std::string d = differ(x, y, TOL);
    if (a != b || !d.empty()) M.fail("half-resize-after", d);
  }
  M.seen("half resize");
}
// The same set up again and again is the same; to another place and back is the same.
static void drive(Rng &r) {
  Scene s = mesh_scene(r, -1, false);
  if (s.T.empty()) return;
  auto sh = make_shell(s.w);
  enve::ground::mesh g(make_tris(s.T));
  M.describe = [&] { return str(s); };
  std::string method = r.p(.7) ? "geometric" : "sampling";
  bool a = sh->setup(g, to_affine(s.P), method);
  Snap x = snapshot(*sh);
  M.eval(fp(x), a);
  for (int k = 0; k < 4; ++k) {
    if (r.p(.7)) { Pose Q = s.P; Q.t = Q.t + V3(r.u(-2, 2), r.u(-2, 2), r.u(-1, 1)) * s.w.Rx; if (r.p(.5)) Q.R = rotation(r); sh->setup(g, to_affine(Q), r.p(.5) ? "geometric" : "sampling"); snapshot(*sh); }
    bool b = sh->setup(g, to_affine(s.P), method);
    std::string d = differ(snapshot(*sh), x, TOL);
    if (a != b || !d.empty()) M.fail("drive", "coming back gives another contact: " + d);
  }
  M.seen("drive");
}

// A long journey of one wheel over one ground; some of the set ups are compared with those of fresh wheels, afterwards.
static void journey_of_one(Rng &r) {
  Scene s = mesh_scene(r, -1, false);
  if (s.T.empty()) return;
  if (s.T.size() > 120) s.T.resize(120);
  bool flat = r.p(.3);
  V3 n = normal_up(r, .3), o = s.P.t - V3(0, 0, s.w.Rx * r.u(.7, 1.05)); double mu = friction(r);
  enve::ground::mesh g(make_tris(s.T));
  enve::ground::flat f(mu, to_point(o), to_vec(n));
  auto sh = make_shell(s.w);
  size_t at = 0;
  std::vector<Pose> way = journey(r, s.P, s.w.Rx, r.p(.1) ? r.i(200, 700) : r.i(10, 60));
  std::string method = r.p(.7) ? "geometric" : "sampling";
  M.describe = [&] { return str(s) + (flat ? " flat " : " mesh ") + method + " step " + std::to_string(at) + " at " + str(way[at]); };
  std::vector<Done> done; std::vector<size_t> which;
  bool small = false;
  for (at = 0; at < way.size(); ++at) {
    if (r.p(.05)) method = r.p(.7) ? "geometric" : "sampling";
    if (r.p(.05)) flat = !flat;
    bool ret = flat ? sh->setup(f, to_affine(way[at]), method) : sh->setup(g, to_affine(way[at]), method);
    if (at > 0 && (way[at].t - way[at - 1].t).norm() < 1e-3 * s.w.Rx) small = true;
    if (r.p(way.size() > 100 ? .05 : .25) || at + 1 == way.size()) {
      Done d; d.w = s.w; d.P = way[at]; d.method = method; d.flat = flat; d.ret = ret; d.set = false; d.o = o; d.n = n; d.mu = mu; d.got = snapshot(*sh);
      done.push_back(d); which.push_back(at);
    }
  }
  for (size_t k = 0; k < done.size(); ++k) { at = which[k]; if (!done[k].flat) done[k].T = s.T; compare(done[k]); done[k] = Done(); }
  at = 0;
  if (small) M.seen("journey by small steps");
  M.seen("journey steps", long(way.size()));
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("history", 4000, 100000, [](Rng &r) { history(r, false); });
  M.run("history-files", 1500, 40000, [](Rng &r) { history(r, true); });
  M.run("half-resize", 500, 10000, half_resize);
  M.run("journey", 500, 15000, journey_of_one);
  M.run("drive", 2000, 60000, drive);
  return M.finish();
}
