// Faults: an allocation, a read, a write or the opening of a file fails in the midst of an operation.
#include "snap.hh"
#include "ent.hh"
#include "enve_sfun_interface.h"
#include <cerrno>
#include <functional>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace gen;
using namespace ent;
static mon::Mon M;

// ---------------------------------------------------------------- the faults
enum { ALLOC, READ, WRITE, OPEN };
static const char *WHAT[] = {"allocation", "read", "write", "opening"};
namespace fault {
static bool armed = false, fired = false, on = false;   // counting; a fault happened; it goes on
static int what = ALLOC; static long at = 0, n[4] = {0, 0, 0, 0}, live = 0;
static bool cut = false;                                 // reads and writes transfer less than asked, now and then
static bool now(int k) {
  if (!armed) return false;
  ++n[k];
  if (k != what || at <= 0) return false;
  if (n[k] == at || (on && n[k] > at)) { fired = true; return true; }
  return false;
}
}
static void *get(std::size_t s) { if (fault::now(ALLOC)) throw std::bad_alloc(); void *p = std::malloc(s ? s : 1); if (!p) throw std::bad_alloc(); ++fault::live; return p; }
static void put_(void *p) { if (p) { --fault::live; std::free(p); } }
void *operator new(std::size_t s) { return get(s); }
void *operator new[](std::size_t s) { return get(s); }
void *operator new(std::size_t s, std::nothrow_t const &) noexcept { try { return get(s); } catch (...) { return nullptr; } }
void *operator new[](std::size_t s, std::nothrow_t const &) noexcept { try { return get(s); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { put_(p); }
void operator delete[](void *p) noexcept { put_(p); }
void operator delete(void *p, std::size_t) noexcept { put_(p); }
void operator delete[](void *p, std::size_t) noexcept { put_(p); }
static std::size_t some(std::size_t n) { return fault::armed && fault::cut && n > 1 ? 1 + (n * 2654435761u >> 3) % n : n; }
extern "C" ssize_t read(int fd, void *p, size_t n) { if (fd > 2 && fault::now(READ)) { errno = EIO; return -1; } return syscall(SYS_read, fd, p, fd > 2 ? some(n) : n); }
extern "C" ssize_t write(int fd, void const *p, size_t n) { if (fd > 2 && fault::now(WRITE)) { errno = ENOSPC; return -1; } return syscall(SYS_write, fd, p, fd > 2 ? some(n) : n); }
extern "C" ssize_t writev(int fd, struct iovec const *v, int k) { if (fd > 2 && fault::now(WRITE)) { errno = ENOSPC; return -1; } return syscall(SYS_writev, fd, v, k); }
static FILE *open_(char const *path, char const *mode) {
  if (fault::now(OPEN)) { errno = EMFILE; return nullptr; }
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (std::strchr(mode, '+')) fl = (fl & ~O_WRONLY) | O_RDWR;
  int fd = ::open(path, fl, 0644); return fd < 0 ? nullptr : ::fdopen(fd, mode);
}
extern "C" FILE *fopen(char const *p, char const *m) { return open_(p, m); }
extern "C" FILE *fopen64(char const *p, char const *m) { return open_(p, m); }

struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(char const *, std::streamsize n) override { return n; } };
struct Silent { NullBuf b; std::streambuf *old; Silent() : old(std::cout.rdbuf(&b)) {} ~Silent() { std::cout.rdbuf(old); std::cout.clear(); } };   // allocates nothing

// ---------------------------------------------------------------- the operations
typedef std::vector<double> Values;
// A world: some objects, an operation on them, what must not change, what it may change, and what comes out.
struct World {
  std::function<void()> op;              // the operation
  std::function<Values()> fixed;         // everything the operation must leave alone
  std::function<Values()> target;        // what it changes or makes, once it has succeeded
  std::function<void()> use;             // anything that can be done after it failed
  bool strong = false;                   // what it was to change is as before if it fails
  std::vector<std::shared_ptr<void>> hold;
  template <class T> T &keep(std::shared_ptr<T> p) { hold.push_back(p); return *p; }
};
struct Scenario { std::string name; std::function<void(World &)> make; };

static Values values(enve::shell const &s) {
  Snap x = snapshot(s); Values v{double(s.size())};
  for (auto const *p : {&x.rib, &x.total, &x.frame, &x.pose}) v.insert(v.end(), p->begin(), p->end());
  for (size_t i = 0; i < s.size(); ++i) { v.push_back(s.ribRadius(i)); v.push_back(s.ribWidth(i)); v.push_back(s.ribAngle(i)); put(v, s.ribCenter(i)); }
  return v;
}
static acme::aabb::ptr box_of(V3 const &c, double R) { return std::make_shared<acme::aabb const>(to_point(c - V3(R, R, R)), to_point(c + V3(R, R, R)), 0, 0); }
static Values values(enve::ground::mesh const &m, V3 const &c, double R) {   // what it holds and what it finds
  Values v = contents(m); v.push_back(double(m.size()));
  for (double q : {.3, 1.0, 30.0}) {
    enve::triangleground::vecptr t; v.push_back(m.intersection(box_of(c, R * q), t));
    std::vector<double> id; for (auto const &x : t) { Values w; put(w, x->vertex(0)); put(w, x->vertex(2)); id.push_back(double(mon::hash_bytes(w.data(), w.size() * 8) >> 12)); }
    std::sort(id.begin(), id.end()); v.insert(v.end(), id.begin(), id.end()); v.push_back(double(id.size()));
  }
  return v;
}
static bool same_values(Values const &a, Values const &b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static std::string where(Values const &a, Values const &b) {
  if (a.size() != b.size()) return std::to_string(a.size()) + " and " + std::to_string(b.size()) + " values";
  for (size_t i = 0; i < a.size(); ++i) if (std::memcmp(&a[i], &b[i], 8)) return "value " + std::to_string(i) + ": " + mon::num(a[i]) + " and " + mon::num(b[i]);
  return "nothing";
}
static std::string write_mesh(std::vector<Tri> const &T, bool rdf, std::string const &name) {
  std::string p = M.scratch + "/" + name + (rdf ? ".rdf" : ".obj");
  std::ofstream f(p);
  if (rdf) f << "[NODES]\n";
  for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 3; ++k) {
    if (rdf) f << 3 * i + size_t(k) << " "; else f << "v ";
    f << mon::num(T[i].v[k].x) << " " << mon::num(T[i].v[k].y) << " " << mon::num(T[i].v[k].z) << "\n";
  }
  if (rdf) f << "[ELEMENTS]\n";
  for (size_t i = 0; i < T.size(); ++i) {
    if (rdf) f << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << mon::num(T[i].mu) << "\n";
    else f << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n";
  }
  return p;
}
static std::string slurp(std::string const &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

// One operation, made to fail in several places.
static void drive(Rng &r, Scenario const &S, std::vector<int> const &kinds) {
  // without a fault
  Values good; long n[4];
  bool refused = false;
  {
    World w; S.make(w);
    Silent q;
    std::memset(fault::n, 0, sizeof n); fault::at = 0; fault::fired = false; fault::cut = false; fault::armed = true;
    try { w.op(); } catch (std::exception const &) { refused = true; }
    fault::armed = false; std::memcpy(n, fault::n, sizeof n);
    if (refused) { M.seen("refused without a fault"); return; }
    good = w.target();
  }
  for (int kind : kinds) {
    if (kind == READ || kind == WRITE) {            // transfers that are shorter than asked are no fault
      Values got; bool threw = false;
      { World w; S.make(w); Silent q; fault::at = 0; fault::cut = true; fault::armed = true; try { w.op(); } catch (std::exception const &) { threw = true; } fault::armed = false; fault::cut = false; if (!threw) got = w.target(); }
      if (threw || !same_values(got, good)) M.fail("short-transfer", S.name + ": " + (threw ? "refused" : where(good, got)));
      M.seen("short transfers");
    }
    if (!n[kind]) continue;
    std::vector<long> at{1, n[kind]};
    for (int k = 0; k < 8; ++k) at.push_back(r.i(1, int(std::min(n[kind], 1000000000L))));
    if (n[kind] > 3) { at.push_back(2); at.push_back(n[kind] - 1); at.push_back(n[kind] - 2); }
    std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
    for (long k : at) {
      bool on = r.p(.3);
      std::string bad; const char *why = "";
      long before = fault::live, after;
      bool threw = false, fired = false, used = false;
      {
        World w; S.make(w);
        Values f0 = w.fixed ? w.fixed() : Values(), t0 = w.strong ? w.target() : Values();
        Silent q;
        std::memset(fault::n, 0, sizeof n); fault::what = kind; fault::at = k; fault::on = on; fault::fired = false; fault::armed = true;
        try { w.op(); }
        catch (std::exception const &) { threw = true; }
        fault::armed = false; fired = fault::fired;
        Values f1 = w.fixed ? w.fixed() : Values();
        if (!same_values(f0, f1)) { bad = where(f0, f1); why = "others-changed"; }
        else if (!threw) { Values t = w.target(); if (!same_values(t, good)) { bad = where(good, t); why = "part-of-the-result"; } }
        else {
          if (w.strong) { Values t = w.target(); if (!same_values(t0, t)) { bad = where(t0, t); why = "failed-but-changed"; } }
          if (bad.empty()) {
            if (w.use && r.p(.5)) { used = true; try { w.use(); } catch (std::exception const &) {} }
            bool again = true;
            try { w.op(); } catch (std::exception const &e) { again = false; bad = e.what(); why = "again-refused"; }
            if (again) { Values t = w.target(); if (!same_values(t, good)) { bad = where(good, t); why = "again-other-result"; } }
            f1 = w.fixed ? w.fixed() : Values();
            if (bad.empty() && !same_values(f0, f1)) { bad = where(f0, f1); why = "others-changed"; }
          }
        }
        Values().swap(f0); Values().swap(t0);
      }
      after = fault::live - (bad.capacity() > 15 ? 1 : 0);
      std::string place = S.name + ", " + WHAT[kind] + " " + std::to_string(k) + " of " + std::to_string(n[kind]) + (on ? " and all after it fail" : " fails");
      if (!bad.empty()) M.fail(why, place + ": " + bad);
      if (after != before) M.fail("fault-leak", place + ": " + std::to_string(after - before) + " allocations are kept");
      if (used) M.seen("used after a fault");
      if (!fired) { M.seen("fault did not happen"); continue; }
      M.seen(std::string(threw ? "reported:" : "survived:") + WHAT[kind]); M.seen("after a fault:" + S.name);
      M.eval(mon::hash_str(place) ^ mon::hash_bytes(good.data(), good.size() * 8), true);
    }
  }
}

// ---------------------------------------------------------------- grounds
static void grounds(Rng &r) {
  Scene s = mesh_scene(r, -1, false), o = mesh_scene(r, r.i(0, 3), false);
  if (s.T.size() > 120) s.T.resize(120);
  if (o.T.size() > 60) o.T.resize(60);
  if (s.T.empty() || o.T.empty()) return;
  auto tg = make_tris(s.T), og = make_tris(o.T);
  bool rdf = r.p(.5), long_lines = r.p(.3);
  std::string path = write_mesh(s.T, rdf, "ground");
  if (long_lines) { std::ofstream f(path, std::ios::app); f << "# " << std::string(size_t(r.i(1, 30000)), 'x') << "\n"; }
  M.describe = [&] { return str(s); };
  V3 c = s.P.t; double R = s.w.Rx;
  typedef enve::ground::mesh Mesh;
  auto existing = [&](World &w) -> Mesh & { return w.keep(r.p(.2) ? std::make_shared<Mesh>() : std::make_shared<Mesh>(og)); };
  uint64_t key = r.next();
  auto with = [&](std::function<void(World &, Rng &)> f) { return [=](World &w) { Rng q(key); f(w, q); }; };
  (void)existing;
  auto old = [og](World &w, Rng &q) -> Mesh & { return w.keep(q.p(.2) ? std::make_shared<Mesh>() : std::make_shared<Mesh>(og)); };
  int what = r.i(0, 6);
  switch (what) {
  case 0: drive(r, {"making a mesh of triangles", with([=](World &w, Rng &) {
      auto &m = w.keep(std::make_shared<std::unique_ptr<Mesh>>());
      w.op = [&m, tg] { m.reset(); m.reset(new Mesh(tg)); }; w.target = [&m, c, R] { return m ? values(*m, c, R) : Values(); }; w.strong = true; })}, {ALLOC}); break;
  case 1: drive(r, {"making a mesh of a file", with([=](World &w, Rng &) {
      auto &m = w.keep(std::make_shared<std::unique_ptr<Mesh>>());
      w.op = [&m, path, rdf] { m.reset(); if (rdf) m.reset(new Mesh(path)); else m.reset(new Mesh(path, .7)); }; w.target = [&m, c, R] { return m ? values(*m, c, R) : Values(); }; w.strong = true; })}, {ALLOC, READ, OPEN}); break;
  case 2: case 3: drive(r, {"loading a file into a mesh", with([=](World &w, Rng &q) {
      Mesh &m = old(w, q);
      w.op = [&m, path, rdf] { if (!(rdf ? m.load(path) : m.load(path, .7))) throw std::runtime_error("false"); }; w.target = [&m, c, R] { return values(m, c, R); }; w.strong = true; w.use = [&m] { m.clear(); }; })}, {ALLOC, READ, OPEN}); break;
  case 4: drive(r, {"copying a mesh", with([=](World &w, Rng &q) {
      Mesh &m = old(w, q); Mesh &a = w.keep(std::make_shared<Mesh>(tg));
      w.op = [&m, &a] { m.copy(a); }; w.target = [&m, c, R] { return values(m, c, R); }; w.fixed = [&a, c, R] { return values(a, c, R); }; w.strong = true; w.use = [&m] { m.clear(); }; })}, {ALLOC}); break;
  case 5: drive(r, {"asking a mesh", with([=](World &w, Rng &q) {
      Mesh &m = w.keep(std::make_shared<Mesh>(tg)); auto &out = w.keep(std::make_shared<enve::triangleground::vecptr>());
      if (q.p(.5)) out = og;
      auto box = box_of(c, R * q.pick({.5, 1.0, 100.0}));
      w.op = [&m, &out, box] { m.intersection(box, out); }; w.target = [&out] { Values v; for (auto const &t : out) put(v, t->vertex(0)); return v; }; w.fixed = [&m, c, R] { return values(m, c, R); }; })}, {ALLOC}); break;
  default: drive(r, {"printing a mesh to a file", with([=](World &w, Rng &) {
      Mesh &m = w.keep(std::make_shared<Mesh>(tg)); std::string p = M.scratch + "/printed.txt";
      w.op = [&m, p] { m.print(p); };
      w.target = [p] { std::string t = slurp(p); Values v; for (size_t i = 0; i < t.size(); i += 6) { double d = 0; std::memcpy(&d, t.data() + i, std::min<size_t>(6, t.size() - i)); v.push_back(d); } return v; };
      w.fixed = [&m, c, R] { return values(m, c, R); }; })}, {WRITE, OPEN, ALLOC});
  }
}
// ---------------------------------------------------------------- wheels
static void wheels(Rng &r) {
  Scene s = mesh_scene(r, -1, false); if (s.T.size() > 120) s.T.resize(120);
  s.w.n = std::min(s.w.n, 30);
  V3 nn = normal_up(r, .5);
  auto m = std::make_shared<enve::ground::mesh>(make_tris(s.T));
  auto f = std::make_shared<enve::ground::flat>(1, to_point(s.P.t - nn * (s.w.Rx * .9)), to_vec(nn));
  M.describe = [&] { return str(s); };
  Wheel wh = s.w; Pose P = s.P; V3 c = P.t; double R = wh.Rx;
  Pose P0 = P; P0.t = P0.t + V3(r.u(-.1, .1), r.u(-.1, .1), r.u(0, .3)) * R; bool lived = r.p(.7);
  acme::affine A = to_affine(P), A0 = to_affine(P0);
  std::string method = r.p(.5) ? "geometric" : "sampling";
  int before = r.i(0, 2), n2 = r.p(.5) ? r.i(1, 30) : r.i(190, 260), len = r.i(0, 40);
  auto start = [=](World &w) -> enve::shell & { std::shared_ptr<enve::shell> sh(make_shell(wh).release()); if (lived) { if (before == 0) sh->setup(*f, A0, "geometric"); else sh->setup(*m, A0, before == 1 ? "geometric" : "sampling"); } return w.keep(sh); };
  auto ground = [=] { Values v = values(*m, c, R); put3(v, f->normal()); put(v, f->origin()); v.push_back(f->friction()); return v; };
  auto use = [=](enve::shell &sh) { return [&sh, f, A0] { sh.setup(*f, A0, "geometric"); values(sh); }; };
  switch (r.i(0, 6)) {
  case 0: drive(r, {"making a wheel", [=](World &w) {
      auto &p = w.keep(std::make_shared<std::unique_ptr<enve::shell>>());
      w.op = [&p, wh] { p.reset(); p = make_shell(wh); }; w.target = [&p] { return p ? values(*p) : Values(); }; w.strong = true; }}, {ALLOC}); break;
  case 1: drive(r, {"resizing a wheel", [=](World &w) {
      enve::shell &sh = start(w);
      w.op = [&sh, n2, m, A, method] { sh.resize(size_t(n2)); sh.setup(*m, A, method); }; w.target = [&sh] { return values(sh); }; w.fixed = ground;
      w.use = [=, &sh] { sh.setup(*m, A0, "geometric"); sh.setup(*m, A, "sampling"); sh.setup(*f, A, "geometric"); values(sh); }; }}, {ALLOC}); break;
  case 2: case 3: drive(r, {"setting up on a mesh, " + method, [=](World &w) {
      enve::shell &sh = start(w);
      w.op = [&sh, m, A, method] { sh.setup(*m, A, method); }; w.target = [&sh] { return values(sh); }; w.fixed = ground; w.use = use(sh); }}, {ALLOC}); break;
  case 4: drive(r, {"setting up on a plane, " + method, [=](World &w) {
      enve::shell &sh = start(w);
      w.op = [&sh, f, A, method] { sh.setup(*f, A, method); }; w.target = [&sh] { return values(sh); }; w.fixed = ground; w.use = use(sh); }}, {ALLOC}); break;
  case 5: drive(r, {"reading a wheel", [=](World &w) {
      struct Out { std::vector<acme::affine> a; std::vector<acme::point> p; std::vector<acme::vec3> n, q; std::vector<double> d; };
      enve::shell &sh = start(w); Out &o = w.keep(std::make_shared<Out>());
      o.a.resize(size_t(len)); o.p.resize(size_t(len)); o.d.resize(size_t(len));
      w.op = [&sh, &o] { sh.contactPointAffine(o.a); sh.contactPoint(o.p); sh.contactNormal(o.n); sh.relativeAngles(o.q); sh.contactDepth(o.d); sh.contactArea(o.d); acme::affine a; sh.contactPointAffine(a); };
      w.target = [&o] { Values v; for (auto const &x : o.a) put4(v, x); for (auto const &x : o.p) put(v, x); for (auto const &x : o.n) put3(v, x); for (auto const &x : o.q) put3(v, x); v.insert(v.end(), o.d.begin(), o.d.end()); return v; };
      w.fixed = [=, &sh] { Values v = values(sh), g = ground(); v.insert(v.end(), g.begin(), g.end()); return v; }; }}, {ALLOC}); break;
  default: {
    bool rdf = r.p(.5); std::string path = write_mesh(s.T, rdf, "sfun"); ::setenv("ENVE_GROUND_PATH", path.c_str(), 1);
    double h = f->origin().z(), mu = .8;
    drive(r, {"starting the S-function", [=](World &w) {
      struct Pars { double v[8]; };
      Pars &p = w.keep(std::make_shared<Pars>()); double const v[8] = {double(wh.n), wh.Rx, wh.Mx, wh.Ry, wh.My, wh.Ly, h, mu}; std::memcpy(p.v, v, sizeof v);
      w.hold.push_back(std::shared_ptr<void>(&p, [](void *) { enve_sfun_end(); }));
      w.op = [&p] { double *v = p.v; enve_sfun_init(v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7); };
      w.target = [P, A] { Values v; EnveInputBus in; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) in.HubAffine[i + 4 * j] = A.matrix()(i, j);
        for (double fl : {0., 1.}) for (double me : {0., 1.}) { std::unique_ptr<EnveOutputBus> o(new EnveOutputBus()); enve_sfun_out(&in, o.get(), &me, &fl); double const *d = reinterpret_cast<double const *>(o.get()); v.insert(v.end(), d, d + sizeof(EnveOutputBus) / 8); }
        return v; }; }}, {ALLOC, READ, OPEN}); }
  }
}
// ---------------------------------------------------------------- acme
static void geometry(Rng &r) {
  static const int SUP[] = {POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL};
  if (r.p(.5)) { // intersections of two entities
    V3 p(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
    Ent a = through(r, SUP[r.i(0, 7)], p, dirvec(r)), b = through(r, SUP[r.i(0, 7)], r.p(.8) ? p : p + dirvec(r) * r.u(0, 3), dirvec(r));
    M.describe = [&] { return a.str() + " and " + b.str(); };
    drive(r, {"intersecting entities", [=](World &w) {
      std::shared_ptr<acme::entity> x(make(a).release()), y(make(b).release()); w.hold.push_back(x); w.hold.push_back(y);
      auto &o = w.keep(std::make_shared<std::unique_ptr<acme::entity>>());
      acme::entity *px = x.get(), *py = y.get();
      w.op = [&o, px, py] { o.reset(); o.reset(acme::Intersection(px, py, 1e-8)); };
      auto text = [](acme::entity const &e) { std::string t = read(e).str(); return Values{double(mon::hash_str(t) >> 12), double(t.size())}; };
      w.target = [&o, text] { return o ? text(*o) : Values(); };
      w.fixed = [=] { Values v = text(*px), u = text(*py); v.insert(v.end(), u.begin(), u.end()); return v; }; }}, {ALLOC});
    return;
  }
  auto few = [&](int n) { std::vector<Ent> e; static const int CL[] = {POINT, SEGMENT, TRIANGLE, DISK, BALL}; for (int i = 0; i < n; ++i) e.push_back(through(r, CL[r.i(0, 4)], V3(r.u(-4, 4), r.u(-4, 4), r.u(-4, 4)), dirvec(r))); return e; };
  std::vector<Ent> a = few(r.i(1, 30)), b = few(r.i(1, 12)), o = few(r.i(0, 10));
  M.describe = [&] { std::string s; for (auto const &x : a) s += x.str() + " "; return s; };
  int what = r.i(0, 2);
  auto fill = [](acme::collection &c, std::vector<Ent> const &e) { for (auto const &x : e) c.push_back(acme::entity::ptr(make(x).release())); };
  auto found = [](acme::AABBtree const &t) { Values v; acme::AABBtree q; acme::aabb::vecptr bx{std::make_shared<acme::aabb const>(acme::point(-2, -2, -2), acme::point(2, 2, 2), 0, 0)}; q.build(bx); acme::aabb::vecpairptr l; t.intersection(q, l); for (auto const &p : l) { put(v, p.first->min()); v.push_back(p.first->id()); } v.push_back(t.isEmpty()); return v; };
  drive(r, {what == 0 ? "building the tree of a collection" : what == 1 ? "looking up a collection" : "intersecting a collection", [=](World &w) {
    auto &c = w.keep(std::make_shared<acme::collection>()), &d = w.keep(std::make_shared<acme::collection>()), &out = w.keep(std::make_shared<acme::collection>());
    fill(c, what == 0 ? o : a); fill(d, b); c.buildAABBtree(); d.buildAABBtree(); if (what == 0) { c.clear(); fill(c, a); }
    auto items = [](acme::collection &k) { Values v{double(k.size())}; for (int i = 0; i < int(k.size()); ++i) v.push_back(double(mon::hash_str(read(*k[i]).str()) >> 12)); return v; };
    if (what == 0) { w.op = [&c] { c.buildAABBtree(); }; w.target = [&c, found] { return found(*c.ptrAABBtree()); }; w.fixed = [&c, items] { return items(c); }; }
    else {
      if (what == 1) w.op = [&c, &d, &out] { c.intersection(d, out); };
      else w.op = [&c, &out] { out.clear(); try { c.intersection(out, 1e-8); } catch (std::bad_alloc const &) { throw; } catch (std::exception const &) { out.clear(); } };
      w.target = [&out, items] { return items(out); };
      w.fixed = [&c, &d, items, found] { Values v = items(c), u = items(d), t = found(*c.ptrAABBtree()); v.insert(v.end(), u.begin(), u.end()); v.insert(v.end(), t.begin(), t.end()); return v; };
    } }}, {ALLOC});
}
int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("grounds", 400, 4000, grounds);
  M.run("wheels", 400, 4000, wheels);
  M.run("geometry", 400, 4000, geometry);
  return M.finish();
}
