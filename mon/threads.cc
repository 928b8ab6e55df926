// Several threads use the library at once: grounds are shared, wheels are not. Each result is what one thread alone gets.
#include "snap.hh"
#include <atomic>
#include <mutex>
#include <thread>
using namespace gen;
static mon::Mon M;
static const double TOL = 1e-11;

struct Gate { // all threads start together
  std::atomic<int> n{0};
  void wait(int k) { ++n; while (n.load() < k) std::this_thread::yield(); }
};
static std::atomic<int> active{0};
struct Overlap { // how many calls of the library are running at once
  long hist[33] = {0};
  void in() { ++hist[std::min(32, active.fetch_add(1, std::memory_order_relaxed) + 1)]; } // relaxed: orders nothing
  void out() { active.fetch_sub(1, std::memory_order_relaxed); }
};
static void pause(Rng &r) {
  if (r.p(.1)) std::this_thread::yield();
  else if (r.p(.02)) ::usleep(unsigned(r.i(0, 200)));
}
struct Task { Pose P; std::string method; int ground; Snap want; bool hit; V3 lo, hi; std::vector<int> found; };
struct Bad { std::mutex m; std::vector<std::pair<std::string, std::string>> v; void add(std::string const &k, std::string const &s) { std::lock_guard<std::mutex> g(m); if (v.size() < 10) v.emplace_back(k, s); } };

static std::vector<int> query(enve::ground::mesh const &m, V3 lo, V3 hi) {
  enve::triangleground::vecptr out;
  m.intersection(std::make_shared<acme::aabb>(to_point(lo), to_point(hi), 0), out);
  std::vector<int> v;
  for (auto &t : out) v.push_back(t->id());
  std::sort(v.begin(), v.end());
  return v;
}
static void write_rdf(std::vector<Tri> const &T, std::string const &p) {
  std::ofstream f(p); f << "[NODES]\n";
  for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 3; ++k) f << 3 * i + size_t(k) << " " << mon::num(T[i].v[k].x) << " " << mon::num(T[i].v[k].y) << " " << mon::num(T[i].v[k].z) << "\n";
  f << "[ELEMENTS]\n";
  for (size_t i = 0; i < T.size(); ++i) f << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << mon::num(T[i].mu) << "\n";
}
static void write_obj(std::vector<Tri> const &T, std::string const &p) {
  std::ofstream f(p);
  for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 3; ++k) f << "v " << mon::num(T[i].v[k].x) << " " << mon::num(T[i].v[k].y) << " " << mon::num(T[i].v[k].z) << "\n";
  for (size_t i = 0; i < T.size(); ++i) f << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n";
}

// shared grounds, own wheels
static void shared(Rng &r, int threads, int per) {
  int ng = r.i(1, 3);
  Wheel w0 = wheel(r, false);
  V3 here = place(r, w0.Rx);
  std::vector<std::unique_ptr<enve::ground::mesh>> gs; std::vector<std::vector<Tri>> Ts;
  for (int k = 0; k < ng; ++k) {
    std::vector<Tri> T = mesh(r, w0.Rx, r.i(0, KINDS - 1));
    Pose P; P.R = ref::rotz(r.u(-3, 3)); P.t = here; transform(T, P); finish(r, T);
    if (T.empty()) return;
    gs.emplace_back(new enve::ground::mesh(make_tris(T))); Ts.push_back(T);
  }
  enve::ground::flat f(friction(r), to_point(here), to_vec(normal_up(r, .4)));
  std::vector<std::vector<Task>> tasks((size_t(threads)));
  std::vector<Wheel> ws;
  M.describe = [&] { return std::to_string(threads) + " threads, " + str(w0) + ", grounds of " + std::to_string(Ts[0].size()); };
  for (int t = 0; t < threads; ++t) { // what one thread alone gets
    Wheel w = w0; w.n = r.pick({1, 5, 10, 20}); ws.push_back(w);
    auto s = make_shell(w);
    for (int k = 0; k < per; ++k) {
      Task q; q.P.R = rotation(r); q.P.t = here + V3(r.u(-.5, .5), r.u(-.5, .5), r.u(.1, 1.1)) * w.Rx; q.method = r.p(.6) ? "geometric" : "sampling"; q.ground = r.i(-1, ng - 1);
      q.hit = q.ground < 0 ? s->setup(f, to_affine(q.P), q.method) : s->setup(*gs[size_t(q.ground)], to_affine(q.P), q.method);
      q.want = snapshot(*s);
      q.lo = here + V3(r.u(-2, 1), r.u(-2, 1), r.u(-1, 0)) * w.Rx; q.hi = q.lo + V3(r.u(0, 2), r.u(0, 2), r.u(0, 2)) * w.Rx;
      q.found = query(*gs[size_t(std::max(0, q.ground))], q.lo, q.hi);
      M.eval(fp(q.want), q.hit);
      tasks[size_t(t)].push_back(q);
    }
  }
  Gate g; Bad bad; std::vector<Overlap> ov((size_t(threads)));
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) {
    uint64_t sd = r.next();
    th.emplace_back([&, t, sd] {
      Rng q(sd); Overlap &o = ov[size_t(t)];
      g.wait(threads);
      try {
        auto s = make_shell(ws[size_t(t)]);
        for (Task const &k : tasks[size_t(t)]) {
          pause(q);
          enve::ground::mesh const &m = *gs[size_t(std::max(0, k.ground))];
          o.in();
          bool hit = k.ground < 0 ? s->setup(f, to_affine(k.P), k.method) : s->setup(m, to_affine(k.P), k.method);
          o.out();
          Snap x = snapshot(*s);
          std::string d = differ(x, k.want, TOL);
          if (hit != k.hit || !d.empty()) bad.add("thread-contact", "thread " + std::to_string(t) + ": " + (hit != k.hit ? "another return value" : d));
          if (q.p(.3)) { o.in(); auto v = query(m, k.lo, k.hi); o.out(); if (v != k.found) bad.add("thread-query", std::to_string(v.size()) + " found, alone " + std::to_string(k.found.size())); }
          if (q.p(.03)) { o.in(); enve::ground::mesh c; c.copy(m); o.out(); if (c.size() != m.size()) bad.add("thread-copy", "size"); }
        }
      } catch (std::exception const &e) { bad.add("thread-exception", e.what()); active = 0; }
    });
  }
  for (auto &t : th) t.join();
  for (auto &b : bad.v) M.fail(b.first, b.second);
  for (auto &o : ov) for (int k = 1; k < 33; ++k) if (o.hist[k]) M.seen("calls with " + std::string(k == 1 ? "none" : k == 2 ? "one" : k == 3 ? "two" : "three or more") + " other running", o.hist[k]);
  for (size_t k = 0; k < gs.size(); ++k) { enve::ground::mesh fresh(make_tris(Ts[k])); if (!differ("", contents(*gs[k]), contents(fresh), 0).empty()) M.fail("thread-ground", "the shared ground has changed"); }
  M.seen("shared");
}
// loads, copies and ends of meshes at once, and wheels that are read by all
static void loads(Rng &r, int threads, int per) {
  std::vector<std::string> path; std::vector<std::vector<double>> want; std::vector<bool> rdf;
  Wheel w = wheel(r, false);
  for (int k = 0; k < 4; ++k) {
    std::vector<Tri> T = mesh(r, w.Rx, r.i(0, KINDS - 1)); finish(r, T);
    if (T.empty()) return;
    if (T.size() > 80) T.resize(80);
    rdf.push_back(r.p(.5)); path.push_back(M.scratch + "/t" + std::to_string(k) + (rdf.back() ? ".rdf" : ".obj"));
    if (rdf.back()) write_rdf(T, path.back()); else write_obj(T, path.back());
    enve::ground::mesh m; if (rdf.back()) m.load(path.back()); else m.load(path.back(), .7);
    want.push_back(contents(m));
  }
  auto all = make_shell(w);
  enve::ground::flat f(1, acme::point(0, 0, 0), acme::vec3(0, 0, 1));
  Pose P; P.R = rotation(r); P.t = V3(0, 0, w.Rx * .8);
  all->setup(f, to_affine(P), "geometric");
  Snap ref = snapshot(*all);
  enve::shell const &read = *all;
  M.describe = [&] { return std::to_string(threads) + " threads load " + path[0]; };
  M.eval(r.next(), true);
  Gate g; Bad bad; std::vector<Overlap> ov((size_t(threads))); std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) {
    uint64_t sd = r.next();
    th.emplace_back([&, t, sd] {
      Rng q(sd); Overlap &o = ov[size_t(t)];
      enve::ground::mesh m;
      g.wait(threads);
      try {
        for (int k = 0; k < per; ++k) {
          size_t i = size_t(q.i(0, 3));
          pause(q);
          o.in();
          if (rdf[i]) m.load(path[i]); else m.load(path[i], .7);
          o.out();
          if (!differ("", contents(m), want[i], 0).empty()) bad.add("thread-load", "not what one thread alone loads: " + differ("value", contents(m), want[i], 0));
          o.in(); Snap x = snapshot(read); o.out();
          if (!differ(x, ref, 0).empty()) bad.add("thread-read", differ(x, ref, 0));
          if (q.p(.2)) { bool threw = false; try { m.load(path[i] + "x"); } catch (std::exception const &) { threw = true; } if (!threw) bad.add("thread-refuse", "accepted"); }
        }
      } catch (std::exception const &e) { bad.add("thread-exception", e.what()); active = 0; }
    });
  }
  for (auto &t : th) t.join();
  for (auto &b : bad.v) M.fail(b.first, b.second);
  for (auto &o : ov) for (int k = 1; k < 33; ++k) if (o.hist[k]) M.seen("calls with " + std::string(k == 1 ? "none" : k == 2 ? "one" : k == 3 ? "two" : "three or more") + " other running", o.hist[k]);
  M.seen("loads");
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("shared", 300, 6000, [](Rng &r) { shared(r, r.i(2, 6), 20); });
  M.run("loads", 100, 2000, [](Rng &r) { loads(r, r.i(2, 6), 10); });
  return M.finish();
}
