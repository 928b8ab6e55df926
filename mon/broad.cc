// The broad phase loses nothing: box queries, the box of the wheel, the candidate lists.
#include "gen.hh"
#include <set>
#include <dirent.h>
using namespace gen;
static mon::Mon M;

struct Box { V3 lo, hi; };
static Box box_of(Tri const &t) {
  Box b;
  b.lo = V3(std::min(t.v[0].x, std::min(t.v[1].x, t.v[2].x)), std::min(t.v[0].y, std::min(t.v[1].y, t.v[2].y)), std::min(t.v[0].z, std::min(t.v[1].z, t.v[2].z)));
  b.hi = V3(std::max(t.v[0].x, std::max(t.v[1].x, t.v[2].x)), std::max(t.v[0].y, std::max(t.v[1].y, t.v[2].y)), std::max(t.v[0].z, std::max(t.v[1].z, t.v[2].z)));
  return b;
}
static bool overlap(Box const &a, Box const &b) {
  return a.lo.x <= b.hi.x && b.lo.x <= a.hi.x && a.lo.y <= b.hi.y && b.lo.y <= a.hi.y && a.lo.z <= b.hi.z && b.lo.z <= a.hi.z;
}
static std::string str(Box const &b) { return "box" + str(b.lo) + str(b.hi); }

static Box query(Rng &r, std::vector<Box> const &B, Box const &all) {
  Box q; V3 d = all.hi - all.lo;
  double ext = std::max(d.x, std::max(d.y, d.z)) + 1e-3;
  auto pt = [&] { return all.lo + V3(d.x * r.u(-.2, 1.2), d.y * r.u(-.2, 1.2), d.z * r.u(-.2, 1.2)); };
  switch (r.i(0, 8)) {
  case 0: { V3 h = V3(r.u(), r.u(), r.u()) * (ext * r.logu(1e-3, 1)), c = pt(); q.lo = c - h; q.hi = c + h; break; }
  case 1: q.lo = all.lo - V3(1, 1, 1); q.hi = all.hi + V3(1, 1, 1); break;                 // everything
  case 2: { q.lo = pt(); q.hi = q.lo; break; }                                              // a point
  case 3: { Box const &b = B[size_t(r.i(0, int(B.size()) - 1))]; q = b; break; }            // one of the boxes
  case 4: { Box const &b = B[size_t(r.i(0, int(B.size()) - 1))]; q.lo = b.hi; q.hi = b.hi + V3(r.u(), r.u(), r.u()) * ext; break; }   // touches a corner
  case 5: { Box const &b = B[size_t(r.i(0, int(B.size()) - 1))]; q.hi = b.lo; q.lo = b.lo - V3(r.u(), r.u(), r.u()) * ext; break; }
  case 6: { V3 c = pt(); q.lo = V3(all.lo.x - 1, all.lo.y - 1, c.z); q.hi = V3(all.hi.x + 1, all.hi.y + 1, c.z + r.pick({0.0, 0.1}) * ext); break; } // a slab
  case 7: { V3 c = pt(); q.lo = V3(c.x, c.y, all.lo.z - 1); q.hi = V3(c.x, c.y, all.hi.z + 1); break; } // a vertical
  default: { q.lo = all.hi + V3(r.u(), r.u(), r.u()) * ext * r.pick({1e-9, 1.0, 50.0}) + V3(1e-6, 1e-6, 1e-6); q.hi = q.lo + V3(1, 1, 1); break; }  // outside
  }
  return q;
}

static void check_query(enve::ground::mesh const &mesh, enve::triangleground::vecptr const &tg, std::vector<Box> const &B, Box const &q, Rng &r) {
  auto box = std::make_shared<acme::aabb>(to_point(q.lo), to_point(q.hi), r.i(-5, 5000), r.i(0, 3));
  enve::triangleground::vecptr got;
  if (r.p(0.3)) got.push_back(tg[0]);       // whatever was in the output is dropped
  bool ret = mesh.intersection(box, got);
  std::multiset<void const *> have, want;
  for (auto const &p : got) have.insert(p.get());
  for (size_t i = 0; i < tg.size(); ++i) if (overlap(q, B[i])) want.insert(tg[i].get());
  M.eval(mon::hash_bytes(&q, sizeof q), !want.empty());
  M.seen(want.empty() ? "query:empty" : want.size() == tg.size() ? "query:all" : "query:some");
  M.seen("query:triangles", long(want.size()));
  M.peak("triangles in a mesh", double(tg.size()));
  if (have != want) {
    long missing = 0, extra = 0, dup = 0;
    for (void const *p : want) if (!have.count(p)) ++missing;
    std::set<void const *> seen;
    for (void const *p : have) { if (!want.count(p)) ++extra; else if (!seen.insert(p).second) ++dup; }
    M.fail(missing ? "query-missing" : extra ? "query-extra" : "query-duplicate",
           str(q) + ": " + std::to_string(want.size()) + " triangles overlap, " + std::to_string(have.size()) + " reported, missing " + std::to_string(missing) + " extra " + std::to_string(extra) + " repeated " + std::to_string(dup));
  }
  if (ret != !want.empty()) M.fail("query-return", str(q) + " returned " + std::to_string(ret) + " with " + std::to_string(want.size()) + " triangles");
}

static void query_case(Rng &r, bool big) {
  std::vector<Tri> T;
  int shape = r.i(0, 9);
  double R = r.logu(0.1, 10);
  if (big) {
    int n = r.i(20, 45), m = r.i(20, 45); double sx = R * r.logu(.05, 1), sy = R * r.logu(.05, 1), amp = r.pick({0.0, 0.1, 3.0});
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
      V3 a(i * sx, j * sy, r.u(-amp, amp)), b((i + 1) * sx, j * sy, r.u(-amp, amp)), c(i * sx, (j + 1) * sy, r.u(-amp, amp)), d((i + 1) * sx, (j + 1) * sy, r.u(-amp, amp));
      T.push_back(tri(a, b, d, 1)); T.push_back(tri(a, d, c, 1));
    }
    r.shuffle(T);
  } else if (shape < 3) { // random soup, also stretched along one axis
    int n = r.i(1, 120);
    V3 e = shape == 0 ? V3(1, 1, 1) : V3(r.logu(1e-2, 30), r.logu(1e-2, 30), r.logu(1e-2, 30));
    for (int k = 0; k < n; ++k) {
      V3 c(e.x * r.u(-1, 1), e.y * r.u(-1, 1), e.z * r.u(-1, 1)); double l = r.logu(1e-3, 0.5);
      T.push_back(tri(c + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), c + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), c + V3(r.u(-l, l), r.u(-l, l), r.u(-l, l)), 1));
    }
  } else if (shape == 3) { // one triangle many times, and a few more
    Tri t = tri(V3(r.u(), r.u(), r.u()), V3(r.u(), r.u(), r.u()), V3(r.u(), r.u(), r.u()), 1);
    for (int k = r.i(1, 40); k > 0; --k) T.push_back(t);
    for (int k = r.i(0, 3); k > 0; --k) T.push_back(tri(V3(r.u(), r.u(), r.u()) * 2, V3(r.u(), r.u(), r.u()), V3(r.u(), r.u(), r.u()), 1));
  } else if (shape == 4) { // a wall: tall and thin
    int n = r.i(1, 40); bool alongx = r.p(0.5);
    for (int k = 0; k < n; ++k) {
      V3 a(0, 0, k), b(alongx ? 1 : 0, alongx ? 0 : 1, k), c(0, 0, k + 1);
      T.push_back(tri(a, b, c, 1));
    }
  } else T = mesh(r, R, r.i(0, KINDS - 1));
  V3 off = place(r, 1);
  for (Tri &t : T) for (V3 &v : t.v) v = v + off;
  finish(r, T, r.p(0.5));
  if (T.empty()) return;
  std::vector<int> ids;
  int mode = r.i(0, 3);
  for (size_t i = 0; i < T.size(); ++i) ids.push_back(mode == 0 ? int(i) : mode == 1 ? 7 : mode == 2 ? r.i(-3, 100000) : int(T.size() - i));
  auto tg = make_tris(T, &ids);
  Pose L; auto pm = lived_mesh(r, tg, L, R); enve::ground::mesh const &mesh = *pm;
  std::vector<Box> B; Box all = box_of(T[0]);
  for (Tri const &t : T) {
    Box b = box_of(t); B.push_back(b);
    all.lo = V3(std::min(all.lo.x, b.lo.x), std::min(all.lo.y, b.lo.y), std::min(all.lo.z, b.lo.z));
    all.hi = V3(std::max(all.hi.x, b.hi.x), std::max(all.hi.y, b.hi.y), std::max(all.hi.z, b.hi.z));
  }
  M.describe = [&] { return "ids mode " + std::to_string(mode) + " " + str(T, 10); };
  for (int k = 0; k < (big ? 12 : 8); ++k) check_query(mesh, tg, B, query(r, B, all), r);
  M.sample(M.describe);
}

// the box of the wheel contains every rib
static void bbox_case(Rng &r) {
  Wheel w = wheel(r);
  Pose P; P.R = rotation(r); P.t = place(r, w.Rx);
  M.describe = [&] { return str(w) + " pose " + str(P); };
  auto sh = make_shell(w);
  int how = r.i(0, 2);
  if (how == 0) { enve::ground::flat f(1.0, to_point(V3(0, 0, -1000)), to_vec(V3(0, 0, 1))); sh->setup(f, to_affine(P), "geometric"); }
  else if (how == 1) { std::vector<Tri> T{tri(V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0), 1)}; enve::ground::mesh m(make_tris(T)); sh->setup(m, to_affine(P), "geometric"); }
  else { sh->transform(to_affine(P)); sh->updateBBox(); }
  if (r.p(0.2)) { int n = r.i(1, 40); sh->resize(size_t(n)); w.n = n; }
  auto bb = sh->bbox();
  V3 lo = to_v3(bb->min()), hi = to_v3(bb->max());
  double eps = 1e-9 * (w.Rx + w.Ly + P.t.norm());
  M.eval(mon::hash_bytes(&lo, sizeof lo), true);
  for (int i = 0; i < w.n; ++i) {
    ref::Rib rb = rib_of(w, i);
    for (int k = 0; k < 48; ++k) {
      double a = k * M_PI / 24;
      for (int e = -1; e <= 1; ++e) {
        V3 p = P * V3(rb.r * std::cos(a), rb.y + 0.5 * e * rb.w, rb.r * std::sin(a));
        if (p.x < lo.x - eps || p.y < lo.y - eps || p.z < lo.z - eps || p.x > hi.x + eps || p.y > hi.y + eps || p.z > hi.z + eps) {
          M.fail("bbox-misses-rib", "rib " + std::to_string(i) + " point " + str(p) + " outside " + str(lo) + str(hi));
          return;
        }
      }
    }
    M.seen("bbox:ribs");
  }
}

// a wheel on a mesh sees what its ribs see when given every triangle
static void lossless_case(Rng &r, std::string const &method) {
  Scene s = mesh_scene(r, r.p(0.4) ? r.pick({0, 1, 4, 6}) : -1, false);
  if (s.T.empty()) return;
  M.describe = [&] { return str(s) + " " + method; };
  auto tg = make_tris(s.T);
  auto pm = lived_mesh(r, tg, s.P, s.w.Rx); enve::ground::mesh const &mesh = *pm;
  auto sh = lived_shell(r, s.w, s.P, &mesh);
  bool ret = sh->setup(mesh, to_affine(s.P), method);
  auto bb = sh->bbox();
  Box q; q.lo = to_v3(bb->min()); q.hi = to_v3(bb->max());
  // sampling looks along the vertical: the triangles it may use are those that reach the box of the wheel
  enve::triangleground::vecptr use;
  for (size_t i = 0; i < tg.size(); ++i) if (method == "geometric" || overlap(q, box_of(s.T[i]))) use.push_back(tg[i]);
  double world = world_scale(s.P, s.T);
  bool any = false;
  for (int i = 0; i < s.w.n; ++i) {
    ref::Rib rb = rib_of(s.w, i);
    if (method == "geometric" && ref::mesh_geometric(s.P, rb, s.T).ambiguous) { M.seen("lossless:no-verdict"); any = any || (rib_out(*sh, size_t(i)).volume > 0); continue; }
    bool tie = false;                    // a sample on an edge: either triangle may give the friction
    if (method == "sampling") {
      V3 q4[4]; ref::sample_origins(s.P, rb, q4); ref::Hit h[4];
      for (int k = 0; k < 4; ++k) h[k] = ref::drop(q4[k], s.T);
      tie = ref::sampling(s.P, rb, h).ambiguous;
    }
    enve::rib direct(i, rb.r, rb.y, rb.w, 0.0);
    enve::output u;
    bool c = direct.envelop(use, to_affine(s.P), method, u);
    RibOut a = rib_out(*sh, size_t(i)), b = rib_out(u);
    any = any || a.area > 0 || a.volume > 0;
    double tol = 1e-7 * rb.r + 1e-12 * world, ta = tol * rb.w * 10, tv = ta * rb.r;
    bool grazing = b.area < 1e-6 * rb.r * rb.w || b.area <= 1e-7;
    M.eval(fp(a), c);
    M.seen(c ? "lossless:contact" : "lossless:no-contact");
    if (std::fabs(a.area - b.area) > ta + (grazing ? 1e-7 : 0) || std::fabs(a.volume - b.volume) > tv + (grazing ? 1e-7 : 0))
      M.fail("lossless-" + method, "rib " + std::to_string(i) + " in the wheel: " + str(a) + "; alone with every triangle: " + str(b));
    else if (!grazing && (!((a.point - b.point).norm() <= tol * 1e2) || !((a.normal - b.normal).norm() <= 1e-4) || !(tie || std::fabs(a.friction - b.friction) <= 1e-6)))
      M.fail("lossless-" + method, "rib " + std::to_string(i) + " in the wheel: " + str(a) + "; alone with every triangle: " + str(b));
  }
  if (any != ret) M.fail("lossless-return", "setup returned " + std::to_string(ret));
}

// the meshes that come with the repository
static void shipped_case(Rng &r) {
  static std::vector<std::pair<std::string, std::unique_ptr<enve::ground::mesh>>> meshes;
  static std::vector<std::vector<Tri>> tris;
  if (meshes.empty()) {
    for (std::string d : {"/files_rdf", "/files_obj", "/files_obj_rtf"}) {
      std::vector<std::string> names;
      if (DIR *D = opendir((M.repo + d).c_str())) { while (dirent *e = readdir(D)) names.push_back(e->d_name); closedir(D); }
      std::sort(names.begin(), names.end());
      for (auto &n : names) {
        if (n.size() < 5) continue;
        std::string p = M.repo + d + "/" + n, x = n.substr(n.size() - 4);
        std::ifstream f(p, std::ios::ate | std::ios::binary);
        if (!f || f.tellg() > 3000000) continue;
        try {
          if (x == ".rdf") meshes.emplace_back(n, std::unique_ptr<enve::ground::mesh>(new enve::ground::mesh(p)));
          else if (x == ".obj") meshes.emplace_back(n, std::unique_ptr<enve::ground::mesh>(new enve::ground::mesh(p, 1.0)));
          else continue;
        } catch (std::exception const &) { M.seen("shipped:unreadable"); continue; }
        std::vector<Tri> T;
        auto const &v = meshes.back().second->vecptrTriangleground();
        for (auto const &t : v) T.push_back(tri(to_v3(t->vertex(0)), to_v3(t->vertex(1)), to_v3(t->vertex(2)), t->friction()));
        tris.push_back(T);
        M.seen("shipped:meshes");
      }
    }
  }
  if (meshes.empty()) { M.fail("shipped", "no mesh of the repository could be loaded"); return; }
  size_t k = size_t(r.i(0, int(meshes.size()) - 1));
  auto const &T = tris[k];
  std::vector<Box> B; Box all = box_of(T[0]);
  for (Tri const &t : T) {
    Box b = box_of(t); B.push_back(b);
    all.lo = V3(std::min(all.lo.x, b.lo.x), std::min(all.lo.y, b.lo.y), std::min(all.lo.z, b.lo.z));
    all.hi = V3(std::max(all.hi.x, b.hi.x), std::max(all.hi.y, b.hi.y), std::max(all.hi.z, b.hi.z));
  }
  M.describe = [&] { return meshes[k].first; };
  for (int i = 0; i < 4; ++i) check_query(*meshes[k].second, meshes[k].second->vecptrTriangleground(), B, query(r, B, all), r);
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("query", 24000, 400000, [](Rng &r) { query_case(r, false); });
  M.run("query-big", 120, 3000, [](Rng &r) { query_case(r, true); });
  M.run("bbox", 6000, 100000, bbox_case);
  M.run("lossless-geometric", 24000, 400000, [](Rng &r) { lossless_case(r, "geometric"); });
  M.run("lossless-sampling", 12000, 200000, [](Rng &r) { lossless_case(r, "sampling"); });
  M.run("shipped", 60, 2000, shipped_case);
  return M.finish();
}
