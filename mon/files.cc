// Mesh files: what is written in a file is what is in the mesh; what cannot be read is refused and changes nothing.
#include "gen.hh"
#include <dirent.h>
#include <sys/stat.h>
using namespace gen;
static mon::Mon M;

struct File { bool rdf; std::vector<V3> node; std::vector<std::vector<std::string>> text; std::vector<std::array<int, 3>> el; std::vector<double> mu; std::vector<std::string> mutext; int slash = 0; };

static std::string number(Rng &r, double x) {
  char b[80];
  char lng[160];
  switch (r.i(0, 9)) {
  case 7: { std::snprintf(b, sizeof b, "%.5f", x); std::string t = b; size_t z = t.find("0."); if (z != std::string::npos && (z == 0 || t[z - 1] == '-')) t.erase(z, 1); M.seen("number without a digit before the point", t.find('.') == 0 || t.find("-.") == 0); return t; }
  case 8: std::snprintf(b, sizeof b, "%d.", int(x)); break;
  case 9: std::snprintf(lng, sizeof lng, "%.50f", x); return lng;
  case 0: std::snprintf(b, sizeof b, "%.17g", x); break;
  case 1: std::snprintf(b, sizeof b, "%.6f", x); break;
  case 2: std::snprintf(b, sizeof b, "%.12e", x); break;
  case 3: std::snprintf(b, sizeof b, "%.9E", x); break;
  case 4: std::snprintf(b, sizeof b, "%d", int(x)); break;
  case 5: std::snprintf(b, sizeof b, "%+.8f", x); break;
  default: std::snprintf(b, sizeof b, "%.3f", x); break;
  }
  return b;
}
static File random_file(Rng &r, bool rdf) {
  File f; f.rdf = rdf;
  int n = r.p(.1) ? r.i(200, 2000) : r.i(3, 60), m = r.p(.1) ? r.i(200, 2000) : r.i(1, 80);
  double s = r.logu(1e-2, 1e3);
  f.slash = r.p(.7) ? 0 : r.i(1, 3);
  for (int i = 0; i < n; ++i) {
    double c[3] = {r.u(-s, s), r.u(-s, s), r.p(.3) ? 0.0 : r.u(-s, s) * .3};
    std::vector<std::string> t; double v[3];
    for (int k = 0; k < 3; ++k) { t.push_back(number(r, c[k])); v[k] = std::strtod(t.back().c_str(), nullptr); }
    f.text.push_back(t); f.node.push_back(V3(v[0], v[1], v[2]));
  }
  for (int i = 0; i < m; ++i) {
    std::array<int, 3> e;
    for (int k = 0; k < 3; ++k) e[size_t(k)] = r.p(.1) ? r.pick({0, n - 1}) : r.i(0, n - 1);
    f.el.push_back(e);
    std::string t = number(r, r.u(0, 2)); if (t[0] == '-') t = "0";
    f.mutext.push_back(t); f.mu.push_back(std::strtod(t.c_str(), nullptr));
  }
  return f;
}
struct Style { std::string eol, sep, lead, trail; bool comments, blanks, lasteol; int heads; };
static Style style_of(Rng &r) {
  Style s;
  s.eol = r.p(.25) ? "\r\n" : "\n";
  s.sep = r.p(.7) ? " " : "  ";
  s.lead = r.p(.8) ? "" : r.p(.5) ? " " : "   ";
  s.trail = (s.eol == "\n" && r.p(.2)) ? " " : "";
  s.comments = r.p(.5); s.blanks = r.p(.4); s.lasteol = r.p(.8); s.heads = r.i(0, 1);
  return s;
}
static std::string render(Rng &r, File const &f, Style const &s) {
  std::string o;
  auto noise = [&] {
    if (s.comments && r.p(.15)) {
      if (f.rdf) o += s.lead + r.pick({"# 1 2 3", "% nodes", "{ id x y z }", "#", "%%%% 4 5 6 7", "{multi 1 2 3"}) + s.eol;
      else o += s.lead + r.pick({"# 1 2 3", "% nodes", "#", "#v 1 2 3", "vn 0 0 1", "vt 0.5 0.5", "g group1", "o object", "s off", "usemtl asphalt", "mtllib a.mtl"}) + s.eol;
    }
    if (s.comments && r.p(.001)) { o += s.lead + (r.p(.5) ? "# " : "% "); for (int k = r.i(100, 20000); k > 0; --k) o += "1 2 "; o += s.eol; M.seen("long comment"); }
    if (s.blanks && r.p(.15)) o += (r.p(.5) ? std::string() : std::string(s.eol == "\n" ? "   " : "")) + s.eol;
  };
  auto nodes = [&](size_t a, size_t b) {
    for (size_t i = a; i < b; ++i) {
      noise();
      o += s.lead;
      if (f.rdf) o += std::to_string(i); else o += "v";
      for (int k = 0; k < 3; ++k) o += s.sep + f.text[i][size_t(k)];
      o += s.trail + s.eol;
    }
  };
  auto elements = [&](size_t a, size_t b) {
    for (size_t i = a; i < b; ++i) {
      noise();
      if (f.rdf) { o += s.lead; for (int k = 0; k < 3; ++k) o += std::to_string(f.el[i][size_t(k)]) + s.sep; o += f.mutext[i]; }
      else {      // the index may be followed by those of texture and normal
        static const char *const tail[] = {"", "/1", "/1/1", "//1"};
        o += s.lead + "f"; for (int k = 0; k < 3; ++k) o += s.sep + std::to_string(f.el[i][size_t(k)] + 1) + tail[f.slash];
      }
      o += s.trail + s.eol;
    }
  };
  std::string hn = s.heads ? "NODES" : "[NODES]", he = s.heads ? "ELEMENTS" : "[ELEMENTS]";
  if (f.rdf) {
    if (s.comments && r.p(.4)) o += r.pick({"$ header", "[MDI_HEADER]", "FILE_TYPE = 'rdf'", "some words"}) + s.eol;
    noise();
    o += s.lead + hn + s.eol;
    if (r.p(.5)) o += "{ id  x_coord  y_coord  z_coord }" + s.eol;
    size_t k = 0, m = 0;
    if (r.p(.2)) for (; m < f.el.size(); ++m) {     // several sections, each element after its nodes
      size_t need = f.node.size();
      if (f.el[m][0] >= 0 && f.el[m][1] >= 0 && f.el[m][2] >= 0) need = std::min(need, size_t(std::max(f.el[m][0], std::max(f.el[m][1], f.el[m][2]))) + 1);
      if (need > k) {
        if (k || m) o += s.lead + hn + s.eol;
        nodes(k, need); k = need;
        o += s.lead + he + s.eol;
      }
      if (m == 0 && k == 0) o += s.lead + he + s.eol;
      elements(m, m + 1);
      if (k == f.node.size()) { ++m; break; }
    }
    if (k < f.node.size()) { if (k || m) o += s.lead + hn + s.eol; nodes(k, f.node.size()); noise(); o += s.lead + he + s.eol; }
    else if (m == 0) o += s.lead + he + s.eol;
    if (r.p(.5)) o += "{ n1    n2    n3    mu }" + s.eol;
    elements(m, f.el.size());
  } else {
    noise();
    // elements may come as soon as their nodes are there
    if (r.p(.2)) {
      size_t k = 0;
      for (size_t i = 0; i < f.el.size(); ++i) {
        size_t need = size_t(std::max(f.el[i][0], std::max(f.el[i][1], f.el[i][2]))) + 1;
        if (f.el[i][0] < 0 || f.el[i][1] < 0 || f.el[i][2] < 0) need = f.node.size();
        need = std::min(need, f.node.size());
        if (need > k) { nodes(k, need); k = need; }
        elements(i, i + 1);
      }
      nodes(k, f.node.size());
    } else { nodes(0, f.node.size()); elements(0, f.el.size()); }
  }
  if (!s.lasteol && o.size() >= s.eol.size()) o.resize(o.size() - s.eol.size());
  return o;
}
static std::string write(std::string const &name, std::string const &text) {
  std::string p = M.scratch + "/" + name;
  std::ofstream f(p, std::ios::binary); f.write(text.data(), long(text.size())); f.close();
  return p;
}
static Pose any_pose(Rng &r) {
  Pose P;
  if (r.p(.4)) return P;
  P.R = rotation(r); P.t = place(r, 1);
  if (r.p(.2)) { double k = std::exp(r.u(-4.6, 4.6)); P.R.r0 = P.R.r0 * k; P.R.r1 = P.R.r1 * k; P.R.r2 = P.R.r2 * k; M.seen("pose:other unit of length"); }
  return P;
}

static void compare_mesh(std::string const &k, enve::ground::mesh const &m, std::vector<Tri> const &want, double size) {
  if (m.size() != want.size()) { M.fail(k + "-count", std::to_string(m.size()) + " triangles, " + std::to_string(want.size()) + " in the file"); return; }
  double tol = 1e-12 * (1 + size) * 10;
  for (size_t i = 0; i < want.size(); ++i) {
    auto const &t = *m.ptrTriangleground(i);
    for (int c = 0; c < 3; ++c) if (!((to_v3(t.vertex(c)) - want[i].v[c]).norm() <= tol)) { M.fail(k + "-vertex", "element " + std::to_string(i) + " vertex " + std::to_string(c) + " " + str(to_v3(t.vertex(c))) + " expected " + str(want[i].v[c])); return; }
    if (t.friction() != want[i].mu) { M.fail(k + "-friction", "element " + std::to_string(i) + " " + mon::num(t.friction()) + " expected " + mon::num(want[i].mu)); return; }
    if (t.id() != int(i)) { M.fail(k + "-id", "element " + std::to_string(i) + " has id " + std::to_string(t.id())); return; }
    V3 n = (want[i].v[1] - want[i].v[0]).cross(want[i].v[2] - want[i].v[0]);
    double a = n.norm(), e = (want[i].v[1] - want[i].v[0]).norm() * (want[i].v[2] - want[i].v[0]).norm();
    if (a > 1e-4 * e && e > 1e-6 && std::fabs(n.z) > 1e-6 * a) {
      V3 up = n / a; if (up.z < 0) up = -up;
      if (!((to_v3(t.normal()) - up).norm() <= 1e-5)) { M.fail(k + "-normal", "element " + std::to_string(i) + " " + str(to_v3(t.normal())) + " expected " + str(up)); return; }
    }
  }
  // the broad phase is that of these triangles
  if (!want.empty()) {
    size_t j = want.size() / 2;
    V3 c = want[j].v[0];
    auto box = std::make_shared<acme::aabb>(to_point(c - V3(1, 1, 1) * (1e-9 * (1 + size))), to_point(c + V3(1, 1, 1) * (1e-9 * (1 + size))), 0, 0);
    enve::triangleground::vecptr got;
    m.intersection(box, got);
    bool found = false; for (auto const &p : got) found = found || p == m.ptrTriangleground(j);
    if (!found) M.fail(k + "-query", "element " + std::to_string(j) + " is not found where it is");
  }
}
static std::vector<Tri> expected(File const &f, Pose const &P, double mu) {
  std::vector<Tri> T;
  for (size_t i = 0; i < f.el.size(); ++i) {
    Tri t; for (int k = 0; k < 3; ++k) t.v[k] = P * f.node[size_t(f.el[i][size_t(k)])];
    t.mu = f.rdf ? f.mu[i] : mu;
    T.push_back(t);
  }
  return T;
}
static double extent(File const &f, Pose const &P) { double m = P.t.norm(); for (V3 const &v : f.node) m = std::max(m, (P.R * v).norm() + P.t.norm()); return m; }

static void load_case(Rng &r, bool rdf) {
  File f = random_file(r, rdf);
  Style s = style_of(r);
  std::string text = render(r, f, s);
  std::string p = write(r.p(.2) ? std::string("a.b.c") + (rdf ? ".rdf" : ".obj") : rdf ? "m.rdf" : "m.obj", text);
  Pose P = any_pose(r);
  double mu = friction(r);
  M.describe = [&] { return "pose " + str(P) + " friction " + mon::num(mu) + " file <<" + text.substr(0, 1500) + ">>"; };
  std::unique_ptr<enve::ground::mesh> m;
  if (r.p(.5)) m.reset(rdf ? new enve::ground::mesh(p, to_affine(P)) : new enve::ground::mesh(p, mu, to_affine(P)));
  else {
    m.reset(new enve::ground::mesh());
    bool ok = rdf ? m->load(p, to_affine(P)) : m->load(p, mu, to_affine(P));
    if (!ok) M.fail("load-return", "false for a well formed file");
  }
  M.eval(mon::hash_str(text), f.el.size() > 1);
  compare_mesh(rdf ? "rdf" : "obj", *m, expected(f, P, mu), extent(f, P));
  M.seen(std::string(rdf ? "rdf" : "obj") + (s.eol == "\n" ? ":lf" : ":crlf") + (s.comments ? ":comments" : "") + (s.blanks ? ":blanks" : ""));
  M.seen("elements", long(f.el.size()));
  if (!f.rdf && f.slash) M.seen("obj:faces with slashes");
  // again over the same object: the mesh is the last file
  if (r.p(.5)) {
    for (int k = r.i(1, 2); k > 0; --k) {
      bool rdf2 = r.p(.5);
      File g = random_file(r, rdf2); Pose Q = any_pose(r); double mu2 = friction(r);
      std::string t2 = render(r, g, style_of(r)), p2 = write(rdf2 ? "n.rdf" : "n.obj", t2);
      if (rdf2) m->load(p2, to_affine(Q)); else m->load(p2, mu2, to_affine(Q));
      compare_mesh("reload", *m, expected(g, Q, mu2), extent(g, Q));
      M.seen("reload");
    }
  }
  if (text.size() < 700) M.sample(M.describe);
}

// a large road: more nodes and elements than sixteen bits can count
static void huge_case(Rng &r) {
  bool rdf = r.p(.5);
  int n = r.i(66, 500), m = r.i(66000, 80000) / n + 1, k = 0;
  double mu = friction(r), s = r.logu(.01, 1);
  std::string text = rdf ? "[NODES]\n" : "", id;
  std::vector<V3> node;
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
    char b[120]; double z = r.u(-.1, .1) * s;
    std::snprintf(b, sizeof b, "%.6f %.6f %.6f\n", i * s, j * s, z);
    V3 v; std::sscanf(b, "%lf %lf %lf", &v.x, &v.y, &v.z); node.push_back(v);
    text += (rdf ? std::to_string(k++) : std::string("v")) + " " + b;
  }
  std::vector<Tri> want;
  if (rdf) text += "[ELEMENTS]\n";
  auto element = [&](int a, int b, int c) {
    want.push_back(tri(node[size_t(a)], node[size_t(b)], node[size_t(c)], mu));
    if (rdf) text += std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c) + " " + mon::num(mu) + "\n";
    else text += "f " + std::to_string(a + 1) + " " + std::to_string(b + 1) + " " + std::to_string(c + 1) + "\n";
  };
  bool both = r.p(.5);
  for (int i = 0; i + 1 < n; ++i) for (int j = 0; j + 1 < m; ++j) { element(i * m + j, (i + 1) * m + j, i * m + j + 1); if (both) element((i + 1) * m + j, (i + 1) * m + j + 1, i * m + j + 1); }
  std::string p = write(rdf ? "huge.rdf" : "huge.obj", text);
  M.describe = [&] { return std::to_string(node.size()) + " nodes, " + std::to_string(want.size()) + " elements"; };
  enve::ground::mesh g;
  if (rdf) g.load(p); else g.load(p, mu);
  M.eval(mon::hash_str(text), true);
  compare_mesh("huge", g, want, s * (n + m));
  M.seen("huge"); M.peak("nodes in a file", double(node.size())); M.peak("elements in a file", double(want.size()));
}
// a contact on the loaded mesh is the contact on the triangles of the file
static void contact_case(Rng &r) {
  Scene s = mesh_scene(r, -1, false);
  if (s.T.empty()) return;
  bool rdf = r.p(.5);
  double mu = friction(r);
  Pose P = any_pose(r);
  std::string text = rdf ? "[NODES]\n" : "";
  for (size_t i = 0; i < s.T.size(); ++i) for (int k = 0; k < 3; ++k) text += (rdf ? std::to_string(3 * i + size_t(k)) : std::string("v")) + " " + mon::num(s.T[i].v[k].x) + " " + mon::num(s.T[i].v[k].y) + " " + mon::num(s.T[i].v[k].z) + "\n";
  if (rdf) text += "[ELEMENTS]\n";
  for (size_t i = 0; i < s.T.size(); ++i) text += rdf ? std::to_string(3 * i) + " " + std::to_string(3 * i + 1) + " " + std::to_string(3 * i + 2) + " " + mon::num(s.T[i].mu) + "\n" : "f " + std::to_string(3 * i + 1) + " " + std::to_string(3 * i + 2) + " " + std::to_string(3 * i + 3) + "\n";
  if (!rdf) for (Tri &t : s.T) t.mu = mu;
  transform(s.T, P);
  s.P.t = P * s.P.t;
  std::string p = write(rdf ? "c.rdf" : "c.obj", text);
  M.describe = [&] { return str(s) + " through " + p; };
  enve::ground::mesh a = rdf ? enve::ground::mesh(p, to_affine(P)) : enve::ground::mesh(p, mu, to_affine(P));
  for (Tri &t : s.T) t.n = ref::ground_normal(t);
  std::string method = r.p(.6) ? "geometric" : "sampling";
  auto A = make_shell(s.w);
  bool ra = A->setup(a, to_affine(s.P), method);
  double world = world_scale(s.P, s.T);
  for (int i = 0; i < s.w.n; ++i) {
    ref::Rib rb = rib_of(s.w, i);
    RibOut g = rib_out(*A, size_t(i));
    if (method == "geometric") {
      ref::Out x = ref::mesh_geometric(s.P, rb, s.T);
      bool solid = x.contact && x.length - x.slack > 1e-3 * rb.r + 2e-4 && x.length * rb.w > 1e-7;
      if (x.ambiguous || (x.contact && !solid)) continue;
      M.eval(fp(g), x.contact);
      if (x.contact != (g.volume > 0)) { M.fail("loaded-contact", std::string(x.contact ? "lost" : "false") + " contact " + str(g)); continue; }
      compare(M, "loaded", g, x, rb, world, x.contact ? 1e-7 / std::max(1e-3, x.minsin) : 1e-9);
    }
  }
  (void)ra;
  M.seen("loaded-contact:" + method);
}

// the files of the repository, read by an independent reader
static void shipped_case(Rng &r) {
  static std::vector<std::string> names;
  if (names.empty()) {
    for (std::string d : {"/files_rdf", "/files_obj", "/files_obj_rtf"})
      if (DIR *D = opendir((M.repo + d).c_str())) {
        while (dirent *e = readdir(D)) { std::string n = e->d_name; if (n.size() > 4 && (n.substr(n.size() - 4) == ".rdf" || n.substr(n.size() - 4) == ".obj")) names.push_back(M.repo + d + "/" + n); }
        closedir(D);
      }
    std::sort(names.begin(), names.end());
  }
  if (names.empty()) { M.fail("shipped", "no files"); return; }
  std::string p = names[size_t(r.i(0, int(names.size()) - 1))];
  bool rdf = p.substr(p.size() - 4) == ".rdf";
  M.describe = [&] { return p; };
  File f; f.rdf = rdf;
  std::ifstream in(p); std::string line; int mode = 0;
  while (std::getline(in, line)) {
    std::stringstream ss(line); std::string t; if (!(ss >> t)) continue;
    if (rdf) {
      if (t == "[NODES]") { mode = 1; continue; }
      if (t == "[ELEMENTS]") { mode = 2; continue; }
      if (t[0] == '{' || t[0] == '#' || t[0] == '%') continue;
      if (mode == 1) { double x, y, z; ss >> x >> y >> z; f.node.push_back(V3(x, y, z)); }
      else if (mode == 2) { int a = std::atoi(t.c_str()), b, c; double m; ss >> b >> c >> m; f.el.push_back({a, b, c}); f.mu.push_back(m); }
    } else if (t == "v") { double x, y, z; ss >> x >> y >> z; f.node.push_back(V3(x, y, z)); }
    else if (t == "f") { std::array<int, 3> e; for (int k = 0; k < 3; ++k) { ss >> e[size_t(k)]; --e[size_t(k)]; } f.el.push_back(e); }
  }
  Pose P = any_pose(r); double mu = friction(r);
  enve::ground::mesh m = rdf ? enve::ground::mesh(p, to_affine(P)) : enve::ground::mesh(p, mu, to_affine(P));
  M.eval(mon::hash_str(p) ^ mon::hash_bytes(&P, sizeof P), true);
  compare_mesh("shipped", m, expected(f, P, mu), extent(f, P));
  M.seen("shipped");
}

// ---------------------------------------------------------------- what cannot be read
// damages a file so that no mesh can be read out of it
static std::string damage(Rng &r, File f, std::string &what) {
  Style s; s.eol = "\n"; s.sep = " "; s.comments = s.blanks = false; s.lasteol = true; s.heads = 0;
  size_t e = size_t(r.i(0, int(f.el.size()) - 1)), n = size_t(r.i(0, int(f.node.size()) - 1));
  int k = r.i(0, 2), N = int(f.node.size());
  std::string t;
  int how = r.i(0, 15);
  // the file as it is, but for the entries of one element
  auto with_entries = [&](std::vector<std::string> const &entries) {
    std::string o = f.rdf ? "[NODES]\n" : "";
    for (size_t i = 0; i < f.node.size(); ++i) o += (f.rdf ? std::to_string(i) : std::string("v")) + " " + f.text[i][0] + " " + f.text[i][1] + " " + f.text[i][2] + "\n";
    if (f.rdf) o += "[ELEMENTS]\n";
    for (size_t i = 0; i < f.el.size(); ++i) {
      if (!f.rdf) o += "f";
      if (i == e) { for (auto const &x : entries) o += (o.back() == '\n' ? "" : " ") + x; o += "\n"; continue; }
      for (int q = 0; q < 3; ++q) o += (o.back() == '\n' ? "" : " ") + std::to_string(f.el[i][size_t(q)] + (f.rdf ? 0 : 1));
      if (f.rdf) o += " " + f.mutext[i];
      o += "\n";
    }
    return o; };
  std::vector<std::string> ent; for (int q = 0; q < 3; ++q) ent.push_back(std::to_string(f.el[e][size_t(q)] + (f.rdf ? 0 : 1)));
  if (f.rdf) ent.push_back(f.mutext[e]);
  switch (how) {
  case 12: if (f.rdf) { ent[3] = r.pick({"dry", "x0.5", "--1", ",", "nan", "-nan", "-1e-300", "-inf", "1e999999", "e1"}); what = "friction is not a friction"; return with_entries(ent); } /* fallthrough */
  case 13: ent[size_t(k)] = r.pick({"a", "x1", "--1", ",", "/1", "99999999999999", "-99999999999999", "99999999999999999999999"}); what = "index is not an index"; return with_entries(ent);
  case 14: ent.insert(ent.begin() + r.i(0, int(ent.size())), r.pick({"0", "1", "2", "0.5"})); what = "too many element entries"; return with_entries(ent);
  case 15: ent.erase(ent.begin() + r.i(0, int(ent.size()) - 1)); what = "too few element entries"; return with_entries(ent);
  case 0: f.el[e][size_t(k)] = N + r.pick({0, 0, 0, 1, 2, 1000, 2000000}); what = "index past the end"; return render(r, f, s);
  case 1: f.el[e][size_t(k)] = f.rdf ? -r.pick({1, 1, 2, 100}) : -1 - r.pick({0, 1, 5, 100}); what = "negative index"; return render(r, f, s);
  case 2: f.text[n][size_t(k)] = r.pick({"abc", "--1", "x1", "e5", ",", "."}); what = "coordinate is not a number"; return render(r, f, s);
  case 3: f.text[n].erase(f.text[n].begin() + k); f.text[n].push_back(""); what = "coordinate missing"; {
      std::string o = render(r, f, s);
      return o; }
  case 4: f.text[n][size_t(k)] += " 1.5"; what = "too many coordinates"; return render(r, f, s);
  case 5: if (f.rdf) { f.mutext[e] = "-0.5"; what = "negative friction"; return render(r, f, s); } /* fallthrough */
  case 6: { what = "element entry missing"; std::string o;
      for (size_t i = 0; i < f.node.size(); ++i) o += (f.rdf ? std::to_string(i) : std::string("v")) + " " + f.text[i][0] + " " + f.text[i][1] + " " + f.text[i][2] + "\n";
      if (f.rdf) o = "[NODES]\n" + o + "[ELEMENTS]\n";
      for (size_t i = 0; i < f.el.size(); ++i) {
        int d = f.rdf ? 0 : 1;
        o += (f.rdf ? std::string() : std::string("f ")) + std::to_string(f.el[i][0] + d) + " " + std::to_string(f.el[i][1] + d);
        if (i != e || f.rdf) o += " " + std::to_string(f.el[i][2] + d);
        if (f.rdf && i != e) o += " 0.5";
        o += "\n";
      }
      return o; }
  case 7: what = "no elements"; f.el.clear(); return render(r, f, s);
  case 8: what = "empty"; return r.pick({"", "\n", "# nothing\n", "\n\n\r\n"});
  case 9: { what = "index is not a number"; std::string o = render(r, f, s); size_t q = o.find_last_of("\n", o.size() - 2); q = q == std::string::npos ? 0 : q + 1;
      return o.substr(0, q) + (f.rdf ? "a b c 0.5\n" : "f a b c\n"); }
  case 10: { what = "number out of range"; if (r.p(.5)) { f.text[n][size_t(k)] = "1e999999"; return render(r, f, s); }
      std::string o = render(r, f, s); return o + (f.rdf ? "0 1 99999999999999 0.5\n" : "f 1 2 99999999999999\n"); }
  default: { what = "elements before their nodes"; std::string o;
      if (f.rdf) { o = "[ELEMENTS]\n0 1 2 0.5\n[NODES]\n"; for (size_t i = 0; i < f.node.size(); ++i) o += std::to_string(i) + " 0 1 2\n"; }
      else { o = "f 1 2 3\n"; for (size_t i = 0; i < f.node.size(); ++i) o += "v 0 1 2\n"; }
      return o; }
  }
}
struct Snapshot { size_t n; std::vector<void const *> p; std::vector<V3> v; };
static Snapshot snap(enve::ground::mesh const &m) {
  Snapshot s; s.n = m.size();
  for (size_t i = 0; i < s.n; ++i) { auto t = m.ptrTriangleground(i); s.p.push_back(t.get()); for (int k = 0; k < 3; ++k) s.v.push_back(to_v3(t->vertex(k))); }
  return s;
}
static bool equal(Snapshot const &a, Snapshot const &b) {
  if (a.n != b.n || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); ++i) if ((a.v[i] - b.v[i]).norm() != 0) return false;
  return true;
}
static void probe(std::string const &k, enve::ground::mesh const &m, std::vector<Tri> const &T) {
  if (T.empty()) {
    enve::triangleground::vecptr got;
    auto box = std::make_shared<acme::aabb>(acme::point(-1e6, -1e6, -1e6), acme::point(1e6, 1e6, 1e6), 0, 0);
    if (m.intersection(box, got) || !got.empty() || m.size() != 0) M.fail(k + "-not-empty", "something is in the mesh");
    return;
  }
  compare_mesh(k, m, T, 1e4);
  enve::triangleground::vecptr got;
  auto box = std::make_shared<acme::aabb>(acme::point(-1e7, -1e7, -1e7), acme::point(1e7, 1e7, 1e7), 0, 0);
  m.intersection(box, got);
  if (got.size() != T.size()) M.fail(k + "-broad", std::to_string(got.size()) + " of " + std::to_string(T.size()) + " triangles found");
}
// outcome of trying to read p: 0 read, 1 refused
static int attempt(enve::ground::mesh &m, bool rdf, std::string const &p, Pose const &P) {
  try { bool ok = rdf ? m.load(p, to_affine(P)) : m.load(p, 1.0, to_affine(P)); return ok ? 0 : 1; }
  catch (std::exception const &) { return 1; }
}
static void refuse_case(Rng &r) {
  bool rdf = r.p(.5);
  File f = random_file(r, rdf);
  std::string what, p, text;
  int kind = r.i(0, 9);
  if (kind == 0) { what = "missing file"; p = M.scratch + "/none" + (rdf ? ".rdf" : ".obj"); }
  else if (kind == 1) { what = "other extension"; Style s = style_of(r); text = render(r, f, s); p = write(r.pick({"m.txt", "m", "m.rdf.txt", "m.RDF", "mobj", "m.ob"}), text); }
  else if (kind == 2) { what = "other format"; Style s = style_of(r); text = render(r, f, s); p = write(rdf ? "m.obj" : "m.rdf", text); }
  else if (kind == 3) { what = "short name"; p = r.pick({"", "a", "rdf", "obj", ".rd"}); }
  else { text = damage(r, f, what); p = write(rdf ? "d.rdf" : "d.obj", text); }
  M.describe = [&] { return what + " " + p + " <<" + text.substr(0, 1200) + ">>"; };
  // a mesh that holds something, or nothing
  File old = random_file(r, r.p(.5)); Pose P = any_pose(r);
  enve::ground::mesh m; std::vector<Tri> T;
  if (r.p(.7)) {
    std::string q = write(old.rdf ? "old.rdf" : "old.obj", render(r, old, style_of(r)));
    if (old.rdf) m.load(q, to_affine(P)); else m.load(q, 1.0, to_affine(P));
    T = expected(old, P, 1.0);
  }
  Snapshot a = snap(m);
  M.eval(mon::hash_str(what + text), true);
  if (attempt(m, rdf, p, P) == 0) M.fail("accepted", what + " is read as a mesh of " + std::to_string(m.size()) + " triangles");
  else {
    if (!equal(a, snap(m))) M.fail("refused-but-changed", what + ": the mesh had " + std::to_string(a.n) + " triangles and has " + std::to_string(m.size()));
    probe("after-refusal", m, T);
  }
  bool threw = false;
  try { if (rdf) enve::ground::mesh x(p, to_affine(P)); else enve::ground::mesh x(p, 1.0, to_affine(P)); }
  catch (std::exception const &) { threw = true; }
  if (!threw) M.fail("constructed", what + " makes a mesh");
  M.seen("refused:" + what);
  if (text.size() < 500) M.sample(M.describe);
}
// any bytes: either a mesh or a refusal, never anything else
static void garble_case(Rng &r) {
  bool rdf = r.p(.5);
  File f = random_file(r, rdf);
  while (f.el.size() > 20) f.el.pop_back();
  std::string text = render(r, f, style_of(r));
  int how = r.i(0, 5);
  auto pos = [&] { return size_t(r.i(0, int(text.size()) - 1)); };
  if (how == 0) text.resize(pos());
  else if (how == 1) for (int k = r.i(1, 8); k > 0 && !text.empty(); --k) text[pos()] = char(r.i(0, 255));
  else if (how == 2) for (int k = r.i(1, 8); k > 0 && !text.empty(); --k) text[pos()] = r.pick({' ', '\n', '\r', '\t', '-', '9', '.', 'e', 'f', 'v', '{', '[', '\0', '/'});
  else if (how == 3) for (int k = r.i(1, 4); k > 0 && !text.empty(); --k) text.erase(pos(), size_t(r.i(1, 20)));
  else if (how == 4) for (int k = r.i(1, 4); k > 0 && !text.empty(); --k) { size_t a = pos(); text.insert(pos(), text.substr(a, size_t(r.i(1, 40)))); }
  else { text.clear(); for (int k = r.i(0, 300); k > 0; --k) text += r.p(.5) ? r.pick({"v ", "f ", "[NODES]\n", "[ELEMENTS]\n", "1 ", "-1 ", "2 ", "0 ", "\n", " ", "{", "#", "3 ", "nan ", "inf ", "1e9 "}) : std::string(1, char(r.i(0, 255))); }
  std::string p = write(rdf ? "g.rdf" : "g.obj", text);
  M.describe = [&] { return "<<" + text.substr(0, 1500) + ">>"; };
  File old = random_file(r, true); Pose P = any_pose(r);
  enve::ground::mesh m;
  std::string q = write("old.rdf", render(r, old, style_of(r)));
  m.load(q, to_affine(P));
  Snapshot a = snap(m);
  M.eval(mon::hash_str(text), true);
  if (attempt(m, rdf, p, P) == 0) {
    M.seen("garbled:read");
    if (m.size() == 0) M.fail("garbled-empty", "an empty mesh is reported as loaded");
    // what was read can be used
    enve::triangleground::vecptr got;
    auto box = std::make_shared<acme::aabb>(acme::point(-1, -1, -1), acme::point(1, 1, 1), 0, 0);
    m.intersection(box, got);
    // every number of the mesh was in the file
  } else {
    M.seen("garbled:refused");
    if (!equal(a, snap(m))) M.fail("garbled-changed", "the refused file changed the mesh");
    probe("after-garbled", m, expected(old, P, 1));
  }
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  mon::Quiet q;
  M.run("rdf", 3000, 80000, [](Rng &r) { load_case(r, true); });
  M.run("obj", 3000, 80000, [](Rng &r) { load_case(r, false); });
  M.run("loaded-contact", 1500, 30000, contact_case);
  M.run("shipped", 60, 800, shipped_case);
  M.run("huge", 2, 16, huge_case);
  M.run("refuse", 4000, 100000, refuse_case);
  M.run("garble", 4000, 200000, garble_case);
  return M.finish();
}
