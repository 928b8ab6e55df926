// The classes of the MATLAB toolbox, run as they are written, against C++ objects that are changed alongside.
#include "snap.hh"
#include "mlab.hh"
#include "mex_utils.hh"
using namespace gen;
using ml::Val;
static mon::Mon M;
extern "C" {
void mex_flat(int, mxArray *[], int, mxArray const *[]);
void mex_mesh(int, mxArray *[], int, mxArray const *[]);
void mex_shell(int, mxArray *[], int, mxArray const *[]);
void mex_triangleground(int, mxArray *[], int, mxArray const *[]);
}
typedef std::vector<Val> Args;
static const double TOL = 1e-13;
static ml::Interp PROTO;
static std::map<std::string, std::string> BROKEN;          // classes that cannot be read here

// ------------------------------------------------------------------------------------------------ what ACME brings
struct Point { acme::point p; mxArray *h = nullptr; ~Point() { if (h) { mxArray const *c = h; utils::mex_destroy_object<acme::point>(c); mexstub::destroy(h); } } };
struct Plane { acme::plane p; };
struct Triangle { V3 v[3]; };
struct Disk { double r; V3 c, n; };
static std::vector<std::pair<std::string, std::vector<double>>> PLOTTED; // objects of ACME that were drawn
static V3 vec(Val const &v) { if (v.k != Val::NUM || v.d.size() != 3) ml::merr("a vector of three is expected"); return V3(v.d[0], v.d[1], v.d[2]); }
static Val column(V3 const &p) { Val v = ml::mat(3, 1); v.d = {p.x, p.y, p.z}; return v; }
static Val matrix(acme::affine const &A) { Val v = ml::mat(4, 4); for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) v.d[size_t(c * 4 + r)] = A.matrix()(r, c); return v; }
static std::vector<double> cols(acme::affine const &A) { return matrix(A).d; }
template <class T> static T &nat(Val const &o) { if (!o.o->native) ml::merr("no object"); return *static_cast<T *>(o.o->native.get()); }
static Val make_point(ml::Interp &I, V3 const &v) {
  ml::OP o = I.fresh("acme_point"); auto n = std::make_shared<Point>(); n->p = acme::point(v.x, v.y, v.z);
  n->h = utils::mex_convert_ptr_to_mx<acme::point>(new acme::point(n->p));
  o->props["objectHandle"] = ml::Interp::from_mx(n->h); o->native = n; return ml::obj(o);
}
template <class T> static T const &by_handle(Val const &h) {
  mxArray *a = ml::Interp::to_mx(h); struct G { mxArray *a; ~G() { mexstub::destroy(a); } } g{a}; mxArray const *c = a;
  try { return *utils::mex_convert_mx_to_ptr<T>(c); } catch (mexstub::Error const &e) { ml::merr(e.msg); } catch (std::exception const &e) { ml::merr(e.what()); }
}
static void natives(ml::Interp &I) {
  using ml::Interp;
  I.natives["acme_point"] = [](Interp &J, Args const &a, int) -> Args { V3 v(std::nan(""), std::nan(""), std::nan("")); if (a.size() == 1) v = vec(a[0]); if (a.size() == 3) v = V3(ml::scalar(a[0]), ml::scalar(a[1]), ml::scalar(a[2])); return {make_point(J, v)}; };
  I.native_methods["acme_point.copyByHandle"] = [](Interp &, Val const &o, Args const &a, int) -> Args {
    if (a.size() != 1) ml::merr("a handle is expected");
    acme::point const &q = by_handle<acme::point>(a[0]); Point &p = nat<Point>(o); p.p = q; mxArray const *c = p.h; *utils::mex_convert_mx_to_ptr<acme::point>(c) = q; return {};
  };
  I.native_methods["acme_point.get"] = [](Interp &, Val const &o, Args const &, int) -> Args { acme::point &p = nat<Point>(o).p; return {column(V3(p[0], p[1], p[2]))}; };
  I.native_methods["acme_point.type"] = [](Interp &, Val const &, Args const &, int) -> Args { return {ml::text("point")}; };
  I.natives["acme_plane"] = [](Interp &J, Args const &a, int) -> Args {
    ml::OP o = J.fresh("acme_plane"); auto n = std::make_shared<Plane>();
    if (a.size() == 2) { V3 p = vec(a[0]), q = vec(a[1]); n->p = acme::plane(acme::point(p.x, p.y, p.z), acme::vec3(q.x, q.y, q.z)); }
    o->native = n; return {ml::obj(o)};
  };
  I.native_methods["acme_plane.copyByHandle"] = [](Interp &, Val const &o, Args const &a, int) -> Args { if (a.size() != 1) ml::merr("a handle is expected"); acme::plane const &q = by_handle<acme::plane>(a[0]); nat<Plane>(o).p = q; return {}; };
  I.native_methods["acme_plane.getOrigin"] = [](Interp &J, Val const &o, Args const &, int) -> Args { acme::plane const &q = nat<Plane>(o).p; return {make_point(J, V3(q.origin()[0], q.origin()[1], q.origin()[2]))}; };
  I.native_methods["acme_plane.getNormal"] = [](Interp &, Val const &o, Args const &, int) -> Args { acme::plane const &q = nat<Plane>(o).p; return {column(V3(q.normal()(0), q.normal()(1), q.normal()(2)))}; };
  I.native_methods["acme_plane.type"] = [](Interp &, Val const &, Args const &, int) -> Args { return {ml::text("plane")}; };
  I.native_methods["acme_plane.plot"] = [](Interp &, Val const &o, Args const &, int) -> Args { acme::plane const &q = nat<Plane>(o).p; PLOTTED.push_back({"plane", {q.origin()[0], q.origin()[1], q.origin()[2], q.normal()(0), q.normal()(1), q.normal()(2)}}); return {}; };
  I.natives["acme_triangle"] = [](Interp &J, Args const &a, int) -> Args { if (a.size() != 3 && a.size() != 0) ml::merr("three vertices are expected"); ml::OP o = J.fresh("acme_triangle"); auto n = std::make_shared<Triangle>(); for (size_t k = 0; k < a.size(); ++k) n->v[k] = vec(a[k]); o->native = n; return {ml::obj(o)}; };
  I.native_methods["acme_triangle.type"] = [](Interp &, Val const &, Args const &, int) -> Args { return {ml::text("triangle")}; };
  I.natives["acme_disk"] = [](Interp &J, Args const &a, int) -> Args { if (a.size() != 3) ml::unsup("disk"); ml::OP o = J.fresh("acme_disk"); auto n = std::make_shared<Disk>(); n->r = ml::scalar(a[0]); n->c = vec(a[1]); n->n = vec(a[2]); o->native = n; return {ml::obj(o)}; };
  I.native_methods["acme_disk.transform"] = [](Interp &, Val const &o, Args const &a, int) -> Args {
    if (a.size() != 1 || a[0].m != 4 || a[0].n != 4) ml::merr("a 4x4 matrix is expected"); Disk &d = nat<Disk>(o); auto const &t = a[0].d;
    auto lin = [&](V3 v) { return V3(t[0] * v.x + t[4] * v.y + t[8] * v.z, t[1] * v.x + t[5] * v.y + t[9] * v.z, t[2] * v.x + t[6] * v.y + t[10] * v.z); };
    d.c = lin(d.c) + V3(t[12], t[13], t[14]); d.n = lin(d.n); return {};
  };
  I.native_methods["acme_disk.plot"] = [](Interp &, Val const &o, Args const &, int) -> Args { Disk &d = nat<Disk>(o); PLOTTED.push_back({"disk", {d.r, d.c.x, d.c.y, d.c.z, d.n.x, d.n.y, d.n.z}}); return {}; };
}

// ------------------------------------------------------------------------------------------------ objects and twins
struct Shell { Val o; std::unique_ptr<enve::shell> c; };
struct Mesh { Val o; std::unique_ptr<enve::ground::mesh> c; };
struct Flat { Val o; std::unique_ptr<enve::ground::flat> c; };
struct Tg { Val o; std::unique_ptr<enve::triangleground> c; };
struct World { ml::Interp I; std::vector<Shell> S; std::vector<Mesh> G; std::vector<Flat> F; std::vector<Tg> T; std::string log; World() : I(PROTO) {} ~World() { S.clear(); G.clear(); F.clear(); T.clear(); } };
struct Stop {};                                             // something this interpreter does not know: no verdict

enum Got { GOOD, REFUSED, UNKNOWN };
static Got ask(World &w, std::string const &label, Val const &o, std::string const &method, Args const &a, int nout, Args &r, std::string *msg = nullptr) {
  M.seen("asked"); M.seen("method " + label);
  try { r = w.I.call_method(o, method, a, nout); return GOOD; }
  catch (ml::MErr const &e) { if (msg) *msg = e.msg; return REFUSED; }
  catch (ml::Unsup const &e) { M.seen("not known to this interpreter"); M.seen("unknown: " + e.msg.substr(0, 60)); return UNKNOWN; }
}
static bool value(World &w, std::string const &label, Val const &o, std::string const &method, Args const &a, Val &v) {
  Args r; std::string m;
  Got g = ask(w, label, o, method, a, 1, r, &m);
  if (g == REFUSED) M.fail("class-error", label + " refused: " + m);
  if (g != GOOD) return false;
  if (r.empty()) { M.fail("class-output", label + " gives nothing"); return false; }
  v = r[0]; return true;
}
static void same(std::string const &label, Val const &v, std::vector<double> const &e, size_t m, size_t n) {
  if (v.k != Val::NUM || v.m != m || v.n != n) { M.fail("class-shape", label + ": " + (v.k != Val::NUM ? "no number" : std::to_string(v.m) + "x" + std::to_string(v.n))); return; }
  std::string d = differ(label.c_str(), v.d, e, TOL); if (!d.empty()) M.fail("class-value", d);
  M.seen("values compared", long(e.size()));
}
static void number(World &w, std::string const &label, Val const &o, std::string const &method, Args const &a, std::vector<double> const &e, size_t m = 1, size_t n = 1) { Val v; if (value(w, label, o, method, a, v)) same(label, v, e, m, n); }
static std::vector<double> xyz(acme::point const &p) { return {p[0], p[1], p[2]}; }
static std::vector<double> xyz(acme::vec3 const &p) { return {p(0), p(1), p(2)}; }
static void is_point(std::string const &label, Val const &v, std::vector<double> const &e) {
  if (v.k != Val::OBJ || v.o->cls != "acme_point") { M.fail("class-shape", label + " is no point"); return; }
  std::string d = differ(label.c_str(), xyz(nat<Point>(v).p), e, TOL); if (!d.empty()) M.fail("class-value", d);
  M.seen("values compared", 3);
}
static void point(World &w, std::string const &label, Val const &o, std::string const &method, Args const &a, acme::point const &e) { Val v; if (value(w, label, o, method, a, v)) is_point(label, v, xyz(e)); }
static void list(World &w, std::string const &label, Val const &o, std::string const &method, size_t k, std::function<void(size_t, Val const &)> each) {
  Val v; if (!value(w, label, o, method, {}, v)) return;
  if (v.m * v.n != k || (k && v.m != 1) || (v.k != Val::CELL && v.k != Val::NUM)) { M.fail("class-shape", label + ": " + std::to_string(v.m) + "x" + std::to_string(v.n)); return; }
  for (size_t i = 0; i < k; ++i) each(i, v.k == Val::CELL ? v.c[i] : ml::num(v.d[i], v.cls));
}
static void does(World &w, std::string const &label, Val const &o, std::string const &method, Args const &a) {
  Args r; std::string m; Got g = ask(w, label, o, method, a, 0, r, &m);
  if (g == REFUSED) M.fail("class-error", label + " refused: " + m);
  if (g != GOOD) throw Stop();
}
static void shows(World &w, std::string const &label, Val const &o, std::string const &method, Args const &a) {
  Args r; std::string m; if (ask(w, label, o, method, a, 0, r, &m) == REFUSED) M.fail("class-error", label + " refused: " + m);
}
static void refused(World &w, std::string const &label, Val const &o, std::string const &method, Args const &a, int nout) {
  Args r; Got g = ask(w, label, o, method, a, nout, r);
  if (g == GOOD) { M.fail("class-accepted", label); throw Stop(); }
  if (g == REFUSED) M.seen("refused");
}
static bool construct(World &w, std::string const &cls, Args const &a, Val &o, std::string *msg) {
  M.seen("asked"); M.seen("new " + cls);
  try { Args r = w.I.call_fun(cls, a, 1, nullptr); o = r.at(0); if (o.k != Val::OBJ) M.fail("class-output", cls + " makes no object"); return true; }
  catch (ml::MErr const &e) { *msg = e.msg; return false; }
  catch (ml::Unsup const &e) { M.seen("not known to this interpreter"); M.seen("unknown: " + e.msg.substr(0, 60)); throw Stop(); }
}
static Val made(World &w, std::string const &cls, Args const &a) { Val o; std::string m; if (!construct(w, cls, a, o, &m)) { M.fail("class-error", "new " + cls + " refused: " + m); throw Stop(); } return o; }
static acme::point const &vertex(enve::triangleground const &t, size_t k) { return t.vertex(k); }

// ------------------------------------------------------------------------------------------------ reading
static void type(World &w, Val const &o, std::string const &is) {
  Val v; if (!value(w, is + " type", o, "type", {}, v)) return;
  if (!ml::is_text(v) || ml::str(v) != is) M.fail("class-value", "type of " + is);
}
static void shown(World &w, std::string const &what, std::vector<double> const &e) { // every value is in what was displayed
  std::vector<double> all; for (auto const &d : w.I.drawn) if (d.what == "disp" && d.args.size() == 1 && d.args[0].k == Val::NUM && !ml::is_text(d.args[0])) all.insert(all.end(), d.args[0].d.begin(), d.args[0].d.end());
  if (all.empty()) return;
  M.seen("displays judged");
  for (double x : e) { bool hit = false; for (double y : all) hit = hit || std::fabs(x - y) <= TOL * (1 + std::fabs(x)) || (std::isnan(x) && std::isnan(y)); if (!hit) { M.fail("class-shown", what + ": " + mon::num(x) + " is not shown"); return; } }
}
static void read_tg(World &w, Val const &o, enve::triangleground const &t, bool plots) {
  number(w, "triangleground getID", o, "getID", {}, {double(t.id())});
  number(w, "triangleground getFriction", o, "getFriction", {}, {t.friction()});
  for (size_t k = 0; k < 3; ++k) point(w, "triangleground getVertex" + std::to_string(k + 1), o, "getVertex" + std::to_string(k + 1), {}, vertex(t, k));
  number(w, "triangleground normal", o, "normal", {}, xyz(acme::vec3(t.normal())), 3, 1);
  type(w, o, "triangleground");
  Val v;
  if (value(w, "triangleground toTriangle", o, "toTriangle", {}, v)) {
    if (v.k != Val::OBJ || v.o->cls != "acme_triangle") M.fail("class-shape", "toTriangle gives no triangle");
    else { std::vector<double> g, e; for (size_t k = 0; k < 3; ++k) { V3 q = nat<Triangle>(v).v[k]; g.insert(g.end(), {q.x, q.y, q.z}); for (double x : xyz(vertex(t, k))) e.push_back(x); } std::string d = differ("toTriangle", g, e, TOL); if (!d.empty()) M.fail("class-value", d); }
  }
  if (!plots) return;
  w.I.drawn.clear(); shows(w, "triangleground plot", o, "plot", {ml::num(1), ml::text("red")});
  for (auto const &d : w.I.drawn) if (d.what == "patch" && d.args.size() >= 3) for (size_t x = 0; x < 3; ++x) { if (d.args[x].d.size() != 3) { M.fail("class-drawn", "a triangle of " + std::to_string(d.args[x].d.size())); continue; } M.seen("patches judged"); for (size_t k = 0; k < 3; ++k) if (d.args[x].d[k] != vertex(t, k)[Eigen::Index(x)]) { M.fail("class-drawn", "a vertex of a triangle is drawn elsewhere"); break; } }
  w.I.drawn.clear(); shows(w, "triangleground disp", o, "disp", {});
  { std::vector<double> e{double(t.id()), t.friction()}; for (size_t k = 0; k < 3; ++k) for (double x : xyz(vertex(t, k))) e.push_back(x); shown(w, "triangleground", e); }
}
static void read_flat(World &w, Flat &f, bool plots) {
  V3 n = to_v3(static_cast<acme::plane const &>(*f.c).normal());
  std::vector<double> pl = xyz(f.c->origin()); pl.insert(pl.end(), {n.x, n.y, n.z});
  point(w, "flat getOrigin", f.o, "getOrigin", {}, f.c->origin());
  number(w, "flat getNormal", f.o, "getNormal", {}, {n.x, n.y, n.z}, 3, 1);
  number(w, "flat getFriction", f.o, "getFriction", {}, {f.c->friction()});
  number(w, "flat isDegenerated", f.o, "isDegenerated", {}, {double(f.c->isDegenerated())});
  type(w, f.o, "flat");
  Val v;
  if (value(w, "flat getPlane", f.o, "getPlane", {}, v)) {
    if (v.k != Val::OBJ || v.o->cls != "acme_plane") M.fail("class-shape", "getPlane gives no plane");
    else { acme::plane const &q = nat<Plane>(v).p; std::vector<double> g = xyz(q.origin()); for (double x : xyz(acme::vec3(q.normal()))) g.push_back(x); std::string d = differ("getPlane", g, pl, TOL); if (!d.empty()) M.fail("class-value", d); }
  }
  if (!plots) return;
  PLOTTED.clear(); shows(w, "flat plot", f.o, "plot", {ml::num(1), ml::text("red")});
  for (auto const &d : PLOTTED) if (d.first == "plane") { M.seen("planes judged"); std::string e = differ("drawn plane", d.second, pl, TOL); if (!e.empty()) M.fail("class-drawn", e); }
  w.I.drawn.clear(); shows(w, "flat disp", f.o, "disp", {}); pl.push_back(f.c->friction()); shown(w, "flat", pl);
}
static void read_mesh(Rng &r, World &w, Mesh &m, bool plots) {
  size_t k = m.c->size();
  number(w, "mesh size", m.o, "size", {}, {double(k)});
  type(w, m.o, "mesh");
  for (int q = 0; q < 2 && k; ++q) {
    size_t i = q == 0 ? k - 1 : size_t(r.i(0, int(k) - 1));
    enve::triangleground const &t = *m.c->ptrTriangleground(i);
    std::vector<double> e; for (size_t j = 0; j < 3; ++j) for (double x : xyz(vertex(t, j))) e.push_back(x);
    Args at{ml::num(double(i + 1))};
    number(w, "mesh getTrianglegroundVertices", m.o, "getTrianglegroundVertices", at, e, 3, 3);
    number(w, "mesh getTriangleVertices", m.o, "getTriangleVertices", at, e, 3, 3);
    Val v;
    if (value(w, "mesh getTriangleground", m.o, "getTriangleground", at, v)) { if (v.k != Val::OBJ || v.o->cls != "enve_triangleground") M.fail("class-shape", "getTriangleground gives none"); else read_tg(w, v, t, false); }
    if (value(w, "mesh getTriangle", m.o, "getTriangle", at, v)) {
      if (v.k != Val::OBJ || v.o->cls != "acme_triangle") M.fail("class-shape", "getTriangle gives no triangle");
      else { std::vector<double> g; for (size_t j = 0; j < 3; ++j) { V3 p = nat<Triangle>(v).v[j]; g.insert(g.end(), {p.x, p.y, p.z}); } std::string d = differ("getTriangle", g, e, TOL); if (!d.empty()) M.fail("class-value", d); }
    }
  }
  if (!plots || k > 60) return;
  w.I.drawn.clear(); shows(w, "mesh plot", m.o, "plot", {ml::num(1), ml::text("red")});
  for (auto const &d : w.I.drawn) if (d.what == "patch" && d.args.size() >= 3) for (size_t x = 0; x < 3; ++x) {
    Val const &X = d.args[x]; if (X.m != 3 || X.n != k) { M.fail("class-drawn", "a mesh of " + std::to_string(X.m) + "x" + std::to_string(X.n)); continue; }
    M.seen("patches judged");
    for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < 3; ++j) if (X.d[i * 3 + j] != vertex(*m.c->ptrTriangleground(i), j)[Eigen::Index(x)]) { M.fail("class-drawn", "triangle " + std::to_string(i) + " is drawn elsewhere"); i = k - 1; break; }
  }
  shows(w, "mesh disp", m.o, "disp", {});
}
static const double SCALE = .5;
static void in_view(World &w, std::string const &what, acme::vec3 const &c, double R) { // the circle around c is within the limits
  if (c.hasNaN()) return;
  static char const *nm[] = {"xlim", "ylim", "zlim"};
  for (auto const &d : w.I.drawn) for (int k = 0; k < 3; ++k) if (d.what == nm[k] && d.args.size() == 1 && d.args[0].d.size() == 2) {
    double s = k == 1 ? 0 : R; M.seen("limits judged");
    if (!(d.args[0].d[0] <= c(k) - s + 1e-9 * R && d.args[0].d[1] >= c(k) + s - 1e-9 * R)) M.fail("class-drawn", what + ": " + nm[k] + " from " + mon::num(d.args[0].d[0]) + " to " + mon::num(d.args[0].d[1]) + " of " + mon::num(c(k)) + " and " + mon::num(s));
  }
}
static void arrows(World &w, std::string const &what, acme::affine const &A, size_t from) { // three axes at the place of A
  std::vector<double> g, e; size_t k = 0;
  for (size_t q = from; q < w.I.drawn.size(); ++q) { auto const &d = w.I.drawn[q]; if (d.what != "quiver3" || d.args.size() < 6 || k >= 3) continue; double by = d.args.size() == 7 && d.args[6].k == Val::NUM && d.args[6].d.size() == 1 && d.args[6].cls == mxDOUBLE_CLASS ? d.args[6].d[0] / SCALE : 1; for (size_t j = 0; j < 6; ++j) g.push_back(ml::scalar(d.args[j]) * (j < 3 ? 1 : by)); for (int j = 0; j < 3; ++j) e.push_back(A.matrix()(j, 3)); for (int j = 0; j < 3; ++j) e.push_back(A.matrix()(j, int(k))); ++k; }
  if (!k) return;
  M.seen("axes judged");
  std::string d = differ(what.c_str(), g, e, TOL); if (!d.empty()) M.fail("class-drawn", d);
}
static void on_surface(World &w, std::string const &what, enve::shell const &c, acme::affine const &A, Val const &X, Val const &Y, Val const &Z) {
  if (X.d.size() != Y.d.size() || X.d.size() != Z.d.size() || X.d.empty()) { M.fail("class-drawn", what + ": sizes"); return; }
  (void)w; double W = c.surfaceWidth(), R = c.surfaceMaxRadius(), far = 0; long n = 0; double lo = 0, hi = 0;
  acme::affine B = A.inverse();
  double big = std::fabs(A.translation().norm()) + R;
  for (size_t i = 0; i < X.d.size(); ++i) {
    acme::vec3 p = B * acme::vec3(X.d[i], Y.d[i], Z.d[i]);
    lo = std::min(lo, p(1)); hi = std::max(hi, p(1));
    if (std::fabs(p(1)) > .9 * W) continue;
    far = std::max(far, std::fabs(std::hypot(p(0), p(2)) - c.surfaceRadius(p(1)))); ++n;
  }
  M.seen("surfaces judged");
  if (!n) { M.fail("class-drawn", what + ": nothing near the middle"); return; }
  if (!(far < 1e-8 * big * (1 + R / W))) M.fail("class-drawn", what + ": " + mon::num(far) + " off the surface");
  if (std::fabs(lo + W) > 1e-9 * big || std::fabs(hi - W) > 1e-9 * big) M.fail("class-drawn", what + ": from " + mon::num(lo) + " to " + mon::num(hi) + " of " + mon::num(W));
}
static void read_shell(Rng &r, World &w, Shell &s, bool all) {
  enve::shell const &c = *s.c; Val const &o = s.o; acme::point p; acme::vec3 n; acme::affine A; double x; Val v;
  number(w, "shell size", o, "size", {}, {double(c.size())});
  number(w, "shell surfaceMaxRadius", o, "surfaceMaxRadius", {}, {c.surfaceMaxRadius()});
  number(w, "shell surfaceMaxWidth", o, "surfaceMaxWidth", {}, {c.surfaceMaxWidth()});
  number(w, "shell surfaceWidth", o, "surfaceWidth", {}, {c.surfaceWidth()});
  { double y = r.u(-1.2, 1.2) * c.surfaceWidth(); Args q{ml::num(y)};
    number(w, "shell surfaceWidthBound", o, "surfaceWidthBound", q, {double(c.checkWidthBound(y))});
    if (std::fabs(y) < .999 * c.surfaceWidth()) { number(w, "shell surfaceRadius", o, "surfaceRadius", q, {c.surfaceRadius(y)}); number(w, "shell surfaceDerivative", o, "surfaceDerivative", q, {c.surfaceDerivative(y)}); number(w, "shell surfaceAngle", o, "surfaceAngle", q, {c.surfaceAngle(y)}); } }
  number(w, "shell translation", o, "translation", {}, xyz(acme::vec3(c.translation())), 3, 1);
  { std::vector<double> d; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) d.push_back(c.rotation()(i, j)); number(w, "shell rotation", o, "rotation", {}, d, 3, 3); }
  number(w, "shell transformation", o, "transformation", {}, cols(c.transformation()), 4, 4);
  number(w, "shell x", o, "x", {}, xyz(acme::vec3(c.x())), 3, 1); number(w, "shell y", o, "y", {}, xyz(acme::vec3(c.y())), 3, 1); number(w, "shell z", o, "z", {}, xyz(acme::vec3(c.z())), 3, 1);
  c.eulerAngles(n); number(w, "shell eulerAngles", o, "eulerAngles", {}, xyz(n), 3, 1);
  c.contactPoint(p); point(w, "shell contactPointAvg", o, "contactPointAvg", {}, p);
  c.contactNormal(n); number(w, "shell contactNormalAvg", o, "contactNormalAvg", {}, xyz(n), 3, 1);
  c.contactDepth(x); number(w, "shell contactDepthAvg", o, "contactDepthAvg", {}, {x});
  c.contactFriction(x); number(w, "shell contactFrictionAvg", o, "contactFrictionAvg", {}, {x});
  c.contactArea(x); number(w, "shell contactAreaAvg", o, "contactAreaAvg", {}, {x});
  c.contactVolume(x); number(w, "shell contactVolumeAvg", o, "contactVolumeAvg", {}, {x});
  c.contactPointAffine(A); number(w, "shell contactPointAffineAvg", o, "contactPointAffineAvg", {}, cols(A), 4, 4);
  c.relativeAngles(n); number(w, "shell relativeAnglesAvg", o, "relativeAnglesAvg", {}, xyz(n), 3, 1);
  type(w, o, "shell");
  size_t k = c.size();
  for (size_t i = 0; i < k; ++i) {
    if (!all && i && i + 1 < k && r.p(.7)) continue;
    Args a{ml::num(double(i + 1))};
    number(w, "shell ribRadius", o, "ribRadius", a, {c.ribRadius(i)}); number(w, "shell ribWidth", o, "ribWidth", a, {c.ribWidth(i)}); point(w, "shell ribCenter", o, "ribCenter", a, c.ribCenter(i));
    c.contactPoint(i, p); point(w, "shell contactPointRib", o, "contactPointRib", a, p);
    c.contactNormal(i, n); number(w, "shell contactNormalRib", o, "contactNormalRib", a, xyz(n), 3, 1);
    c.contactDepth(i, x); number(w, "shell contactDepthRib", o, "contactDepthRib", a, {x});
    c.contactFriction(i, x); number(w, "shell contactFrictionRib", o, "contactFrictionRib", a, {x});
    c.contactArea(i, x); number(w, "shell contactAreaRib", o, "contactAreaRib", a, {x});
    c.contactVolume(i, x); number(w, "shell contactVolumeRib", o, "contactVolumeRib", a, {x});
    c.contactPointAffine(i, A); number(w, "shell contactPointAffineRib", o, "contactPointAffineRib", a, cols(A), 4, 4);
    c.relativeAngles(i, n); number(w, "shell relativeAnglesRib", o, "relativeAnglesRib", a, xyz(n), 3, 1);
  }
  if (!all && r.p(.5)) return;
  list(w, "shell contactPointVec", o, "contactPointVec", k, [&](size_t i, Val const &q) { c.contactPoint(i, p); is_point("contactPointVec", q, xyz(p)); });
  list(w, "shell contactNormalVec", o, "contactNormalVec", k, [&](size_t i, Val const &q) { c.contactNormal(i, n); same("contactNormalVec", q, xyz(n), 3, 1); });
  list(w, "shell contactDepthVec", o, "contactDepthVec", k, [&](size_t i, Val const &q) { c.contactDepth(i, x); same("contactDepthVec", q, {x}, 1, 1); });
  list(w, "shell contactFrictionVec", o, "contactFrictionVec", k, [&](size_t i, Val const &q) { c.contactFriction(i, x); same("contactFrictionVec", q, {x}, 1, 1); });
  list(w, "shell contactAreaVec", o, "contactAreaVec", k, [&](size_t i, Val const &q) { c.contactArea(i, x); same("contactAreaVec", q, {x}, 1, 1); });
  list(w, "shell contactVolumeVec", o, "contactVolumeVec", k, [&](size_t i, Val const &q) { c.contactVolume(i, x); same("contactVolumeVec", q, {x}, 1, 1); });
  list(w, "shell relativeAnglesVec", o, "relativeAnglesVec", k, [&](size_t i, Val const &q) { c.relativeAngles(i, n); same("relativeAnglesVec", q, xyz(n), 3, 1); });
  list(w, "shell contactPointAffineVec", o, "contactPointAffineVec", k, [&](size_t i, Val const &q) { c.contactPointAffine(i, A); same("contactPointAffineVec", q, cols(A), 4, 4); });
}
static void draw_shell(Rng &r, World &w, Shell &s) {
  enve::shell const &c = *s.c; Val const &o = s.o; Val fig = ml::num(1), red = ml::text("red"), sc = ml::num(SCALE), v; acme::affine A, T = c.transformation(), E; E.setIdentity();
  Pose P; P.R = rotation(r); P.t = V3(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2)); acme::affine B = to_affine(P);
  auto start = [&] { w.I.drawn.clear(); PLOTTED.clear(); };
  auto surfs = [&](std::string const &what, acme::affine const &at) { for (auto const &d : w.I.drawn) if (d.what == "surf" && d.args.size() >= 3) on_surface(w, what, c, at, d.args[0], d.args[1], d.args[2]); };
  auto ribs = [&](std::string const &what, acme::affine const &at) { // rings that follow the tangent at each rib
    std::vector<bool> hit(c.size(), false); size_t k = 0; acme::affine I = at.inverse(); double big = at.translation().norm() + c.surfaceMaxRadius();
    for (auto const &d : w.I.drawn) if (d.what == "surf" && d.args.size() >= 3) {
      ++k; double lo = 1e300, hi = -1e300; std::vector<std::pair<double, double>> q;
      for (size_t i = 0; i < d.args[0].d.size(); ++i) { acme::vec3 p = I * acme::vec3(d.args[0].d[i], d.args[1].d[i], d.args[2].d[i]); lo = std::min(lo, p(1)); hi = std::max(hi, p(1)); q.push_back({p(1), std::hypot(p(0), p(2))}); }
      for (size_t j = 0; j < c.size(); ++j) { double cy = c.ribCenter(j)[1]; if (std::fabs((lo + hi) / 2 - cy) > 1e-9 * big) continue; hit[j] = true;
        double dr = c.surfaceDerivative(cy), worst = std::fabs(hi - lo - c.ribWidth(j)); for (auto const &y : q) worst = std::max(worst, std::fabs(y.second - c.ribRadius(j) - dr * (y.first - cy)));
        if (!(worst < 1e-8 * big * (1 + std::fabs(dr)))) M.fail("class-drawn", what + ": rib " + std::to_string(j) + " is off by " + mon::num(worst)); }
    }
    if (!k) return;
    M.seen("drawn ribs judged");
    for (size_t j = 0; j < c.size(); ++j) if (!hit[j]) { M.fail("class-drawn", what + ": rib " + std::to_string(j) + " is missing"); break; }
  };
  auto disks = [&](std::string const &what, acme::affine const &at) {
    size_t k = 0;
    for (auto const &d : PLOTTED) if (d.first == "disk") { if (k < c.size()) { acme::vec3 p = at * acme::vec3(c.ribCenter(k)[0], c.ribCenter(k)[1], c.ribCenter(k)[2]), n = at.linear() * acme::vec3(0, 1, 0); std::string e = differ(what.c_str(), d.second, {c.ribRadius(k), p(0), p(1), p(2), n(0), n(1), n(2)}, 1e-12); if (!e.empty()) M.fail("class-drawn", e); } ++k; }
    if (k) { M.seen("drawn disks judged"); if (k != c.size()) M.fail("class-drawn", what + ": " + std::to_string(k) + " disks of " + std::to_string(c.size()) + " ribs"); }
  };
  switch (r.i(0, 12)) {
  case 0: start(); shows(w, "shell profile", o, "profile", {fig, red});
    for (auto const &d : w.I.drawn) if (d.what == "plot" && d.args.size() >= 2 && d.args[0].d.size() == d.args[1].d.size() && !d.args[0].d.empty()) {
      double W = c.surfaceWidth(), worst = 0; for (size_t i = 0; i < d.args[0].d.size(); ++i) { double y = d.args[0].d[i]; if (std::fabs(y) > W) { worst = std::max(worst, std::fabs(y) - W); continue; } worst = std::max(worst, std::fabs(d.args[1].d[i] - c.surfaceRadius(y))); }
      M.seen("profiles judged"); if (!(worst < 1e-12 * (c.surfaceMaxRadius() + W))) M.fail("class-drawn", "profile is off by " + mon::num(worst));
      if (std::fabs(d.args[0].d.front() + W) > 1e-9 || std::fabs(d.args[0].d.back() - W) > 1e-9 * W + 1e-9) M.fail("class-drawn", "profile from " + mon::num(d.args[0].d.front()) + " to " + mon::num(d.args[0].d.back())); }
    break;
  case 1: start(); shows(w, "shell shapeTplot", o, "shapeTplot", {matrix(B), fig, red, sc}); arrows(w, "shapeTplot", B, 0); surfs("shapeTplot", B); break;
  case 2: start(); shows(w, "shell shellShape", o, "shellShape", {fig, red, sc}); arrows(w, "shellShape", E, 0); in_view(w, "shellShape", acme::vec3(0, 0, 0), c.surfaceMaxRadius()); surfs("shellShape", E); break;
  case 3: start(); shows(w, "shell plotShape", o, "plotShape", {fig, red, sc}); arrows(w, "plotShape", T, 0); in_view(w, "plotShape", T.translation(), c.surfaceMaxRadius()); surfs("plotShape", T); break;
  case 4: start(); shows(w, "shell enveTplot", o, "enveTplot", {matrix(B), fig, red, sc}); arrows(w, "enveTplot", B, 0); ribs("enveTplot", B); break;
  case 5: start(); shows(w, "shell shellEnve", o, "shellEnve", {fig, red, sc}); arrows(w, "shellEnve", E, 0); in_view(w, "shellEnve", acme::vec3(0, 0, 0), c.surfaceMaxRadius()); ribs("shellEnve", E); break;
  case 6: start(); shows(w, "shell plotEnve", o, "plotEnve", {fig, red, sc}); arrows(w, "plotEnve", T, 0); in_view(w, "plotEnve", T.translation(), c.surfaceMaxRadius()); ribs("plotEnve", T); break;
  case 7: start(); shows(w, "shell ribsTplot", o, "ribsTplot", {matrix(B), fig, red, sc}); arrows(w, "ribsTplot", B, 0); disks("ribsTplot", B); break;
  case 8: start(); shows(w, "shell shellRibs", o, "shellRibs", {fig, red, sc}); arrows(w, "shellRibs", E, 0); in_view(w, "shellRibs", acme::vec3(0, 0, 0), c.surfaceMaxRadius()); disks("shellRibs", E); break;
  case 9: start(); shows(w, "shell plotRibs", o, "plotRibs", {fig, red, sc}); arrows(w, "plotRibs", T, 0); in_view(w, "plotRibs", T.translation(), c.surfaceMaxRadius()); disks("plotRibs", T); break;
  case 10: start(); shows(w, "shell plotSetupAvg", o, "plotSetupAvg", {fig, sc}); c.contactPointAffine(A); arrows(w, "plotSetupAvg", A, 0); in_view(w, "plotSetupAvg", A.translation(), c.surfaceMaxRadius()); break;
  case 11: { size_t i = size_t(r.i(0, int(c.size()) - 1)); start(); shows(w, "shell plotSetupRib", o, "plotSetupRib", {ml::num(double(i + 1)), fig, sc}); c.contactPointAffine(i, A); arrows(w, "plotSetupRib", A, 0); in_view(w, "plotSetupRib", A.translation(), c.surfaceMaxRadius());
    start(); shows(w, "shell plotSetupVec", o, "plotSetupVec", {fig, sc});
    std::vector<size_t> at; for (size_t q = 0; q < w.I.drawn.size(); ++q) if (w.I.drawn[q].what == "quiver3") at.push_back(q);
    if (!at.empty() && at.size() != 3 * c.size()) M.fail("class-drawn", std::to_string(at.size()) + " axes of " + std::to_string(c.size()) + " ribs");
    else for (size_t q = 0; q < c.size() && !at.empty(); ++q) { c.contactPointAffine(q, A); arrows(w, "plotSetupVec", A, at[3 * q]); }
    break; }
  default:
    if (value(w, "shell meshShell", o, "meshShell", {}, v)) { if (v.k != Val::STRUCT || !v.s->count("X") || !v.s->count("Y") || !v.s->count("Z")) M.fail("class-shape", "meshShell gives no grid"); else on_surface(w, "meshShell", c, E, (*v.s)["X"], (*v.s)["Y"], (*v.s)["Z"]); }
    w.I.drawn.clear(); shows(w, "shell disp", o, "disp", {}); shown(w, "shell", {double(c.size())});
  }
}
static void read_all(Rng &r, World &w, bool all) {
  for (auto &s : w.S) read_shell(r, w, s, all);
  for (auto &m : w.G) read_mesh(r, w, m, all);
  for (auto &f : w.F) read_flat(w, f, all);
  for (auto &t : w.T) read_tg(w, t.o, *t.c, all);
}

// ------------------------------------------------------------------------------------------------ changing
static std::string write_mesh(std::vector<Tri> const &T, bool rdf, std::string const &name) {
  std::string p = M.scratch + "/" + name + (rdf ? ".rdf" : ".obj"); std::ofstream f(p);
  if (rdf) f << "[NODES]\n";
  for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 3; ++k) { if (rdf) f << 3 * i + size_t(k) << " "; else f << "v "; f << mon::num(T[i].v[k].x) << " " << mon::num(T[i].v[k].y) << " " << mon::num(T[i].v[k].z) << "\n"; }
  if (rdf) f << "[ELEMENTS]\n";
  for (size_t i = 0; i < T.size(); ++i) { if (rdf) f << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << mon::num(T[i].mu) << "\n"; else f << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n"; }
  return p;
}
static Tri any_tri(Rng &r) { std::vector<Tri> T; while (T.empty()) { T.push_back(tri(V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), friction(r))); finish(r, T); } return T[0]; }
static void new_shell(World &w, Wheel const &q) {
  w.log += " new " + str(q) + ";";
  Val o = made(w, "enve_shell", {ml::num(q.n), ml::num(q.Rx), ml::num(q.Mx), ml::num(q.Ry), ml::num(q.My), ml::num(q.Ly)});
  w.S.push_back({o, make_shell(q)});
}
static void new_mesh(Rng &r, World &w, std::vector<Tri> const &T) {
  int form = r.i(0, 3); std::string p = write_mesh(T, form < 2, "x" + std::to_string(w.G.size()));
  Pose P; if (r.p(.5)) { P.R = rotation(r); P.t = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); }
  acme::affine A = to_affine(P); double mu = friction(r);
  w.log += " new mesh form " + std::to_string(form) + " " + str(P) + " " + str(T, 3) + ";";
  std::unique_ptr<enve::ground::mesh> m(new enve::ground::mesh()); Args a{ml::text(p)};
  if (form == 0) m->load(p);
  else if (form == 1) { a.push_back(matrix(A)); m->load(p, A); }
  else if (form == 2) { a.push_back(ml::num(mu)); m->load(p, mu); }
  else { a.push_back(ml::num(mu)); a.push_back(matrix(A)); m->load(p, mu, A); }
  Val o = made(w, "enve_mesh", a);
  w.G.push_back({o, std::move(m)});
}
static void new_flat(Rng &r, World &w, V3 o, V3 n) {
  double mu = friction(r); w.log += " new flat " + str(o) + str(n) + ";";
  Val q = made(w, "enve_flat", {ml::num(mu), column(o), column(n)});
  w.F.push_back({q, std::unique_ptr<enve::ground::flat>(new enve::ground::flat(mu, o.x, o.y, o.z, n.x, n.y, n.z))});
}
static void new_tg(Rng &r, World &w) {
  Tri t = any_tri(r); int id = r.i(-1000, 100000); w.log += " new triangleground " + std::to_string(id) + ";";
  Val q = made(w, "enve_triangleground", {ml::num(id), ml::num(t.mu), column(t.v[0]), column(t.v[1]), column(t.v[2])});
  w.T.push_back({q, std::unique_ptr<enve::triangleground>(new enve::triangleground(id, t.mu, to_point(t.v[0]), to_point(t.v[1]), to_point(t.v[2])))});
}
static void sequence(Rng &r, World &w) {
  mon::Quiet quiet;
  Scene sc = mesh_scene(r, -1, false);
  if (sc.T.empty()) sc.T.push_back(any_tri(r));
  if (sc.T.size() > 80) sc.T.resize(80);
  if (sc.w.n > 12) sc.w.n = r.i(1, 12);
  M.describe = [&w] { return w.log; };
  new_shell(w, sc.w); if (r.p(.3)) new_shell(w, sc.w);
  new_mesh(r, w, sc.T);
  { V3 n = normal_up(r, .5); new_flat(r, w, sc.P.t - n * (sc.w.Rx * r.u(.7, 1.02)), n * r.logu(.1, 10)); }
  new_tg(r, w);
  read_all(r, w, true);
  int steps = r.i(1, 8);
  for (int q = 0; q < steps; ++q) {
    Shell &s = w.S[size_t(r.i(0, int(w.S.size()) - 1))]; Flat &f = w.F[size_t(r.i(0, int(w.F.size()) - 1))];
    Mesh &m = w.G[size_t(r.i(0, int(w.G.size()) - 1))]; Tg &t = w.T[size_t(r.i(0, int(w.T.size()) - 1))];
    switch (r.i(0, 15)) {
    case 0: case 1: case 2: case 3: {
      Pose P = sc.P; P.t = P.t + V3(r.u(-.1, .1), r.u(-.1, .1), r.u(-.1, .1)) * sc.w.Rx;
      acme::affine A = to_affine(P); std::string method = r.p(.5) ? "geometric" : "sampling"; bool flat = r.p(.5);
      if (r.p(.1)) method = r.pick<std::string>({"", "Geometric", "none"});
      w.log += " setup " + method + (flat ? " flat " : " mesh ") + str(P) + ";";
      bool threw = false, ret = false;
      try { ret = flat ? s.c->setup(*f.c, A, method) : s.c->setup(*m.c, A, method); } catch (std::exception const &) { threw = true; }
      Args a{flat ? f.o : m.o, matrix(A), ml::text(method)};
      std::string nm = flat ? "setupFlat" : "setupMesh";
      if (threw) { refused(w, nm + " of method " + method, s.o, nm, a, 1); break; }
      Val v; if (!value(w, "shell " + nm, s.o, nm, a, v)) throw Stop();
      same(nm, v, {double(ret)}, 1, 1); M.seen(std::string("setup ") + (flat ? "flat " : "mesh ") + (ret ? "contact" : "air"));
      break; }
    case 4: { int n = r.i(1, 9); w.log += " resize " + std::to_string(n) + ";"; s.c->resize(size_t(n)); does(w, "shell resize", s.o, "resize", {ml::num(n)}); break; }
    case 5: { V3 v(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); w.log += " translate;"; s.c->translate(to_vec(v)); does(w, "shell translate", s.o, "translate", {column(v)}); break; }
    case 6: { V3 v = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)).unit(); double a = r.u(-3, 3); w.log += " rotate;"; s.c->rotate(a, to_vec(v)); does(w, "shell rotate", s.o, "rotate", {ml::num(a), column(v)}); break; }
    case 7: { Pose P; P.R = rotation(r); P.t = place(r); w.log += " transform;"; s.c->transform(to_affine(P)); does(w, "shell transform", s.o, "transform", {matrix(to_affine(P))}); break; }
    case 8: { V3 v(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); w.log += " setOrigin;"; f.c->origin() = to_point(v); does(w, "flat setOrigin", f.o, "setOrigin", {column(v)}); break; }
    case 9: { V3 v = normal_up(r, 1.2); w.log += " setNormal;"; f.c->normal() = to_vec(v); does(w, "flat setNormal", f.o, "setNormal", {column(v)}); break; }
    case 10: { double mu = friction(r); w.log += " setFriction;"; f.c->friction() = mu; does(w, "flat setFriction", f.o, "setFriction", {ml::num(mu)}); break; }
    case 11: { // as another one is
      int k = r.i(0, 4); w.log += " copy " + std::to_string(k) + ";";
      if (k == 0) {
        if (w.F.size() < 2) new_flat(r, w, V3(1, 2, 3), normal_up(r, .3));
        Flat &a = w.F[0], &b = w.F.back();
        number(w, "flat isApprox", a.o, "isApprox", {b.o}, {double(a.c->isApprox(*b.c))});
        a.c->copy(*b.c); does(w, "flat copy", a.o, "copy", {b.o});
        number(w, "flat isApprox", a.o, "isApprox", {b.o}, {double(a.c->isApprox(*b.c))});
      } else if (k == 1) {
        V3 o(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), n = normal_up(r, 1.0); acme::plane pl(to_point(o), to_vec(n));
        Val q = w.I.call_fun("acme_plane", {column(o), column(n)}, 1, nullptr)[0];
        f.c->origin() = pl.origin(); f.c->normal() = pl.normal(); does(w, "flat setPlane", f.o, "setPlane", {q});
      } else if (k == 2) {
        if (w.T.size() < 2) new_tg(r, w);
        Tg &a = w.T[0], &b = w.T.back(); a.c->copy(*b.c); if (r.p(.5)) does(w, "triangleground copy", a.o, "copy", {b.o}); else does(w, "triangleground copyByHandle", a.o, "copyByHandle", {b.o.o->props["objectHandle"]});
      } else if (k == 3) {
        std::vector<Tri> T; int n = r.i(1, 5); for (int z = 0; z < n; ++z) T.push_back(any_tri(r));
        if (w.G.size() < 2) new_mesh(r, w, T);
        Mesh &a = w.G[0], &b = w.G.back(); a.c->copy(*b.c); if (r.p(.5)) does(w, "mesh copy", a.o, "copy", {b.o}); else does(w, "mesh copyByHandle", a.o, "copyByHandle", {b.o.o->props["objectHandle"]});
      } else {
        if (w.F.size() < 2) new_flat(r, w, V3(1, 2, 3), normal_up(r, .3));
        Flat &a = w.F[0], &b = w.F.back(); a.c->copy(*b.c); does(w, "flat copyByHandle", a.o, "copyByHandle", {b.o.o->props["objectHandle"]});
      }
      break; }
    case 12: { // a vertex is moved
      size_t k = size_t(r.i(0, 2)); V3 v(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); acme::point p[3] = {vertex(*t.c, 0), vertex(*t.c, 1), vertex(*t.c, 2)};
      p[k] = to_point(v); if ((p[1] - p[0]).cross(p[2] - p[0]).norm() < 1e-3) break;
      w.log += " setVertex" + std::to_string(k + 1) + ";";
      t.c->copy(enve::triangleground(t.c->id(), t.c->friction(), p[0], p[1], p[2]));
      does(w, "triangleground setVertex" + std::to_string(k + 1), t.o, "setVertex" + std::to_string(k + 1), {make_point(w.I, v)});
      break; }
    case 13: { // what must be refused, and change nothing
      w.log += " refused;";
      switch (r.i(0, 8)) {
      case 0: refused(w, "flat isApprox of a mesh", f.o, "isApprox", {m.o}, 1); break;
      case 1: refused(w, "flat copy of a mesh", f.o, "copy", {m.o}, 0); break;
      case 2: refused(w, "mesh copy of a flat", m.o, "copy", {f.o}, 0); break;
      case 3: refused(w, "triangleground copy of a flat", t.o, "copy", {f.o}, 0); break;
      case 4: refused(w, "setupFlat on a mesh", s.o, "setupFlat", {m.o, matrix(s.c->transformation()), ml::text("geometric")}, 1); break;
      case 5: refused(w, "setupMesh on a flat", s.o, "setupMesh", {f.o, matrix(s.c->transformation()), ml::text("geometric")}, 1); break;
      case 6: refused(w, "translate by a row", s.o, "translate", {ml::mat(1, 3, 1)}, 0); break;
      case 7: refused(w, "flat setNormal of two", f.o, "setNormal", {ml::mat(2, 1, 1)}, 0); break;
      default: refused(w, "mesh copy of a triangle", m.o, "copy", {t.o}, 0); break;
      }
      break; }
    case 14: { // no ground at all
      Args a; std::string what; int k = r.i(0, 4);
      std::string rdf = write_mesh({any_tri(r)}, true, "r"), obj = write_mesh({any_tri(r)}, false, "o");
      if (k == 0) { a = {ml::text(M.scratch + "/none.rdf")}; what = "no file"; }
      else if (k == 1) { std::string p = M.scratch + "/file.txt"; std::ofstream(p) << "v 0 0 0\n"; a = {ml::text(p)}; what = "another kind of file"; }
      else if (k == 2) { a = {ml::text(rdf), ml::num(.5), matrix(s.c->transformation())}; what = "friction for rdf"; }
      else if (k == 3) { a = {ml::text(obj), ml::mat(2, 2, .5)}; what = "four frictions"; }
      else { a = {ml::text(obj), ml::num(.5), ml::mat(3, 3, 1)}; what = "pose of 3x3"; }
      w.log += " refused new mesh: " + what + ";";
      Val o; std::string msg;
      if (construct(w, "enve_mesh", a, o, &msg)) M.fail("class-accepted", "new mesh: " + what); else M.seen("new mesh refused");
      break; }
    default: { // one less
      int k = r.i(0, 4); w.log += " delete " + std::to_string(k) + ";";
      if (k == 0 && w.F.size() > 1) { if (r.p(.5)) does(w, "flat delete", w.F.back().o, "delete", {}); w.F.pop_back(); }
      if (k == 1 && w.G.size() > 1) { if (r.p(.5)) does(w, "mesh delete", w.G.back().o, "delete", {}); w.G.pop_back(); }
      if (k == 2 && w.T.size() > 1) { if (r.p(.5)) does(w, "triangleground delete", w.T.back().o, "delete", {}); w.T.pop_back(); }
      if (k == 3 && w.S.size() > 1) { if (r.p(.5)) does(w, "shell delete", w.S.back().o, "delete", {}); w.S.pop_back(); }
      if (k == 4) { long l = mexstub::st().locks; size_t at = w.F.size(); new_flat(r, w, V3(0, 0, 0), V3(0, 0, 1)); w.F.resize(at); if (mexstub::st().locks != l) M.fail("class-life", "an object that is gone keeps its C++ object"); else M.seen("lives judged"); }
      break; }
    }
    if (r.p(.5) && !w.S.empty()) draw_shell(r, w, w.S[size_t(r.i(0, int(w.S.size()) - 1))]);
    read_all(r, w, false);
  }
  read_all(r, w, true);
}
static void classes(Rng &r) {
  {
    World w;
    try { sequence(r, w); M.seen("sequences ended"); }
    catch (Stop const &) { M.seen("sequences left"); }
    catch (ml::MErr const &e) { M.fail("harness", "error outside a call: " + e.msg); }
    catch (ml::Unsup const &) { M.seen("sequences left"); }
    M.eval(mon::hash_str(w.log), true); M.seen("sequences"); M.describe = nullptr;
  }
  mexstub::st().locks = 0;
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  natives(PROTO);
  PROTO.mex["mex_shell"] = mex_shell; PROTO.mex["mex_mesh"] = mex_mesh; PROTO.mex["mex_flat"] = mex_flat; PROTO.mex["mex_triangleground"] = mex_triangleground;
  for (char const *c : {"enve_shell", "enve_mesh", "enve_flat", "enve_triangleground"}) {
    try { PROTO.load(M.repo + "/toolbox/lib/" + c + ".m"); M.seen("classes read"); }
    catch (ml::Unsup const &e) { M.seen("not known to this interpreter"); M.seen(std::string("unknown: ") + c + ": " + e.msg.substr(0, 60)); }
  }
  M.run("classes", 600, 4000, [](Rng &r) { classes(r); });
  return M.finish();
}
