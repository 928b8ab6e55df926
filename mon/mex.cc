// The MATLAB bindings give what the C++ objects give: every command against a C++ object that is changed alongside.
#include "alloc.hh"
#include "snap.hh"
#include "mexstub.hh"
#include "mex_utils.hh"
using namespace gen;
using mexstub::Result;
static mon::Mon M;
extern "C" {
void mex_flat(int, mxArray *[], int, mxArray const *[]);
void mex_mesh(int, mxArray *[], int, mxArray const *[]);
void mex_shell(int, mxArray *[], int, mxArray const *[]);
void mex_triangleground(int, mxArray *[], int, mxArray const *[]);
}
typedef std::vector<mxArray *> Args;
static const double TOL = 1e-13;

struct Call {
  Args own; Result r;
  ~Call() { for (mxArray *a : own) mexstub::destroy(a); for (mxArray *a : r.out) mexstub::destroy(a); }
};
static mxArray *T_(std::string const &s) { return mexstub::text(s); }
static mxArray *D_(double v) { return mexstub::scalar(mxDOUBLE_CLASS, v); }
static mxArray *H_(uint64_t h) { return mexstub::scalar(mxUINT64_CLASS, h); }
static mxArray *V_(V3 const &v) { return mexstub::doubles(3, 1, {v.x, v.y, v.z}); }
static mxArray *A_(acme::affine const &A) {
  std::vector<double> d;
  for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) d.push_back(A.matrix()(r, c));
  return mexstub::doubles(4, 4, d);
}
// an integer in any of the numeric classes that can hold it
static mxArray *I_(Rng &r, long v) {
  for (;;) switch (r.i(0, 9)) {
    case 0: if (v >= -128 && v <= 127) return mexstub::scalar(mxINT8_CLASS, int8_t(v)); break;
    case 1: if (v >= 0 && v <= 255) return mexstub::scalar(mxUINT8_CLASS, uint8_t(v)); break;
    case 2: if (v >= -32768 && v <= 32767) return mexstub::scalar(mxINT16_CLASS, int16_t(v)); break;
    case 3: if (v >= 0 && v <= 65535) return mexstub::scalar(mxUINT16_CLASS, uint16_t(v)); break;
    case 4: return mexstub::scalar(mxINT32_CLASS, int32_t(v));
    case 5: if (v >= 0) return mexstub::scalar(mxUINT32_CLASS, uint32_t(v)); break;
    case 6: return mexstub::scalar(mxINT64_CLASS, int64_t(v));
    case 7: if (v >= 0) return mexstub::scalar(mxUINT64_CLASS, uint64_t(v)); break;
    case 8: if (v > -(1 << 24) && v < (1 << 24)) return mexstub::scalar(mxSINGLE_CLASS, float(v)); break;
    default: return D_(double(v));
  }
}
static void go(Call &c, mexstub::Fun f, int nlhs, Args in) {
  c.own = in;
  std::vector<mxArray const *> a(in.begin(), in.end());
  c.r = mexstub::call(f, nlhs, a);
}

struct Exp { enum K { NONE, VAL, POINT, PLANE, TRI } k; mxClassID cls; mwSize m, n; std::vector<double> v; };
static Exp val(std::vector<double> v, mwSize m = 1, mwSize n = 1, mxClassID c = mxDOUBLE_CLASS) { return Exp{Exp::VAL, c, m, n, v}; }
static std::vector<double> xyz(acme::point const &p) { return {p[0], p[1], p[2]}; }
static std::vector<double> xyz(acme::vec3 const &p) { return {p(0), p(1), p(2)}; }
static std::vector<double> cols(acme::affine const &A) { std::vector<double> d; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) d.push_back(A.matrix()(r, c)); return d; }

static std::vector<double> read_handle(mxArray *a, Exp::K k) { // and gives the object back
  std::vector<double> v;
  mxArray const *c = a;
  if (k == Exp::POINT) { v = xyz(*utils::mex_convert_mx_to_ptr<acme::point>(c)); utils::mex_destroy_object<acme::point>(c); }
  else if (k == Exp::PLANE) { acme::plane *p = utils::mex_convert_mx_to_ptr<acme::plane>(c); v = xyz(p->origin()); for (double x : xyz(p->normal())) v.push_back(x); utils::mex_destroy_object<acme::plane>(c); }
  return v;
}
static void judge(std::string const &cmd, Call &c, Exp const &e) {
  M.seen("cmd " + cmd);
  if (c.r.error) { M.fail("mex-error", cmd + " refused: " + c.r.msg); return; }
  if (e.k == Exp::NONE) { if (!c.r.out.empty()) M.fail("mex-output", cmd + " has an output"); return; }
  if (c.r.out.empty()) { M.fail("mex-output", cmd + " has no output"); return; }
  mxArray *o = c.r.out[0];
  std::vector<double> g;
  if (e.k == Exp::VAL) {
    if (o->dims.size() != 2 || o->dims[0] != e.m || o->dims[1] != e.n) { M.fail("mex-shape", cmd + ": " + std::to_string(o->dims[0]) + "x" + std::to_string(o->dims[1])); return; }
    if (e.cls == mxLOGICAL_CLASS ? (o->cls != mxLOGICAL_CLASS) : (o->cls < mxDOUBLE_CLASS)) { M.fail("mex-class", cmd + ": " + mxGetClassName(o)); return; }
    for (size_t i = 0; i < mexstub::numel(o); ++i) g.push_back(mexstub::value(o, i));
  } else {
    try { g = read_handle(o, e.k); }
    catch (mexstub::Error const &x) { M.fail("mex-handle", cmd + ": " + x.msg); return; }
  }
  std::string d = differ(cmd.c_str(), g, e.v, TOL);
  if (!d.empty()) M.fail("mex-value", d);
}

struct Shell { uint64_t h; std::unique_ptr<enve::shell> c; };
struct Mesh { uint64_t h; std::unique_ptr<enve::ground::mesh> c; };
struct Flat { uint64_t h; std::unique_ptr<enve::ground::flat> c; };
struct Tg { uint64_t h; std::unique_ptr<enve::triangleground> c; };
static uint64_t handle(Call const &c) { return *static_cast<uint64_t *>(c.r.out[0]->data); }
static bool made(std::string const &cmd, Call const &c) {
  M.seen("cmd " + cmd);
  if (c.r.error) { M.fail("mex-error", cmd + " refused: " + c.r.msg); return false; }
  if (c.r.out.size() != 1 || c.r.out[0]->cls != mxUINT64_CLASS || mexstub::numel(c.r.out[0]) != 1) { M.fail("mex-output", cmd + " gives no handle"); return false; }
  return true;
}

static std::string write_mesh(std::vector<Tri> const &T, bool rdf, std::string const &name) {
  std::string p = M.scratch + "/" + name + (rdf ? ".rdf" : ".obj");
  std::ofstream f(p);
  if (rdf) f << "[NODES]\n";
  for (size_t i = 0; i < T.size(); ++i) for (int k = 0; k < 3; ++k) {
    if (rdf) f << 3 * i + size_t(k) << " "; else f << "v ";
    f << mon::num(T[i].v[k].x) << " " << mon::num(T[i].v[k].y) << " " << mon::num(T[i].v[k].z) << "\n";
  }
  if (rdf) f << "[ELEMENTS]\n";
  for (size_t i = 0; i < T.size(); ++i) {
    if (rdf) f << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << mon::num(T[i].mu) << "\n";
    else f << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n";
  }
  return p;
}

struct World {
  std::vector<Shell> S; std::vector<Mesh> G; std::vector<Flat> F; std::vector<Tg> T;
  std::string log;
  ~World() {                                       // whatever is left
    for (auto &o : S) end(mex_shell, o.h);
    for (auto &o : G) end(mex_mesh, o.h);
    for (auto &o : F) end(mex_flat, o.h);
    for (auto &o : T) end(mex_triangleground, o.h);
  }
  void end(mexstub::Fun f, uint64_t h) { Call c; go(c, f, 0, {T_("delete"), H_(h)}); judge("delete", c, Exp{Exp::NONE, mxDOUBLE_CLASS, 0, 0, {}}); }
  size_t size() const { return S.size() + G.size() + F.size() + T.size(); }
};

// ------------------------------------------------------------------------------------------------ reading everything
static std::vector<double> tri_values(enve::triangleground const &t) { std::vector<double> v; for (int k = 0; k < 3; ++k) for (double x : xyz(t.vertex(size_t(k)))) v.push_back(x); return v; }
static void read_tg(Tg &t) {
  auto ask = [&](std::string const &cmd, Exp e) { Call c; go(c, mex_triangleground, 1, {T_(cmd), H_(t.h)}); judge("triangleground " + cmd, c, e); };
  ask("getID", val({double(t.c->id())}));
  ask("getFriction", val({t.c->friction()}));
  for (int k = 0; k < 3; ++k) ask("getVertex" + std::to_string(k + 1), Exp{Exp::POINT, mxUINT64_CLASS, 1, 1, xyz(static_cast<enve::triangleground const &>(*t.c).vertex(size_t(k)))});
  ask("normal", val(xyz(acme::vec3(t.c->normal())), 3, 1));
}
static void read_flat(Flat &f) {
  auto ask = [&](std::string const &cmd, Exp e) { Call c; go(c, mex_flat, 1, {T_(cmd), H_(f.h)}); judge("flat " + cmd, c, e); };
  std::vector<double> pl = xyz(f.c->origin()); for (double x : xyz(f.c->normal())) pl.push_back(x);
  ask("getOrigin", Exp{Exp::POINT, mxUINT64_CLASS, 1, 1, xyz(f.c->origin())});
  ask("getNormal", val(xyz(acme::vec3(static_cast<acme::plane const &>(*f.c).normal())), 3, 1));
  ask("getPlane", Exp{Exp::PLANE, mxUINT64_CLASS, 1, 1, pl});
  ask("getFriction", val({f.c->friction()}));
  ask("isDegenerated", val({double(f.c->isDegenerated())}, 1, 1, mxLOGICAL_CLASS));
}
static void read_mesh(Rng &r, Mesh &m) {
  { Call c; go(c, mex_mesh, 1, {T_("size"), H_(m.h)}); judge("mesh size", c, val({double(m.c->size())})); }
  for (int q = 0; q < 3 && m.c->size(); ++q) {
    int i = q == 0 ? 0 : q == 1 ? int(m.c->size()) - 1 : r.i(0, int(m.c->size()) - 1);
    auto const &t = *m.c->ptrTriangleground(size_t(i));
    { Call c; go(c, mex_mesh, 1, {T_("getTrianglegroundVertices"), H_(m.h), I_(r, i + 1)}); judge("mesh getTrianglegroundVertices", c, val(tri_values(t), 3, 3)); }
    Call c; go(c, mex_mesh, 1, {T_("getTriangleground"), H_(m.h), I_(r, i + 1)});
    if (!made("mesh getTriangleground", c)) continue;
    Tg x{handle(c), std::unique_ptr<enve::triangleground>(new enve::triangleground())};
    x.c->copy(t);
    read_tg(x);
    Call d; go(d, mex_triangleground, 0, {T_("delete"), H_(x.h)}); judge("triangleground delete", d, Exp{Exp::NONE, mxDOUBLE_CLASS, 0, 0, {}});
  }
}
static void read_shell(Rng &r, Shell &s, bool all) {
  enve::shell const &c = *s.c;
  auto ask = [&](std::string const &cmd, Exp e) { Call k; go(k, mex_shell, 1, {T_(cmd), H_(s.h)}); judge("shell " + cmd, k, e); };
  auto askw = [&](std::string const &cmd, mxArray *w, Exp e) { Call k; go(k, mex_shell, 1, {T_(cmd), H_(s.h), w}); judge("shell " + cmd, k, e); };
  acme::point p; acme::vec3 n; acme::affine A; double x;
  ask("size", val({double(c.size())}));
  ask("surfaceMaxRadius", val({c.surfaceMaxRadius()})); ask("surfaceMaxWidth", val({c.surfaceMaxWidth()})); ask("surfaceWidth", val({c.surfaceWidth()}));
  for (int q = 0; q < 2; ++q) {
    double y = r.u(-1.2, 1.2) * c.surfaceWidth();
    askw("checkWidthBound", D_(y), val({double(c.checkWidthBound(y))}));
    if (std::fabs(y) > .999 * c.surfaceWidth()) continue;
    askw("surfaceRadius", D_(y), val({c.surfaceRadius(y)})); askw("surfaceDerivative", D_(y), val({c.surfaceDerivative(y)})); askw("surfaceAngle", D_(y), val({c.surfaceAngle(y)}));
  }
  ask("translation", val(xyz(acme::vec3(c.translation())), 3, 1));
  { std::vector<double> d; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) d.push_back(c.rotation()(i, j)); ask("rotation", val(d, 3, 3)); }
  ask("transformation", val(cols(c.transformation()), 4, 4));
  ask("x", val(xyz(acme::vec3(c.x())), 3, 1)); ask("y", val(xyz(acme::vec3(c.y())), 3, 1)); ask("z", val(xyz(acme::vec3(c.z())), 3, 1));
  c.eulerAngles(n); ask("eulerAngles", val(xyz(n), 3, 1));
  c.contactPoint(p); ask("contactPointAvg", Exp{Exp::POINT, mxUINT64_CLASS, 1, 1, xyz(p)});
  c.contactNormal(n); ask("contactNormalAvg", val(xyz(n), 3, 1));
  c.contactDepth(x); ask("contactDepthAvg", val({x}));
  c.contactFriction(x); ask("contactFrictionAvg", val({x}));
  c.contactArea(x); ask("contactAreaAvg", val({x}));
  c.contactVolume(x); ask("contactVolumeAvg", val({x}));
  c.contactPointAffine(A); ask("contactPointAffineAvg", val(cols(A), 4, 4));
  c.relativeAngles(n); ask("relativeAnglesAvg", val(xyz(n), 3, 1));
  for (size_t i = 0; i < c.size(); ++i) {
    if (!all && i && i + 1 < c.size() && r.p(.6)) continue;
    auto rib = [&](std::string const &cmd, Exp e) { askw(cmd, I_(r, long(i) + 1), e); };
    rib("ribRadius", val({c.ribRadius(i)})); rib("ribWidth", val({c.ribWidth(i)})); rib("ribAngle", val({c.ribAngle(i)}));
    rib("ribCenter", Exp{Exp::POINT, mxUINT64_CLASS, 1, 1, xyz(c.ribCenter(i))});
    c.contactPoint(i, p); rib("contactPointRib", Exp{Exp::POINT, mxUINT64_CLASS, 1, 1, xyz(p)});
    c.contactNormal(i, n); rib("contactNormalRib", val(xyz(n), 3, 1));
    c.contactDepth(i, x); rib("contactDepthRib", val({x}));
    c.contactFriction(i, x); rib("contactFrictionRib", val({x}));
    c.contactArea(i, x); rib("contactAreaRib", val({x}));
    c.contactVolume(i, x); rib("contactVolumeRib", val({x}));
    c.contactPointAffine(i, A); rib("contactPointAffineRib", val(cols(A), 4, 4));
    c.relativeAngles(i, n); rib("relativeAnglesRib", val(xyz(n), 3, 1));
    M.seen("ribs");
  }
}
static void read_all(Rng &r, World &w, bool all) {
  for (auto &o : w.S) read_shell(r, o, all);
  for (auto &o : w.G) read_mesh(r, o);
  for (auto &o : w.F) read_flat(o);
  for (auto &o : w.T) read_tg(o);
}

// ------------------------------------------------------------------------------------------------ commands
static const Exp NOTHING{Exp::NONE, mxDOUBLE_CLASS, 0, 0, {}};
static void new_shell(Rng &r, World &w, Wheel const &q) {
  w.log += " new " + str(q) + ";";
  Call c; go(c, mex_shell, 1, {T_("new"), I_(r, q.n), D_(q.Rx), D_(q.Mx), D_(q.Ry), D_(q.My), D_(q.Ly)});
  if (made("shell new", c)) w.S.push_back({handle(c), make_shell(q)});
}
static void new_mesh(Rng &r, World &w, std::vector<Tri> const &T) {
  int form = r.i(0, 3); bool rdf = form < 2;
  std::string p = write_mesh(T, rdf, "x" + std::to_string(w.G.size()));
  Pose P; P.R = rotation(r); P.t = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
  if (r.p(.5)) P = Pose();
  acme::affine A = to_affine(P), I; I.setIdentity(); double mu = friction(r);
  w.log += " new mesh form " + std::to_string(form) + " " + str(P) + " " + str(T, 3) + ";";
  mon::Quiet quiet;
  Call c; std::unique_ptr<enve::ground::mesh> m(new enve::ground::mesh());
  if (form == 0) { go(c, mex_mesh, 1, {T_("new"), T_(p)}); m->load(p); }
  else if (form == 1) { go(c, mex_mesh, 1, {T_("new"), T_(p), A_(A)}); m->load(p, A); }
  else if (form == 2) { go(c, mex_mesh, 1, {T_("new"), T_(p), D_(mu)}); m->load(p, mu); }
  else { go(c, mex_mesh, 1, {T_("new"), T_(p), D_(mu), A_(A)}); m->load(p, mu, A); }
  if (made("mesh new", c)) w.G.push_back({handle(c), std::move(m)});
}
static void new_flat(Rng &r, World &w, V3 o, V3 n) {
  double mu = friction(r);
  w.log += " new flat " + str(o) + str(n) + " mu=" + mon::num(mu) + ";";
  Call c; go(c, mex_flat, 1, {T_("new"), D_(mu), V_(o), V_(n)});
  if (made("flat new", c)) w.F.push_back({handle(c), std::unique_ptr<enve::ground::flat>(new enve::ground::flat(mu, o.x, o.y, o.z, n.x, n.y, n.z))});
}
static Tri any_tri(Rng &r) { std::vector<Tri> T; while (T.empty()) { T.push_back(tri(V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), friction(r))); finish(r, T); } return T[0]; }
static void new_tg(Rng &r, World &w) {
  Tri t = any_tri(r); int id = r.p(.5) ? r.i(0, 200) : r.i(-1000, 100000);
  if (r.p(.2)) id = r.i(-128, -1);
  w.log += " new triangleground " + std::to_string(id) + ";";
  Call c; go(c, mex_triangleground, 1, {T_("new"), I_(r, id), D_(t.mu), V_(t.v[0]), V_(t.v[1]), V_(t.v[2])});
  if (made("triangleground new", c)) w.T.push_back({handle(c), std::unique_ptr<enve::triangleground>(new enve::triangleground(id, t.mu, to_point(t.v[0]), to_point(t.v[1]), to_point(t.v[2])))});
}

// A call that must be refused and change nothing.
static void refusal(Rng &r, World &w) {
  Shell &s = w.S[size_t(r.i(0, int(w.S.size()) - 1))];
  Flat &f = w.F[size_t(r.i(0, int(w.F.size()) - 1))];
  Mesh &m = w.G[size_t(r.i(0, int(w.G.size()) - 1))];
  Tg &t = w.T[size_t(r.i(0, int(w.T.size()) - 1))];
  acme::affine I; I.setIdentity();
  struct Cmd { mexstub::Fun f; std::string name; int nlhs; Args a; };
  // a good call of every kind
  std::vector<std::function<Cmd()>> good = {
    [&] { return Cmd{mex_shell, "resize", 0, {T_("resize"), H_(s.h), D_(double(s.c->size()))}}; },
    [&] { return Cmd{mex_shell, "translate", 0, {T_("translate"), H_(s.h), V_(V3(0, 0, 0))}}; },
    [&] { return Cmd{mex_shell, "rotate", 0, {T_("rotate"), H_(s.h), D_(0), V_(V3(0, 1, 0))}}; },
    [&] { return Cmd{mex_shell, "transform", 0, {T_("transform"), H_(s.h), A_(s.c->transformation())}}; },
    [&] { return Cmd{mex_shell, "checkTransformation", 1, {T_("checkTransformation"), H_(s.h), A_(I)}}; },
    [&] { return Cmd{mex_shell, "setupFlat", 1, {T_("setupFlat"), H_(s.h), H_(f.h), A_(I), T_("geometric")}}; },
    [&] { return Cmd{mex_shell, "setupMesh", 1, {T_("setupMesh"), H_(s.h), H_(m.h), A_(I), T_("geometric")}}; },
    [&] { return Cmd{mex_shell, "ribRadius", 1, {T_("ribRadius"), H_(s.h), D_(1)}}; },
    [&] { return Cmd{mex_shell, "contactDepthRib", 1, {T_("contactDepthRib"), H_(s.h), D_(1)}}; },
    [&] { return Cmd{mex_shell, "contactPointRib", 1, {T_("contactPointRib"), H_(s.h), D_(1)}}; },
    [&] { return Cmd{mex_shell, "contactDepthAvg", 1, {T_("contactDepthAvg"), H_(s.h)}}; },
    [&] { return Cmd{mex_shell, "transformation", 1, {T_("transformation"), H_(s.h)}}; },
    [&] { return Cmd{mex_shell, "size", 1, {T_("size"), H_(s.h)}}; },
    [&] { return Cmd{mex_shell, "new", 1, {T_("new"), D_(3), D_(.3), D_(2), D_(.1), D_(2), D_(.05)}}; },
    [&] { return Cmd{mex_flat, "getOrigin", 1, {T_("getOrigin"), H_(f.h)}}; },
    [&] { return Cmd{mex_flat, "getNormal", 1, {T_("getNormal"), H_(f.h)}}; },
    [&] { return Cmd{mex_flat, "setNormal", 0, {T_("setNormal"), H_(f.h), V_(to_v3(f.c->normal()))}}; },
    [&] { return Cmd{mex_flat, "setOrigin", 0, {T_("setOrigin"), H_(f.h), V_(to_v3(f.c->origin()))}}; },
    [&] { return Cmd{mex_flat, "copy", 0, {T_("copy"), H_(f.h), H_(f.h)}}; },
    [&] { return Cmd{mex_flat, "isApprox", 1, {T_("isApprox"), H_(f.h), H_(f.h)}}; },
    [&] { return Cmd{mex_flat, "setFriction", 0, {T_("setFriction"), H_(f.h), D_(f.c->friction())}}; },
    [&] { return Cmd{mex_mesh, "size", 1, {T_("size"), H_(m.h)}}; },
    [&] { return Cmd{mex_mesh, "getTriangleground", 1, {T_("getTriangleground"), H_(m.h), D_(1)}}; },
    [&] { return Cmd{mex_mesh, "getTrianglegroundVertices", 1, {T_("getTrianglegroundVertices"), H_(m.h), D_(1)}}; },
    [&] { return Cmd{mex_mesh, "copy", 0, {T_("copy"), H_(m.h), H_(m.h)}}; },
    [&] { return Cmd{mex_triangleground, "getID", 1, {T_("getID"), H_(t.h)}}; },
    [&] { return Cmd{mex_triangleground, "normal", 1, {T_("normal"), H_(t.h)}}; },
    [&] { return Cmd{mex_triangleground, "getVertex2", 1, {T_("getVertex2"), H_(t.h)}}; },
    [&] { return Cmd{mex_triangleground, "copy", 0, {T_("copy"), H_(t.h), H_(t.h)}}; },
    [&] { return Cmd{mex_triangleground, "new", 1, {T_("new"), D_(3), D_(.3), V_(V3(0, 0, 0)), V_(V3(1, 0, 0)), V_(V3(0, 1, 0))}}; },
    [&] { return Cmd{mex_flat, "new", 1, {T_("new"), D_(.3), V_(V3(0, 0, 0)), V_(V3(0, 0, 1))}}; },
  };
  static char const *PLAIN[] = {"surfaceMaxRadius", "surfaceMaxWidth", "surfaceWidth", "translation", "rotation", "x", "y", "z", "eulerAngles", "contactPointAvg", "contactNormalAvg", "contactFrictionAvg", "contactAreaAvg", "contactVolumeAvg", "contactPointAffineAvg", "relativeAnglesAvg"};
  static char const *RIB[] = {"ribCenter", "ribWidth", "ribAngle", "contactNormalRib", "contactFrictionRib", "contactAreaRib", "contactVolumeRib", "contactPointAffineRib", "relativeAnglesRib"};
  static char const *AT[] = {"checkWidthBound", "surfaceRadius", "surfaceDerivative", "surfaceAngle"};
  for (char const *k : PLAIN) good.push_back([&, k] { return Cmd{mex_shell, k, 1, {T_(k), H_(s.h)}}; });
  for (char const *k : RIB) good.push_back([&, k] { return Cmd{mex_shell, k, 1, {T_(k), H_(s.h), D_(1)}}; });
  for (char const *k : AT) good.push_back([&, k] { return Cmd{mex_shell, k, 1, {T_(k), H_(s.h), D_(0)}}; });
  for (char const *k : {"getPlane", "getFriction", "isDegenerated"}) good.push_back([&, k] { return Cmd{mex_flat, k, 1, {T_(k), H_(f.h)}}; });
  for (char const *k : {"getFriction", "getVertex1", "getVertex3"}) good.push_back([&, k] { return Cmd{mex_triangleground, k, 1, {T_(k), H_(t.h)}}; });
  good.push_back([&] { return Cmd{mex_mesh, "new", 1, {T_("new")}}; });
  good.push_back([&] { return Cmd{mex_mesh, "load", 0, {T_("load"), H_(m.h), T_("none.obj"), D_(1)}}; });
  good.push_back([&] { return Cmd{mex_shell, "delete", 0, {T_("delete"), H_(s.h)}}; });
  good.push_back([&] { return Cmd{mex_flat, "delete", 0, {T_("delete"), H_(f.h)}}; });
  good.push_back([&] { return Cmd{mex_mesh, "delete", 0, {T_("delete"), H_(m.h)}}; });
  good.push_back([&] { return Cmd{mex_triangleground, "delete", 0, {T_("delete"), H_(t.h)}}; });
  Cmd c = good[size_t(r.i(0, int(good.size()) - 1))]();
  M.seen("refused call of " + c.name);
  std::string what;
  auto put = [&](size_t k, mxArray *a) { mexstub::destroy(c.a[k]); c.a[k] = a; };
  uint64_t h = c.a.size() > 1 && c.a[1]->cls == mxUINT64_CLASS ? *static_cast<uint64_t *>(c.a[1]->data) : 0;
  std::vector<size_t> vec, mat, num;   // where vectors, matrices and numbers are
  for (size_t k = 1; k < c.a.size(); ++k) {
    if (c.a[k]->cls == mxDOUBLE_CLASS) (c.a[k]->dims[0] == 3 ? vec : c.a[k]->dims[0] == 4 ? mat : num).push_back(k);
  }
  int how = r.i(0, 9);
  if (c.name == "load" && how == 0) how = 1;   // loading without a friction is another good call
  switch (how) {
  case 0: what = "an argument less"; mexstub::destroy(c.a.back()); c.a.pop_back(); break;
  case 1: what = "an argument more"; c.a.push_back(D_(1)); if (c.name == "new") { for (int z = r.i(1, 4); z > 0; --z) c.a.push_back(D_(1)); what = "some arguments more"; } break;
  case 2: what = "an output more"; c.nlhs += c.nlhs == 0 ? 1 : r.i(1, 2); break;
  case 3: what = "no such command"; put(0, T_(r.pick<std::string>({"", "Size", "sizes", "none", "siz"}))); break;
  case 4: what = "no command"; put(0, r.p(.5) ? D_(1) : H_(h)); break;
  case 5: what = "nothing at all"; for (mxArray *a : c.a) mexstub::destroy(a); c.a.clear(); break;
  case 6: {
    if (!h) { for (mxArray *a : c.a) mexstub::destroy(a); return; }
    size_t k = 1; if (c.a.size() > 2 && c.a[2]->cls == mxUINT64_CLASS && r.p(.5)) k = 2;
    uint64_t g = *static_cast<uint64_t *>(c.a[k]->data);
    switch (r.i(0, 3)) {
    case 0: { what = "handle of another kind"; uint64_t o; do o = r.pick({s.h, f.h, m.h, t.h}); while (o == g); put(k, H_(o)); break; }
    case 1: what = "handle as a double"; put(k, D_(double(g))); break;
    case 2: { what = "two handles"; mxArray *a = mexstub::make(mxUINT64_CLASS, {1, 2}); static_cast<uint64_t *>(a->data)[0] = g; static_cast<uint64_t *>(a->data)[1] = g; put(k, a); break; }
    default: what = "empty handle"; put(k, mexstub::make(mxUINT64_CLASS, {0, 0})); break;
    }
    break; }
  case 7: case 8: {
    if (vec.empty() && mat.empty()) { for (mxArray *a : c.a) mexstub::destroy(a); return; }
    bool v = !vec.empty(); size_t k = v ? vec[size_t(r.i(0, int(vec.size()) - 1))] : mat[0];
    std::vector<double> ones(32, 1.0);
    mwSize rows = v ? 3 : 4, colsn = v ? 1 : 4, a, b;
    int kind = r.i(0, 4);
    if (kind == 0) { what = "matrix of another class"; put(k, mexstub::make(r.pick({mxSINGLE_CLASS, mxINT8_CLASS, mxINT32_CLASS, mxLOGICAL_CLASS}), {rows, colsn})); }
    else if (kind == 1) { what = "matrix of three dimensions"; put(k, mexstub::make(mxDOUBLE_CLASS, {rows, colsn, 2})); }
    else {
      do { a = mwSize(r.i(0, 5)); b = mwSize(r.p(.3) ? colsn : mwSize(r.i(0, 5))); if (r.p(.3)) a = rows; } while (a == rows && b == colsn);
      what = "matrix of " + std::to_string(a) + "x" + std::to_string(b); put(k, mexstub::doubles(a, b, ones));
    }
    break; }
  default: {
    if (num.empty()) { for (mxArray *a : c.a) mexstub::destroy(a); return; }
    size_t k = num[size_t(r.i(0, int(num.size()) - 1))];
    bool integer = c.name == "resize" || (c.name.size() > 3 && c.name.substr(c.name.size() - 3) == "Rib") || c.name == "ribCenter" || c.name == "ribWidth" || c.name == "ribAngle" || c.name == "ribRadius" || c.name == "contactDepthRib" || c.name == "contactPointRib" || c.name == "getTriangleground" || c.name == "getTrianglegroundVertices" || (c.name == "new" && k == 1 && c.f != mex_flat);
    switch (r.i(0, 2)) {
    case 0: what = "more numbers than one"; put(k, mexstub::doubles(1, 2, {1, 1})); break;
    case 1: what = "no number"; put(k, mexstub::make(mxDOUBLE_CLASS, {0, 0})); break;
    default: if (!integer) { for (mxArray *a : c.a) mexstub::destroy(a); return; }
      what = "not an integer"; put(k, r.p(.5) ? D_(1.5) : r.p(.5) ? D_(std::nan("")) : mexstub::scalar(mxSINGLE_CLASS, 1.25f)); break;
    }
    break; }
  }
  w.log += " refused " + c.name + ": " + what + ";";
  long locks = mexstub::st().locks;
  Call k; go(k, c.f, c.nlhs, c.a);
  M.seen("refused " + what.substr(0, what.find(" of ") == std::string::npos ? 99 : what.find(" of ")));
  if (!k.r.error) M.fail("mex-accepted", c.name + " with " + what);
  if (mexstub::st().locks != locks) M.fail("mex-locks", c.name + " with " + what + " changed the locks");
}

static void sequence(Rng &r, World &w, bool refuse) {
  mon::Quiet quiet;
  Scene sc = mesh_scene(r, -1, false);
  if (sc.T.empty()) sc.T.push_back(any_tri(r));
  if (sc.T.size() > 120) sc.T.resize(120);
  M.describe = [&w] { return w.log; };
  new_shell(r, w, sc.w);
  new_mesh(r, w, sc.T);
  { V3 n = normal_up(r, .5); new_flat(r, w, sc.P.t - n * (sc.w.Rx * r.u(.7, 1.02)), n * r.logu(.1, 10)); }
  new_tg(r, w);
  int steps = r.i(1, 8);
  for (int q = 0; q < steps && w.S.size() && w.G.size() && w.F.size() && w.T.size(); ++q) {
    Shell &s = w.S[size_t(r.i(0, int(w.S.size()) - 1))];
    Flat &f = w.F[size_t(r.i(0, int(w.F.size()) - 1))];
    Mesh &m = w.G[size_t(r.i(0, int(w.G.size()) - 1))];
    Tg &t = w.T[size_t(r.i(0, int(w.T.size()) - 1))];
    if (refuse && r.p(.5)) { for (int z = 0; z < 4; ++z) refusal(r, w); read_all(r, w, false); continue; }
    switch (r.i(0, 15)) {
    case 0: case 1: case 2: case 3: {
      Pose P = sc.P; P.t = P.t + V3(r.u(-.1, .1), r.u(-.1, .1), r.u(-.1, .1)) * sc.w.Rx;
      acme::affine A = to_affine(P); std::string method = r.p(.5) ? "geometric" : "sampling"; bool flat = r.p(.5);
      if (r.p(.1)) method = r.pick<std::string>({"", "Geometric", "none"});
      w.log += " setup " + method + (flat ? " flat " : " mesh ") + str(P) + ";";
      bool threw = false, ret = false;
      try { ret = flat ? s.c->setup(*f.c, A, method) : s.c->setup(*m.c, A, method); } catch (std::exception const &) { threw = true; }
      Call c; go(c, mex_shell, 1, {T_(flat ? "setupFlat" : "setupMesh"), H_(s.h), H_(flat ? f.h : m.h), A_(A), T_(method)});
      if (threw) { M.seen("setup refused"); if (!c.r.error) M.fail("mex-accepted", "setup with method " + method); }
      else { judge(flat ? "shell setupFlat" : "shell setupMesh", c, val({double(ret)}, 1, 1, mxLOGICAL_CLASS)); M.seen(std::string("setup ") + (flat ? "flat " : "mesh ") + (ret ? "contact" : "air")); }
      break; }
    case 4: {
      int n = r.i(1, 12); w.log += " resize " + std::to_string(n) + ";";
      s.c->resize(size_t(n)); Call c; go(c, mex_shell, 0, {T_("resize"), H_(s.h), I_(r, n)}); judge("shell resize", c, NOTHING); break; }
    case 5: {
      V3 v(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); w.log += " translate;";
      s.c->translate(to_vec(v)); Call c; go(c, mex_shell, 0, {T_("translate"), H_(s.h), V_(v)}); judge("shell translate", c, NOTHING); break; }
    case 6: {
      V3 v = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)).unit(); double a = r.u(-3, 3); w.log += " rotate;";
      s.c->rotate(a, to_vec(v)); Call c; go(c, mex_shell, 0, {T_("rotate"), H_(s.h), D_(a), V_(v)}); judge("shell rotate", c, NOTHING); break; }
    case 7: {
      Pose P; P.R = rotation(r); P.t = place(r); w.log += " transform;";
      s.c->transform(to_affine(P)); Call c; go(c, mex_shell, 0, {T_("transform"), H_(s.h), A_(to_affine(P))}); judge("shell transform", c, NOTHING); break; }
    case 8: {
      Pose P; P.R = rotation(r); P.t = place(r); acme::affine A = to_affine(P);
      if (r.p(.5)) A.matrix()(r.i(0, 2), r.i(0, 2)) += r.pick({.5, 1e-2, -.3});
      bool ok = s.c->checkTransformation(A);
      Call c; go(c, mex_shell, 1, {T_("checkTransformation"), H_(s.h), A_(A)}); judge("shell checkTransformation", c, val({double(ok)}, 1, 1, mxLOGICAL_CLASS)); M.seen(ok ? "rigid" : "not rigid"); break; }
    case 9: {
      V3 v = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); w.log += " setOrigin;";
      f.c->origin() = to_point(v); Call c; go(c, mex_flat, 0, {T_("setOrigin"), H_(f.h), V_(v)}); judge("flat setOrigin", c, NOTHING); break; }
    case 10: {
      V3 v = normal_up(r, 1.2); w.log += " setNormal;";
      f.c->normal() = to_vec(v); Call c; go(c, mex_flat, 0, {T_("setNormal"), H_(f.h), V_(v)}); judge("flat setNormal", c, NOTHING); break; }
    case 11: {
      double mu = friction(r); w.log += " setFriction;";
      f.c->friction() = mu; Call c; go(c, mex_flat, 0, {T_("setFriction"), H_(f.h), D_(mu)}); judge("flat setFriction", c, NOTHING); break; }
    case 12: {
      int k = r.i(0, 6); w.log += " copy " + std::to_string(k) + ";";
      if (k > 4) { if (r.p(.5)) new_tg(r, w); if (w.T.size() < 1) break; Tg &a = w.T[0], &b = w.T.back();
        size_t i = size_t(r.i(0, 2)), j = size_t(r.i(0, 2)); acme::point q[3]; for (size_t z = 0; z < 3; ++z) q[z] = static_cast<enve::triangleground const &>(*a.c).vertex(z);
        q[i] = static_cast<enve::triangleground const &>(*b.c).vertex(j);
        std::string cmd = "setVertex" + std::to_string(i + 1);
        Call g; go(g, mex_triangleground, 1, {T_("getVertex" + std::to_string(j + 1)), H_(b.h)}); if (!made("triangleground getVertex", g)) break;
        uint64_t ph = handle(g); int bad = r.i(0, 7); Call c;
        if (bad == 0) go(c, mex_triangleground, 0, {T_(cmd), H_(a.h)});
        else if (bad == 1) go(c, mex_triangleground, 0, {T_(cmd), H_(a.h), H_(ph), D_(1)});
        else if (bad == 2) go(c, mex_triangleground, 1, {T_(cmd), H_(a.h), H_(ph)});
        else if (bad == 3) go(c, mex_triangleground, 0, {T_(cmd), H_(a.h), H_(f.h)});
        else { a.c->copy(enve::triangleground(a.c->id(), a.c->friction(), q[0], q[1], q[2])); go(c, mex_triangleground, 0, {T_(cmd), H_(a.h), H_(ph)}); judge("triangleground " + cmd, c, NOTHING); }
        if (bad < 4) { M.seen("refused setVertex"); if (!c.r.error) M.fail("mex-accepted", cmd + " with bad arguments " + std::to_string(bad)); }
        mxArray *h = H_(ph); mxArray const *hc = h; utils::mex_destroy_object<acme::point>(hc); mexstub::destroy(h);
        break; }
      if (k == 0) { new_flat(r, w, V3(1, 2, 3), normal_up(r, .3)); if (w.F.size() < 2) break; Flat &a = w.F[0], &b = w.F.back();
        Call d; go(d, mex_flat, 1, {T_("isApprox"), H_(a.h), H_(b.h)}); judge("flat isApprox", d, val({double(a.c->isApprox(*b.c))}, 1, 1, mxLOGICAL_CLASS));
        a.c->copy(*b.c); Call c; go(c, mex_flat, 0, {T_("copy"), H_(a.h), H_(b.h)}); judge("flat copy", c, NOTHING);
        Call e; go(e, mex_flat, 1, {T_("isApprox"), H_(a.h), H_(b.h)}); judge("flat isApprox", e, val({double(a.c->isApprox(*b.c))}, 1, 1, mxLOGICAL_CLASS)); }
      else if (k == 1) { new_flat(r, w, V3(1, 2, 3), normal_up(r, .3)); if (w.F.size() < 2) break; Flat &a = w.F[0], &b = w.F.back();
        a.c->layingPlane() = static_cast<acme::plane const &>(*b.c); Call c; go(c, mex_flat, 0, {T_("setPlane"), H_(a.h), H_(b.h)}); judge("flat setPlane", c, NOTHING); }
      else if (k == 2) { new_tg(r, w); if (w.T.size() < 2) break; Tg &a = w.T[0], &b = w.T.back(); a.c->copy(*b.c); Call c; go(c, mex_triangleground, 0, {T_("copy"), H_(a.h), H_(b.h)}); judge("triangleground copy", c, NOTHING); }
      else { std::vector<Tri> T; int n = r.i(1, 5); for (int z = 0; z < n; ++z) T.push_back(any_tri(r)); new_mesh(r, w, T); if (w.G.size() < 2) break; Mesh &a = w.G[0], &b = w.G.back(); a.c->copy(*b.c); Call c; go(c, mex_mesh, 0, {T_("copy"), H_(a.h), H_(b.h)}); judge("mesh copy", c, NOTHING); }
      break; }
    case 13: {
      std::vector<Tri> T; int n = r.i(1, 9); for (int z = 0; z < n; ++z) T.push_back(any_tri(r));
      bool rdf = r.p(.5); std::string p = write_mesh(T, rdf, "l"); double mu = friction(r); w.log += " load " + str(T, 2) + ";";
      Call c;
      if (rdf) { go(c, mex_mesh, 0, {T_("load"), H_(m.h), T_(p)}); m.c->load(p); } else { go(c, mex_mesh, 0, {T_("load"), H_(m.h), T_(p), D_(mu)}); m.c->load(p, mu); }
      judge("mesh load", c, NOTHING); break; }
    case 14: {   // a file that cannot be read
      std::string p = r.p(.3) ? M.scratch + "/none.rdf" : r.p(.5) ? "a" : M.scratch + "/bad.rdf"; w.log += " bad file;";
      { std::ofstream g(M.scratch + "/bad.rdf"); g << "[NODES]\n0 0 0 0\n1 1 0\n[ELEMENTS]\n0 1 2 1\n"; }
      long locks = mexstub::st().locks;
      Call c; go(c, mex_mesh, 1, {T_("new"), T_(p)});
      M.seen("new mesh refused");
      if (!c.r.error) { M.fail("mex-accepted", "new mesh of " + p); if (c.r.out.size()) w.end(mex_mesh, handle(c)); }
      if (mexstub::st().locks != locks) M.fail("mex-locks", "refused new mesh changed the locks");
      break; }
    default: {   // one less
      int k = r.i(0, 2); w.log += " delete " + std::to_string(k) + ";";
      if (k == 0 && w.F.size() > 1) { w.end(mex_flat, w.F.back().h); w.F.pop_back(); }
      if (k == 1 && w.G.size() > 1) { w.end(mex_mesh, w.G.back().h); w.G.pop_back(); }
      if (k == 2 && w.T.size() > 1) { w.end(mex_triangleground, w.T.back().h); w.T.pop_back(); }
      break; }
    }
    if (long(w.size()) != mexstub::st().locks) M.fail("mex-locks", std::to_string(w.size()) + " objects, " + std::to_string(mexstub::st().locks) + " locks");
    read_all(r, w, false);
  }
  read_all(r, w, true);
}

static void bindings(Rng &r, bool refuse, bool counted) {
  uint64_t h = 0;
  { Rng q = r; World w; sequence(q, w, refuse); h = mon::hash_str(w.log); M.eval(h, true); M.describe = nullptr; }
  M.seen("sequences");
  if (mexstub::st().locks != 0) { M.fail("mex-locks", std::to_string(mexstub::st().locks) + " locks left"); mexstub::st().locks = 0; }
  if (!mexstub::st().made.empty()) M.fail("harness", "arrays left");
  if (counted && ALLOC_COUNTED) {
    long before = alloc::live();
    { Rng q = r; World w; sequence(q, w, refuse); M.describe = nullptr; }
    long after = alloc::live();
    M.seen("life cycles counted");
    if (after != before) M.fail("memory-leak", std::to_string(after - before) + " allocations left by a sequence of commands");
  }
}

int main(int argc, char **argv) {
  M.parse(argc, argv);
  M.run("bindings", 600, 4000, [](Rng &r) { bindings(r, false, true); });
  M.run("bindings-refuse", 600, 4000, [](Rng &r) { bindings(r, true, true); });
  return M.finish();
}
