// An independent model of the geometric entities: membership with margins, random making of related pairs.
#pragma once
#include "gen.hh"

namespace ent {
using namespace gen;
enum { POINT = 1, LINE = 3, RAY = 4, PLANE = 5, SEGMENT = 6, TRIANGLE = 7, DISK = 8, BALL = 9, NONE = 0 };
static const char *NAME[] = {"none", "point", "", "line", "ray", "plane", "segment", "triangle", "disk", "ball"};
static const double INF = std::numeric_limits<double>::infinity();

struct Ent {
  int type = NONE;
  V3 o, d;            // origin or centre, direction or normal (of any length)
  V3 v[3];
  double R = 0;
  bool linear() const { return type == LINE || type == RAY || type == SEGMENT; }
  bool planar() const { return type == PLANE || type == TRIANGLE || type == DISK; }
  V3 u() const { // unit direction or normal
    if (type == SEGMENT) return (v[1] - v[0]).unit();
    if (type == TRIANGLE) return (v[1] - v[0]).cross(v[2] - v[0]).unit();
    return d.unit();
  }
  V3 base() const { return type == SEGMENT || type == TRIANGLE ? v[0] : o; }
  double size() const {
    if (type == SEGMENT) return (v[1] - v[0]).norm();
    if (type == TRIANGLE) return std::max((v[1] - v[0]).norm(), std::max((v[2] - v[1]).norm(), (v[0] - v[2]).norm()));
    if (type == DISK || type == BALL) return R;
    return 1;
  }
  // distance from the point, line or plane the entity lies on
  double off(V3 const &q) const {
    V3 w = q - base();
    if (type == POINT) return w.norm();
    if (linear()) return w.cross(u()).norm();
    if (planar()) return std::fabs(w.dot(u()));
    return type == BALL ? 0 : INF;
  }
  // how far within the boundary, along the line or plane (negative: outside)
  double margin(V3 const &q) const {
    V3 w = q - base();
    if (type == RAY) return w.dot(u());
    if (type == SEGMENT) { double t = w.dot(u()); return std::min(t, size() - t); }
    if (type == TRIANGLE) {
      double m = INF; V3 n = u();
      for (int i = 0; i < 3; ++i) { V3 e = (v[(i + 1) % 3] - v[i]).unit(); m = std::min(m, n.cross(e).dot(q - v[i])); }
      return m;
    }
    if (type == DISK) { V3 n = u(); return R - (w - n * w.dot(n)).norm(); }
    if (type == BALL) return R - w.norm();
    return type == NONE ? -INF : INF;
  }
  bool strictly(V3 const &q, double m) const { return off(q) <= 1e-9 * (1 + q.norm()) && margin(q) >= m; }
  bool loosely(V3 const &q, double m) const { return off(q) <= m && margin(q) >= -m; }
  V3 sample(Rng &r) const { // a point of the entity
    switch (type) {
    case LINE: return o + d.unit() * (r.sgn() * r.logu(1e-2, 30));
    case RAY: return o + d.unit() * r.logu(1e-2, 30);
    case PLANE: { V3 n = u(); return o + inplane(n, 0) * r.u(-8, 8) + inplane(n, 1) * r.u(-8, 8); }
    case SEGMENT: return v[0] + (v[1] - v[0]) * r.u();
    case TRIANGLE: { double a = r.u(), b = r.u(); if (a + b > 1) { a = 1 - a; b = 1 - b; } return v[0] + (v[1] - v[0]) * a + (v[2] - v[0]) * b; }
    case DISK: { V3 n = u(); double a = r.u(-M_PI, M_PI), k = R * (r.p(.2) ? 1 : std::sqrt(r.u())); return o + inplane(n, 0) * (k * std::cos(a)) + inplane(n, 1) * (k * std::sin(a)); }
    case BALL: { V3 w(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); return o + w.unit() * (R * r.u()); }
    default: return o;
    }
  }
  void shift(V3 const &t) { o = o + t; for (auto &x : v) x = x + t; }
  std::string str() const {
    std::string s = NAME[type];
    if (type == SEGMENT) return s + gen::str(v[0]) + gen::str(v[1]);
    if (type == TRIANGLE) return s + gen::str(v[0]) + gen::str(v[1]) + gen::str(v[2]);
    if (type == POINT) return s + gen::str(o);
    if (type == BALL) return s + gen::str(o) + mon::num(R);
    return s + gen::str(o) + gen::str(d) + (type == DISK ? mon::num(R) : "");
  }
  uint64_t hash() const { std::string s = str(); return mon::hash_str(s); }
};

// made by one of its constructors (which one depends on the values), or filled in afterwards
inline std::unique_ptr<acme::entity> make(Ent const &e) {
  acme::entity *p = nullptr;
  V3 const &o = e.o, &d = e.d, *v = e.v;
  int way = int(e.hash() >> 7) % 3;
  switch (e.type) {
  case POINT: p = new acme::point(o.x, o.y, o.z); break;
  case LINE:
    if (way == 0) p = new acme::line(o.x, o.y, o.z, d.x, d.y, d.z);
    else if (way == 1) p = new acme::line(to_point(o), to_vec(d));
    else { auto q = new acme::line; p = q; q->origin() = to_point(o); q->direction() = to_vec(d); }
    break;
  case RAY:
    if (way == 0) p = new acme::ray(o.x, o.y, o.z, d.x, d.y, d.z);
    else if (way == 1) p = new acme::ray(to_point(o), to_vec(d));
    else { auto q = new acme::ray; p = q; q->origin() = to_point(o); q->direction() = to_vec(d); }
    break;
  case PLANE:
    if (way == 0) p = new acme::plane(o.x, o.y, o.z, d.x, d.y, d.z);
    else if (way == 1) p = new acme::plane(to_point(o), to_vec(d));
    else { auto q = new acme::plane; p = q; q->origin() = to_point(o); q->normal() = to_vec(d); }
    break;
  case SEGMENT: {
    acme::point w[2] = {to_point(v[0]), to_point(v[1])};
    if (way == 0) p = new acme::segment(v[0].x, v[0].y, v[0].z, v[1].x, v[1].y, v[1].z);
    else if (way == 1) p = new acme::segment(w[0], w[1]);
    else p = new acme::segment(w);
    break; }
  case TRIANGLE: {
    acme::point w[3] = {to_point(v[0]), to_point(v[1]), to_point(v[2])};
    if (way == 0) p = new acme::triangle(v[0].x, v[0].y, v[0].z, v[1].x, v[1].y, v[1].z, v[2].x, v[2].y, v[2].z);
    else if (way == 1) p = new acme::triangle(w[0], w[1], w[2]);
    else p = new acme::triangle(w);
    break; }
  case DISK:
    if (way == 0) p = new acme::disk(e.R, o.x, o.y, o.z, d.x, d.y, d.z);
    else if (way == 1) p = new acme::disk(e.R, to_point(o), to_vec(d));
    else p = new acme::disk(e.R, acme::plane(to_point(o), to_vec(d)));
    break;
  case BALL:
    if (way == 0) p = new acme::ball(e.R, o.x, o.y, o.z);
    else if (way == 1) p = new acme::ball(e.R, to_point(o));
    else { auto q = new acme::ball; p = q; q->radius() = e.R; q->center() = to_point(o); }
    break;
  default: p = new acme::none();
  }
  return std::unique_ptr<acme::entity>(p);
}
inline Ent read(acme::entity const &x) {
  Ent e;
  if (auto p = dynamic_cast<acme::point const *>(&x)) { e.type = POINT; e.o = to_v3(*p); }
  else if (auto p = dynamic_cast<acme::line const *>(&x)) { e.type = LINE; e.o = to_v3(p->origin()); e.d = to_v3(p->direction()); }
  else if (auto p = dynamic_cast<acme::ray const *>(&x)) { e.type = RAY; e.o = to_v3(p->origin()); e.d = to_v3(p->direction()); }
  else if (auto p = dynamic_cast<acme::plane const *>(&x)) { e.type = PLANE; e.o = to_v3(p->origin()); e.d = to_v3(p->normal()); }
  else if (auto p = dynamic_cast<acme::segment const *>(&x)) { e.type = SEGMENT; for (int i = 0; i < 2; ++i) e.v[i] = to_v3(p->vertex(i)); }
  else if (auto p = dynamic_cast<acme::triangle const *>(&x)) { e.type = TRIANGLE; for (int i = 0; i < 3; ++i) e.v[i] = to_v3(p->vertex(i)); }
  else if (auto p = dynamic_cast<acme::disk const *>(&x)) { e.type = DISK; e.R = p->radius(); e.o = to_v3(p->center()); e.d = to_v3(p->normal()); }
  else if (auto p = dynamic_cast<acme::ball const *>(&x)) { e.type = BALL; e.R = p->radius(); e.o = to_v3(p->center()); }
  return e;
}
inline bool finite(Ent const &e) {
  auto f = [](V3 const &w) { return std::isfinite(w.x) && std::isfinite(w.y) && std::isfinite(w.z); };
  if (e.type == NONE) return true;
  if (e.type == SEGMENT) return f(e.v[0]) && f(e.v[1]);
  if (e.type == TRIANGLE) return f(e.v[0]) && f(e.v[1]) && f(e.v[2]);
  if (e.type == POINT) return f(e.o);
  return f(e.o) && (e.type == BALL || f(e.d)) && std::isfinite(e.R);
}
inline V3 dirvec(Rng &r) { // uniform unit vector, at times along an axis
  if (r.p(.15)) return V3(r.pick({V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(0, -1, 0)}));
  for (;;) { V3 w(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); double n = w.norm(); if (n < 1 && n > .05) return w / n; }
}
inline double len(Rng &r) { return r.p(.4) ? 1.0 : r.logu(.1, 10); }

// An entity of a type through p, well inside of it, with direction or normal w (unit).
inline Ent through(Rng &r, int type, V3 const &p, V3 const &w) {
  Ent e; e.type = type;
  double s = r.p(.7) ? r.logu(.2, 5) : r.logu(.02, 50);
  V3 a = inplane(w, 0), b = inplane(w, 1);
  double phi = r.u(-M_PI, M_PI), c = std::cos(phi), q = std::sin(phi);
  V3 a2 = a * c + b * q, b2 = b * c - a * q;
  switch (type) {
  case POINT: e.o = p; break;
  case LINE: e.o = p + w * r.u(-5, 5); e.d = w * len(r); break;
  case RAY: e.o = p - w * r.u(.1, 5); e.d = w * len(r); break;
  case SEGMENT: e.v[0] = p - w * (s * r.u(.1, 1)); e.v[1] = p + w * (s * r.u(.1, 1)); break;
  case PLANE: e.o = p + a2 * r.u(-5, 5) + b2 * r.u(-5, 5); e.d = w * len(r); break;
  case TRIANGLE: {
    double t0 = r.u(-M_PI, M_PI), t1 = t0 + r.u(1.2, 2.6), t2 = t1 + r.u(1.2, 2.6);
    if (t2 - t0 < M_PI + .3) t2 = t0 + M_PI + .3 + r.u(0, .4);
    double th[3] = {t0, t1, t2};
    for (int i = 0; i < 3; ++i) e.v[i] = p + (a2 * std::cos(th[i]) + b2 * std::sin(th[i])) * (s * r.u(.5, 1));
    if (r.p(.5)) std::swap(e.v[1], e.v[2]);
    break; }
  case DISK: e.R = s; e.o = p + a2 * (s * r.u(-.8, .8)); e.d = w * len(r); break;
  case BALL: e.R = s; e.o = p + a2 * (s * r.u(-.6, .6)) + w * (s * r.u(-.5, .5)); break;
  }
  return e;
}
} // namespace ent
