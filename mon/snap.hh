// Everything a wheel reports, as numbers.
#pragma once
#include "gen.hh"
namespace gen {
struct Snap {
  std::vector<double> rib, total, frame, pose;
};
inline void put(std::vector<double> &v, acme::point const &p) { for (int i = 0; i < 3; ++i) v.push_back(p[i]); }
template <class E> void put3(std::vector<double> &v, E const &p) { for (int i = 0; i < 3; ++i) v.push_back(p(i)); }
inline void put4(std::vector<double> &v, acme::affine const &a) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v.push_back(a.matrix()(i, j)); }
inline Snap snapshot(enve::shell const &sh) {
  Snap s; acme::point p; acme::vec3 n; double x; acme::affine A;
  for (size_t i = 0; i < sh.size(); ++i) {
    sh.contactPoint(i, p); put(s.rib, p); sh.contactNormal(i, n); put3(s.rib, n);
    sh.contactFriction(i, x); s.rib.push_back(x); sh.contactDepth(i, x); s.rib.push_back(x);
    sh.contactArea(i, x); s.rib.push_back(x); sh.contactVolume(i, x); s.rib.push_back(x);
    sh.contactPointAffine(i, A); put4(s.frame, A); sh.relativeAngles(i, n); put3(s.frame, n);
  }
  sh.contactPoint(p); put(s.total, p); sh.contactNormal(n); put3(s.total, n);
  sh.contactFriction(x); s.total.push_back(x); sh.contactDepth(x); s.total.push_back(x);
  sh.contactArea(x); s.total.push_back(x); sh.contactVolume(x); s.total.push_back(x);
  sh.contactPointAffine(A); put4(s.frame, A); sh.relativeAngles(n); put3(s.frame, n);
  put4(s.pose, sh.transformation()); put3(s.pose, sh.x()); put3(s.pose, sh.y()); put3(s.pose, sh.z());
  sh.eulerAngles(n); put3(s.pose, n); put3(s.pose, sh.translation());
  put(s.pose, sh.bbox()->min()); put(s.pose, sh.bbox()->max());
  return s;
}
inline bool eq(double a, double b, double tol) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * (1 + std::fabs(a)); }
inline std::string differ(char const *k, std::vector<double> const &a, std::vector<double> const &b, double tol) {
  if (a.size() != b.size()) return std::string(k) + " sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size());
  for (size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i], tol)) return std::string(k) + "[" + std::to_string(i) + "] " + mon::num(a[i]) + " and " + mon::num(b[i]);
  return "";
}
// what differs, empty if nothing
inline std::string differ(Snap const &a, Snap const &b, double tol, bool frames = true) {
  std::string d = differ("rib outputs", a.rib, b.rib, tol);
  if (d.empty()) d = differ("totals", a.total, b.total, tol);
  if (d.empty() && frames) d = differ("frames", a.frame, b.frame, tol);
  if (d.empty() && frames) d = differ("pose", a.pose, b.pose, tol);
  return d;
}
inline uint64_t fp(Snap const &s) { uint64_t h = mon::hash_bytes(s.rib.data(), s.rib.size() * 8); return h ^ mon::hash_bytes(s.total.data(), s.total.size() * 8) * 31; }
inline std::vector<double> contents(enve::ground::mesh const &m) {
  std::vector<double> v;
  for (size_t i = 0; i < m.size(); ++i) {
    auto const &t = *m.ptrTriangleground(i);
    v.push_back(t.id()); v.push_back(t.friction());
    for (int k = 0; k < 3; ++k) put(v, t.vertex(size_t(k)));
    put3(v, t.normal()); put(v, t.bbox().min()); put(v, t.bbox().max());
  }
  return v;
}
} // namespace gen
