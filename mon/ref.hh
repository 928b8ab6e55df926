// Reference model of the contact between a rib (a disc with a width) and the ground,
// written from the documented meaning of the quantities and independent of acme/enve.
#pragma once
#include <cmath>
#include <vector>
#include <algorithm>

namespace ref {

struct V3 {
  double x = 0, y = 0, z = 0;
  V3() {}
  V3(double a, double b, double c) : x(a), y(b), z(c) {}
  V3 operator+(V3 const &o) const { return V3(x + o.x, y + o.y, z + o.z); }
  V3 operator-(V3 const &o) const { return V3(x - o.x, y - o.y, z - o.z); }
  V3 operator-() const { return V3(-x, -y, -z); }
  V3 operator*(double k) const { return V3(x * k, y * k, z * k); }
  V3 operator/(double k) const { return V3(x / k, y / k, z / k); }
  V3 &operator+=(V3 const &o) { x += o.x; y += o.y; z += o.z; return *this; }
  double dot(V3 const &o) const { return x * o.x + y * o.y + z * o.z; }
  V3 cross(V3 const &o) const { return V3(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
  double norm() const { return std::sqrt(dot(*this)); }
  V3 unit() const { double n = norm(); return *this / n; }
};
inline V3 operator*(double k, V3 const &v) { return v * k; }

struct M3 { // rows
  V3 r0, r1, r2;
  V3 operator*(V3 const &v) const { return V3(r0.dot(v), r1.dot(v), r2.dot(v)); }
  V3 col(int i) const { return i == 0 ? V3(r0.x, r1.x, r2.x) : i == 1 ? V3(r0.y, r1.y, r2.y) : V3(r0.z, r1.z, r2.z); }
  M3 operator*(M3 const &o) const {
    M3 m; V3 c0 = *this * o.col(0), c1 = *this * o.col(1), c2 = *this * o.col(2);
    m.r0 = V3(c0.x, c1.x, c2.x); m.r1 = V3(c0.y, c1.y, c2.y); m.r2 = V3(c0.z, c1.z, c2.z); return m;
  }
  M3 t() const { M3 m; m.r0 = col(0); m.r1 = col(1); m.r2 = col(2); return m; }
};
inline M3 eye() { M3 m; m.r0 = V3(1, 0, 0); m.r1 = V3(0, 1, 0); m.r2 = V3(0, 0, 1); return m; }
inline M3 rotx(double a) { M3 m = eye(); double c = std::cos(a), s = std::sin(a); m.r1 = V3(0, c, -s); m.r2 = V3(0, s, c); return m; }
inline M3 roty(double a) { M3 m = eye(); double c = std::cos(a), s = std::sin(a); m.r0 = V3(c, 0, s); m.r2 = V3(-s, 0, c); return m; }
inline M3 rotz(double a) { M3 m = eye(); double c = std::cos(a), s = std::sin(a); m.r0 = V3(c, -s, 0); m.r1 = V3(s, c, 0); return m; }

struct Pose { M3 R = eye(); V3 t; V3 operator*(V3 const &p) const { return R * p + t; } };

struct Tri { V3 v[3]; double mu = 1; V3 n; };

inline V3 ground_normal(Tri const &t) {
  V3 n = (t.v[1] - t.v[0]).cross(t.v[2] - t.v[0]).unit();
  return n.z < 0 ? -n : n;
}

struct Rib { double r, y, w; };

struct Out {
  bool contact = false;
  V3 point, normal;
  double friction = 0, depth = 0, area = 0, volume = 0;
  // bookkeeping for the verdict
  bool ambiguous = false;    // the model is discontinuous here: no verdict
  double length = 0;         // total chord length in the disc
  int pieces = 0;            // triangles crossing the disc
  double minsin = 1;         // smallest sine between a crossing triangle and the rib plane
  double normal_mass = 1;    // norm of the weighted normal sum relative to the volume
  double minseg = 1e300;
  double slack = 0;          // length of pieces grazing the rim, which rounding may drop
};

// No contact: lowest point of the rib (along -z of the wheel), wheel z, zeros.
inline Out no_contact(Pose const &P, Rib const &rb) {
  Out o;
  o.point = P * V3(0, rb.y, -rb.r);
  o.normal = P.R.col(2);
  return o;
}

// Geometric enveloping on flat ground: the chord the plane cuts in the rib disc.
inline Out flat_geometric(Pose const &P, Rib const &rb, V3 const &gp, V3 const &gn_in, double mu) {
  V3 gn = gn_in.unit();
  V3 c = P * V3(0, rb.y, 0), a = P.R.col(1);
  // foot of the hub on the line plane/rib plane
  V3 in = gn - a * gn.dot(a);           // in-plane gradient
  double s = in.norm();
  double dist = (c - gp).dot(gn);       // signed height of the hub
  Out o;
  o.minsin = s;
  if (s < 1e-3) { o = no_contact(P, rb); o.ambiguous = true; o.minsin = s; return o; }
  double rho = dist / s;                // in-plane distance to the line
  double h2 = (rb.r - std::fabs(rho)) * (rb.r + std::fabs(rho));
  if (std::fabs(h2) < 1e-7 || 2 * std::sqrt(std::fabs(h2)) < 1e-6 || std::fabs(std::fabs(rho) - rb.r) < 1e-9 * (rb.r + c.norm() + gp.norm())) o.ambiguous = true;
  if (h2 <= 0) { Out z = no_contact(P, rb); z.ambiguous = o.ambiguous; z.minsin = s; return z; }
  V3 e = in / s;
  double half = std::sqrt(h2);
  o.contact = true;
  o.point = c - e * rho;
  o.depth = rb.r - std::fabs(rho);
  o.length = 2 * half;
  o.area = 2 * half * rb.w;
  double ang = std::atan2(half, std::fabs(rho));
  o.volume = (rb.r * rb.r * ang - std::fabs(rho) * half) * rb.w;
  o.friction = mu;
  // ground normal without its component along the chord
  V3 tdir = a.cross(e);
  V3 nn = gn - tdir * gn.dot(tdir);
  o.normal = nn.unit();
  o.pieces = 1;
  return o;
}

// The part of segment p0-p1 (coordinates relative to the hub) inside the disc.
inline bool clip(V3 &p0, V3 &p1, double r) {
  V3 d = p1 - p0;
  double A = d.dot(d), B = p0.dot(d), C = (p0.norm() - r) * (p0.norm() + r);
  if (A <= 0) return false;
  double D = B * B - A * C;
  if (D <= 0) return false;
  double q = std::sqrt(D);
  double t0 = (-B - q) / A, t1 = (-B + q) / A;
  t0 = std::max(t0, 0.0); t1 = std::min(t1, 1.0);
  if (t1 <= t0) return false;
  V3 a = p0 + d * t0, b = p0 + d * t1;
  p0 = a; p1 = b;
  return true;
}

// Geometric enveloping on a mesh: volume weighted composition of the pieces cut by all triangles.
inline Out mesh_geometric(Pose const &P, Rib const &rb, std::vector<Tri> const &tris) {
  V3 c = P * V3(0, rb.y, 0), a = P.R.col(1);
  Out o;
  V3 sp, sn; double sf = 0;
  bool vertical = false;   // the side of a vertical triangle that is up is decided by rounding
  for (Tri const &T : tris) {
    double d[3]; double ext = 0, far = 0;
    for (int i = 0; i < 3; ++i) d[i] = a.dot(T.v[i] - c);
    for (int i = 0; i < 3; ++i) { ext = std::max(ext, (T.v[i] - T.v[(i + 1) % 3]).norm()); far = std::max(far, (T.v[i] - c).norm()); }
    double tol = 1e-14 * (ext + far + c.norm());   // rounding of the distances, not a width within which vertices count as on the plane
    int pos = 0, neg = 0, zero = 0;
    for (int i = 0; i < 3; ++i) { if (std::fabs(d[i]) <= tol) ++zero; else if (d[i] > 0) ++pos; else ++neg; }
    if (pos == 3 || neg == 3) continue;
    double sine = a.cross(T.n).norm();
    // crossing points
    V3 pt[3]; int np = 0;
    double cutoff = 0;   // how far rounding may have moved a crossing along its edge
    if (zero >= 2) {
      // an edge (or all) in the rib plane: which triangle owns it is a convention
      for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3;
        if (std::fabs(d[i]) <= tol && std::fabs(d[j]) <= tol) {
          V3 u = T.v[i] - c, w = T.v[j] - c;
          u = u - a * u.dot(a); w = w - a * w.dot(a);
          if (clip(u, w, rb.r * (1 + 1e-9))) o.ambiguous = true;
        }
      }
      continue;
    }
    for (int i = 0; i < 3; ++i) if (std::fabs(d[i]) <= tol) {
      pt[np++] = T.v[i] - c;
      for (int j = 0; j < 3; ++j) if (j != i) cutoff = std::max(cutoff, tol / std::max(std::fabs(d[j]), tol) * (T.v[j] - T.v[i]).norm());
    }
    for (int i = 0; i < 3; ++i) {
      int j = (i + 1) % 3;
      if (std::fabs(d[i]) <= tol || std::fabs(d[j]) <= tol) continue;
      if ((d[i] > 0) == (d[j] > 0)) continue;
      double s = d[i] / (d[i] - d[j]);
      double err = tol / std::fabs(d[i] - d[j]) * (T.v[j] - T.v[i]).norm();
      cutoff = std::max(cutoff, err);
      pt[np++] = (T.v[i] - c) + (T.v[j] - T.v[i]) * s;
    }
    if (np < 2) continue;               // touches the plane in one vertex
    for (int k = 0; k < 2; ++k) pt[k] = pt[k] - a * pt[k].dot(a);
    V3 p0 = pt[0], p1 = pt[1];
    if (!clip(p0, p1, rb.r)) continue;
    double L = (p1 - p0).norm();
    if (sine < 1e-3 || cutoff > 1e-8 * rb.r) { o.ambiguous = true; continue; }
    double ra = p0.norm(), rbn = p1.norm();
    double cr = p0.cross(p1).norm(), dt = p0.dot(p1);
    double ang = std::atan2(cr, dt);
    if (M_PI - ang < 1e-3 || ra < 1e-6 * rb.r || rbn < 1e-6 * rb.r) { o.ambiguous = true; continue; }
    // A crossing within the tolerance of a vertex may be moved to it: near the hub this turns the sector.
    if (std::min(std::fabs(d[0]), std::min(std::fabs(d[1]), std::fabs(d[2]))) < 1e-6 && std::min(ra, rbn) < 1e-2 * rb.r) o.ambiguous = true;
    double sec = (rb.r * rb.r * ang - cr) / 2;
    V3 bis = (p0 / ra + p1 / rbn).unit();
    double rc = 2 * ra * rbn * std::cos(ang / 2) / (ra + rbn);
    double vol = sec * rb.w;
    V3 nn = -bis + a * T.n.dot(a);
    o.length += L; o.area += L * rb.w; o.volume += vol;
    sp += (c + bis * rc) * vol; sn += nn.unit() * vol; sf += T.mu * vol;
    o.minsin = std::min(o.minsin, sine);
    o.minseg = std::min(o.minseg, L);
    if (p0.cross(p1).norm() / L > rb.r * (1 - 1e-5) - 1e-7) o.slack += L;
    if (std::fabs(T.n.z) < 1e-9) vertical = true;
    ++o.pieces;
  }
  if (o.pieces == 0 || o.volume <= 0) { Out z = no_contact(P, rb); z.ambiguous = o.ambiguous; z.length = o.length; z.minsin = o.minsin; z.pieces = o.pieces; return z; }
  if (o.volume <= 1e-6 * rb.r * o.area) o.ambiguous = true;   // composed by volumes or by areas
  o.contact = true;
  o.point = sp / o.volume;
  o.normal_mass = vertical ? 0 : (sn / o.volume).norm();
  o.normal = sn.unit();
  o.friction = sf / o.volume;
  o.depth = rb.r - (o.point - c).norm();
  return o;
}

struct Hit { bool hit = false, ambiguous = false; V3 p; double mu = 0; };

// Highest point of the ground on the vertical through q.
inline Hit drop(V3 const &q, std::vector<Tri> const &tris) {
  Hit h;
  for (Tri const &T : tris) {
    double x1 = T.v[1].x - T.v[0].x, y1 = T.v[1].y - T.v[0].y, x2 = T.v[2].x - T.v[0].x, y2 = T.v[2].y - T.v[0].y;
    double px = q.x - T.v[0].x, py = q.y - T.v[0].y;
    double det = x1 * y2 - x2 * y1;
    if (std::fabs(det) < 1e-6) {
      // almost vertical or tiny: decide nothing if the vertical is near it
      double mx = std::max(std::fabs(x1), std::fabs(x2)) + 1e-3, my = std::max(std::fabs(y1), std::fabs(y2)) + 1e-3;
      if (std::fabs(px) < mx && std::fabs(py) < my && std::fabs(det) > 0) {
        if (std::fabs(det) < 1e-10) continue; // below any tolerance: never hit
        h.ambiguous = true;
      }
      continue;
    }
    double u = (px * y2 - x2 * py) / det, v = (x1 * py - px * y1) / det, w = 1 - u - v;
    double m = std::min(u, std::min(v, w));
    double edge = std::max(std::hypot(x1, y1), std::max(std::hypot(x2, y2), std::hypot(x1 - x2, y1 - y2)));
    double rim = 1e-6 + 1e-7 * edge / std::fabs(det);   // absolute tolerance on the distance from the sides
    if (m < -rim) continue;
    if (m < rim) { h.ambiguous = true; if (m < -1e-6) continue; }
    double z = T.v[0].z + u * (T.v[1].z - T.v[0].z) + v * (T.v[2].z - T.v[0].z);
    if (h.hit && std::fabs(z - h.p.z) < 1e-9 && T.mu != h.mu) h.ambiguous = true;
    if (!h.hit || z > h.p.z) { h.hit = true; h.p = V3(q.x, q.y, z); h.mu = T.mu; }
  }
  return h;
}

// Sampling enveloping from the four samples.
inline Out sampling(Pose const &P, Rib const &rb, Hit const s[4]) {
  Out z = no_contact(P, rb);
  for (int i = 0; i < 4; ++i) z.ambiguous = z.ambiguous || s[i].ambiguous;
  bool all = s[0].hit && s[1].hit && s[2].hit && s[3].hit;
  if (!all) return z;
  V3 c = P * V3(0, rb.y, 0);
  Out o;
  o.ambiguous = z.ambiguous;
  o.point = (s[0].p + s[1].p + s[2].p + s[3].p) / 4;
  V3 n = (s[0].p - s[1].p).cross(s[2].p - s[3].p);
  double m = n.norm();
  if (m < 1e-9 * rb.r * rb.w) { z.ambiguous = true; return z; }
  n = n / m;
  V3 ey = P.R.col(1);
  V3 exr = n.cross(ey);
  if (exr.norm() < 1e-3) { z.ambiguous = true; return z; }
  V3 ex = exr.unit(), ez = ey.cross(ex).unit();
  o.normal = n;
  o.depth = rb.r * std::fabs(n.dot(ez)) - (o.point - c).norm();
  if (std::fabs(o.depth) < 1e-7 * (1 + rb.r + c.norm())) o.ambiguous = z.ambiguous = true;
  if (o.depth <= 0) return z;
  o.contact = true;
  o.friction = (s[0].mu + s[1].mu + s[2].mu + s[3].mu) / 4;
  double h = std::sqrt(o.depth * (2 * rb.r - o.depth));
  o.area = 2 * h * rb.w;
  o.length = 2 * h;
  o.volume = (rb.r * rb.r * std::acos((rb.r - o.depth) / rb.r) - (rb.r - o.depth) * h) * rb.w;
  o.pieces = 4;
  return o;
}
inline void sample_origins(Pose const &P, Rib const &rb, V3 q[4]) {
  // ahead is horizontal and across the axle, whatever the rotation of the wheel about it
  V3 c = P * V3(0, rb.y, 0), a = P.R.col(1);
  double m = std::hypot(a.x, a.y);
  V3 h = m > 0 ? V3(a.y / m, -a.x / m, 0) : V3(0, 0, 0);
  q[0] = c + h * (0.1 * rb.r);
  q[1] = c - h * (0.1 * rb.r);
  q[2] = P * V3(0, rb.y + 0.3 * rb.w, 0);
  q[3] = P * V3(0, rb.y - 0.3 * rb.w, 0);
}

} // namespace ref
