// Triangle meshes, an exact-as-possible double precision reference for intersection and distance.
#pragma once
#include "rob.h"
#include <array>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/BoundingBox.h>
namespace vh
{
    struct Mesh
    {
        std::vector<V3> v; std::vector<std::array<int, 3>> f; bool closed = false;
        int add(const V3& p) { v.push_back(V3(F(p(0)), F(p(1)), F(p(2)))); return (int)v.size() - 1; }
        void tri(int a, int b, int c) { f.push_back({{a, b, c}}); }
        Mesh moved(const M4& m) const { Mesh o = *this; for (auto& p : o.v) p = m.block<3, 3>(0, 0) * p + m.block<3, 1>(0, 3); return o; }
        double ext() const { double e = 0; for (auto& p : v) e = std::max(e, p.norm()); return e; }
        void append(const Mesh& o) { int b = v.size(); v.insert(v.end(), o.v.begin(), o.v.end()); for (auto t : o.f) f.push_back({{t[0] + b, t[1] + b, t[2] + b}}); }
    };
    inline Mesh boxMesh(const V3& s)
    {
        Mesh m; for (int i = 0; i < 8; i++) m.add(V3((i & 1 ? .5 : -.5) * s(0), (i & 2 ? .5 : -.5) * s(1), (i & 4 ? .5 : -.5) * s(2)));
        int q[6][4] = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}};
        for (auto& a : q) { m.tri(a[0], a[1], a[2]); m.tri(a[0], a[2], a[3]); }
        m.closed = true; return m;
    }
    // star-shaped closed surface: latitude/longitude grid with per-vertex radius
    inline Mesh starMesh(Rng& r, double rad, double rough, int lat, int lon)
    {
        Mesh m; int top = m.add(V3(0, 0, rad)); std::vector<std::vector<int>> g;
        for (int i = 1; i < lat; i++) { g.emplace_back(); for (int j = 0; j < lon; j++) { double t = M_PI * i / lat, p = 2 * M_PI * j / lon, q = rad * (1 + rough * r.u(-1, 1)); g.back().push_back(m.add(V3(q * sin(t) * cos(p), q * sin(t) * sin(p), q * cos(t)))); } }
        int bot = m.add(V3(0, 0, -rad));
        for (int j = 0; j < lon; j++) { int k = (j + 1) % lon; m.tri(top, g[0][j], g[0][k]); m.tri(bot, g.back()[k], g.back()[j]); for (size_t i = 0; i + 1 < g.size(); i++) { m.tri(g[i][j], g[i + 1][j], g[i + 1][k]); m.tri(g[i][j], g[i + 1][k], g[i][k]); } }
        m.closed = true; return m;
    }
    inline Mesh soupMesh(Rng& r, double e, int n) { Mesh m; for (int i = 0; i < n; i++) { V3 c(r.u(-e, e), r.u(-e, e), r.u(-e, e)); double s = e * r.pick({0.05, 0.3, 1.0}); int a = m.add(c + s * r.dir()), b = m.add(c + s * r.dir()), d = m.add(c + s * r.dir()); m.tri(a, b, d); } return m; }
    inline Mesh gridMesh(Rng& r, double e, int n) { Mesh m; double h = r.p(0.5) ? 0 : e * 0.2; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) m.add(V3(e * (2.0 * i / n - 1), e * (2.0 * j / n - 1), r.u(-h, h))); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int a = i * (n + 1) + j; m.tri(a, a + n + 1, a + 1); m.tri(a + 1, a + n + 1, a + n + 2); } return m; }
    inline double triArea(const V3& a, const V3& b, const V3& c) { return 0.5 * (b - a).cross(c - a).norm(); }
    inline Mesh genMesh(Rng& r, double e)
    {
        switch (r.i(0, 6))
        {
            case 0: return boxMesh(V3(e * r.u(0.2, 2), e * r.u(0.2, 2), e * r.u(0.2, 2)));
            case 1: return boxMesh(V3(e * 2, e * r.u(0.2, 2), e * 0.01));   // plate
            case 2: return starMesh(r, e, 0, r.i(3, 6), r.i(3, 7));
            case 3: return starMesh(r, e, 0.4, r.i(3, 6), r.i(3, 7));
            case 4: return soupMesh(r, e, r.i(1, 30));
            case 5: return gridMesh(r, e, r.i(1, 5));
            default: { Mesh m = boxMesh(V3(e * r.u(0.1, 1), e * r.u(0.1, 1), e * r.u(0.1, 1))).moved(toF(r.pose(e))); Mesh o = starMesh(r, e * 0.4, 0.2, 3, 4).moved(toF(r.pose(e))); m.append(o); for (auto& p : m.v) p = V3(F(p(0)), F(p(1)), F(p(2))); m.closed = false; return m; }
        }
    }
    inline V3 closestOnTri(const V3& p, const V3& a, const V3& b, const V3& c)   // Ericson
    {
        V3 ab = b - a, ac = c - a, ap = p - a; double d1 = ab.dot(ap), d2 = ac.dot(ap); if (d1 <= 0 && d2 <= 0) return a;
        V3 bp = p - b; double d3 = ab.dot(bp), d4 = ac.dot(bp); if (d3 >= 0 && d4 <= d3) return b;
        double vc = d1 * d4 - d3 * d2; if (vc <= 0 && d1 >= 0 && d3 <= 0) return a + ab * (d1 / (d1 - d3));
        V3 cp = p - c; double d5 = ab.dot(cp), d6 = ac.dot(cp); if (d6 >= 0 && d5 <= d6) return c;
        double vb = d5 * d2 - d1 * d6; if (vb <= 0 && d2 >= 0 && d6 <= 0) return a + ac * (d2 / (d2 - d6));
        double va = d3 * d6 - d5 * d4; if (va <= 0 && (d4 - d3) >= 0 && (d5 - d6) >= 0) return b + (c - b) * ((d4 - d3) / ((d4 - d3) + (d5 - d6)));
        double dn = va + vb + vc; if (!(dn > 0)) return a; return a + ab * (vb / dn) + ac * (vc / dn);
    }
    inline double segSeg(const V3& p1, const V3& q1, const V3& p2, const V3& q2)
    {
        V3 d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; double a = d1.squaredNorm(), e = d2.squaredNorm(), f = d2.dot(r), s, t; const double EPS = 1e-18;
        if (a <= EPS && e <= EPS) return r.norm();
        if (a <= EPS) { s = 0; t = std::min(1.0, std::max(0.0, f / e)); }
        else { double c = d1.dot(r); if (e <= EPS) { t = 0; s = std::min(1.0, std::max(0.0, -c / a)); } else { double b = d1.dot(d2), den = a * e - b * b; s = den > 1e-12 * a * e ? std::min(1.0, std::max(0.0, (b * f - c * e) / den)) : 0; t = (b * s + f) / e; if (t < 0) { t = 0; s = std::min(1.0, std::max(0.0, -c / a)); } else if (t > 1) { t = 1; s = std::min(1.0, std::max(0.0, (b - c) / a)); } } }
        return (p1 + d1 * s - p2 - d2 * t).norm();
    }
    // how deep the segment pq crosses triangle abc: >0 only for a proper crossing (distance of the crossing to
    // every boundary: triangle edges, segment ends' distance to the plane)
    inline double segTri(const V3& p, const V3& q, const V3& a, const V3& b, const V3& c)
    {
        V3 n = (b - a).cross(c - a); double nn = n.norm(); if (nn < 1e-12) return -1; n /= nn; double dp = n.dot(p - a), dq = n.dot(q - a); if (dp * dq >= 0) return -1;
        V3 x = p + (q - p) * (dp / (dp - dq)); const V3* t[3] = {&a, &b, &c}; double m = std::min(std::fabs(dp), std::fabs(dq));
        for (int i = 0; i < 3; i++) { V3 e = *t[(i + 1) % 3] - *t[i]; double l = e.norm(); if (l < 1e-12) return -1; double h = n.cross(e / l).dot(x - *t[i]); if (h <= 0) return -1; m = std::min(m, h); }
        return m;
    }
    struct PairRef { double dist = INFINITY; double depth = -1; };
    struct TriS { V3 a, b, c, m; double r; };
    inline std::vector<TriS> tris(const Mesh& m) { std::vector<TriS> o; for (auto& t : m.f) { TriS s{m.v[t[0]], m.v[t[1]], m.v[t[2]], V3(), 0}; s.m = (s.a + s.b + s.c) / 3; s.r = std::max((s.a - s.m).norm(), std::max((s.b - s.m).norm(), (s.c - s.m).norm())); o.push_back(s); } return o; }
    inline PairRef pairRef(const Mesh& A, const Mesh& B)   // both in world coordinates
    {
        PairRef r; auto ta = tris(A), tb = tris(B);
        for (auto& s : ta) for (auto& t : tb)
        {
            double lb = (s.m - t.m).norm() - s.r - t.r; if (lb > 0 && lb >= r.dist) continue;
            const V3* P[3] = {&s.a, &s.b, &s.c}; const V3* Q[3] = {&t.a, &t.b, &t.c};
            if (lb <= 0) for (int i = 0; i < 3; i++) { r.depth = std::max(r.depth, segTri(*P[i], *P[(i + 1) % 3], t.a, t.b, t.c)); r.depth = std::max(r.depth, segTri(*Q[i], *Q[(i + 1) % 3], s.a, s.b, s.c)); }
            if (r.depth >= 0) { r.dist = 0; continue; }
            double d = r.dist;
            for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) d = std::min(d, segSeg(*P[i], *P[(i + 1) % 3], *Q[j], *Q[(j + 1) % 3])); d = std::min(d, (*P[i] - closestOnTri(*P[i], t.a, t.b, t.c)).norm()); d = std::min(d, (*Q[i] - closestOnTri(*Q[i], s.a, s.b, s.c)).norm()); }
            r.dist = d;
        }
        return r;
    }
    inline double pointMesh(const V3& p, const Mesh& m) { double d = INFINITY; for (auto& t : m.f) d = std::min(d, (p - closestOnTri(p, m.v[t[0]], m.v[t[1]], m.v[t[2]])).norm()); return d; }
    inline VirtualRobot::TriMeshModelPtr triModel(const Mesh& m)
    {
        VirtualRobot::TriMeshModelPtr t(new VirtualRobot::TriMeshModel()); for (auto& f : m.f) t->addTriangleWithFace(m.v[f[0]].cast<float>(), m.v[f[1]].cast<float>(), m.v[f[2]].cast<float>()); return t;
    }
    inline VirtualRobot::VisualizationNodePtr meshVis(const Mesh& m) { Eigen::Matrix4f id = Eigen::Matrix4f::Identity(); return VirtualRobot::VisualizationFactory::first(nullptr)->createTriMeshModelVisualization(triModel(m), id); }
    inline VirtualRobot::CollisionModelPtr meshCol(const Mesh& m, VirtualRobot::CollisionCheckerPtr cc = VirtualRobot::CollisionCheckerPtr()) { return VirtualRobot::CollisionModelPtr(new VirtualRobot::CollisionModel(meshVis(m), "m", cc)); }
}
