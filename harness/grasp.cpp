// C24: convex hulls, contact cones, wrench spaces, mesh conversion.  C29: approach movements, grasp planning, pose uncertainty.
#include "hand.h"
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/Random.h>
#include <GraspPlanning/ConvexHullGenerator.h>
#include <GraspPlanning/ContactConeGenerator.h>
#include <GraspPlanning/MeshConverter.h>
#include <GraspPlanning/ApproachMovementSurfaceNormal.h>
#include <GraspPlanning/GraspPlanner/GenericGraspPlanner.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.h>
#include <GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.h>
using namespace GraspStudio;
using MathTools::ContactPoint; using CPs = std::vector<ContactPoint>;
using V6 = Eigen::Matrix<double, 6, 1>; using V6s = std::vector<V6>; using VX = Eigen::VectorXd; using MX = Eigen::MatrixXd; using VF = Eigen::Vector3f;
static V6 v6(const ContactPoint& c) { V6 v; v << c.p.cast<double>(), c.n.cast<double>(); return v; }
static bool lexLess(const VX& a, const VX& b) { for (int i = 0; i < a.size(); i++) if (a(i) != b(i)) return a(i) < b(i); return false; }
// distance from q to the convex hull of p: non-negative least squares (Lawson-Hanson) on  sum w_i (p_i - q) = 0, sum w_i = 1
static double hullDist(const V6s& p, const V6& q)
{
    // Wolfe's algorithm for the point of minimal norm
    int n = (int)p.size(); std::vector<int> S; VX w; V6 x; int best = 0; for (int i = 1; i < n; i++) if ((p[i] - q).norm() < (p[best] - q).norm()) best = i;
    S.push_back(best); w = VX::Ones(1); x = p[best] - q;
    for (int it = 0; it < 2000; it++)
    {
        int j = -1; double m = INFINITY; for (int i = 0; i < n; i++) { double v = x.dot(p[i] - q); if (v < m) { m = v; j = i; } }
        if (m > x.squaredNorm() - 1e-12 || std::find(S.begin(), S.end(), j) != S.end()) break;
        S.push_back(j); { VX w2(w.size() + 1); w2 << w, 0; w = w2; }
        for (int in = 0; in < 100; in++)
        {
            int k = (int)S.size(); MX A(k + 1, k + 1); A.setZero(); for (int a = 0; a < k; a++) { A(k, a) = A(a, k) = 1; for (int b = 0; b < k; b++) A(a, b) = (p[S[a]] - q).dot(p[S[b]] - q); } VX rhs = VX::Zero(k + 1); rhs(k) = 1;
            VX y = A.fullPivLu().solve(rhs).head(k); if (y.minCoeff() > 1e-12) { w = y; break; }
            double th = 1; for (int a = 0; a < k; a++) if (y(a) <= 1e-12 && w(a) - y(a) > 0) th = std::min(th, w(a) / (w(a) - y(a)));
            w = (1 - th) * w + th * y; std::vector<int> S2; std::vector<double> ww; for (int a = 0; a < k; a++) if (w(a) > 1e-10) { S2.push_back(S[a]); ww.push_back(w(a)); }
            if (S2.empty() || S2.size() == S.size()) { break; } S = S2; w = Eigen::Map<VX>(ww.data(), ww.size());
        }
        x.setZero(); for (size_t a = 0; a < S.size(); a++) x += w(a) * (p[S[a]] - q);
        if (x.norm() < 1e-9) return 0;
    }
    return x.norm();
}
static int rankOf(const V6s& p, double tol) { V6 c = V6::Zero(); for (auto& v : p) c += v; c /= p.size(); MX A(6, p.size()); for (size_t i = 0; i < p.size(); i++) A.col(i) = p[i] - c; Eigen::JacobiSVD<MX> s(A); int k = 0; for (int i = 0; i < s.singularValues().size(); i++) k += s.singularValues()(i) > tol * std::sqrt((double)p.size()); return k; }
// ---------------------------------------------------------------- three-dimensional hulls
static std::vector<VF> cloud(Rng& r, bool& generic)
{
    std::vector<VF> p; int k = r.i(0, 7), n = r.i(4, r.pick({8, 30, 200})); double e = r.pick({1.0, 50.0, 500.0}); generic = false; VF off = VF::Zero(); if (r.p(0.3)) off = VF(r.f(-3, 3), r.f(-3, 3), r.f(-3, 3)) * (float)e;
    switch (k)
    {
        case 0: generic = true; for (int i = 0; i < n; i++) p.push_back((r.dir() * e * std::cbrt(r.u())).cast<float>()); break;
        case 1: generic = true; for (int i = 0; i < n; i++) p.push_back((r.dir() * e).cast<float>()); break;
        case 2: { Mesh m = boxMesh(V3(e, e * r.u(0.1, 1), e * r.u(0.1, 1))); for (auto& v : m.v) p.push_back(v.cast<float>()); for (int i = 0; i < n; i++) p.push_back((m.v[r.i(0, 7)] * r.u()).cast<float>()); break; }
        case 3: for (int i = 0; i < n; i++) p.push_back(VF(r.i(-2, 2), r.i(-2, 2), r.i(-2, 2)) * (float)e); break;
        case 4: { Mesh m = starMesh(r, e, 0.3, r.i(3, 6), r.i(3, 7)); for (auto& v : m.v) p.push_back(v.cast<float>()); break; }
        case 5: generic = true; for (int i = 0; i < n; i++) { V3 v = r.dir() * e; v(2) *= 0.02; p.push_back(v.cast<float>()); } break;
        case 6: generic = true; for (int i = 0; i < 4; i++) p.push_back((r.dir() * e).cast<float>()); break;
        default: { generic = true; for (int i = 0; i < n; i++) p.push_back((r.dir() * e).cast<float>()); size_t z = p.size(); for (size_t i = 0; i < z / 2; i++) p.push_back(r.pick(std::vector<VF>(p.begin(), p.begin() + z))); }
    }
    for (auto& v : p) v += off; r.shuffle(p); return p;
}
static double solidity(const std::vector<VF>& p, double& ext) { V3 c = V3::Zero(); for (auto& v : p) c += v.cast<double>(); c /= p.size(); MX A(3, p.size()); ext = 0; for (size_t i = 0; i < p.size(); i++) { A.col(i) = p[i].cast<double>() - c; ext = std::max(ext, A.col(i).norm()); } Eigen::JacobiSVD<MX> s(A); return s.singularValues()(2) / std::sqrt((double)p.size()); }
static void hull3(Rng& r)
{
    bool generic; auto pts = cloud(r, generic); double ext, sol = solidity(pts, ext); auto in = pts; MathTools::ConvexHull3DPtr h; S().desc = fmt("hull of %zu points", pts.size());
    if (r.p(0.3)) { TriMeshModelPtr t(new TriMeshModel()); t->vertices = pts; h = ConvexHullGenerator::CreateConvexHull(t); check(t->vertices == in, "hull/input", "the mesh was modified"); } else { h = ConvexHullGenerator::CreateConvexHull(pts); check(pts == in, "hull/input", "the points were modified"); }
    if (!check((bool)h, "hull/null", "no hull")) return;
    if (sol < 0.01 * ext) return; double off = 0; for (auto& v : pts) off = std::max(off, (double)v.norm()); double tol = 1e-6 * ext + 1e-6 * off;
    count("hulls"); if (generic) count("hulls-generic"); if (!check(h->faces.size() >= 4 && h->vertices.size() == 3 * h->faces.size(), "hull/empty", "%zu faces, %zu vertices for %zu points", h->faces.size(), h->vertices.size(), pts.size())) return;
    std::set<std::array<float, 3>> ip, hv; for (auto& v : pts) ip.insert({{v(0), v(1), v(2)}}); for (auto& v : h->vertices) hv.insert({{v(0), v(1), v(2)}});
    for (auto& v : hv) check(ip.count(v) > 0, "hull/vertex", "(%.9g %.9g %.9g) is not an input point", v[0], v[1], v[2]);
    V3 c = V3::Zero(); for (auto& v : hv) c += V3(v[0], v[1], v[2]); c /= hv.size(); double vol = 0, maxD = 0; std::map<std::pair<std::array<float, 3>, std::array<float, 3>>, int> edges; int degenerate = 0;
    for (auto& f : h->faces)
    {
        if (!check(f.id1 < h->vertices.size() && f.id2 < h->vertices.size() && f.id3 < h->vertices.size(), "hull/index", "face index out of range")) return;
        const VF q[3] = {h->vertices[f.id1], h->vertices[f.id2], h->vertices[f.id3]}; V3 n = f.normal.cast<double>(), a = q[0].cast<double>();
        check(std::fabs(n.norm() - 1) < 1e-5, "hull/normal", "length %.9g", n.norm()); for (int k = 1; k < 3; k++) check(std::fabs(n.dot(q[k].cast<double>() - a)) < 1e-4 * ext + tol, "hull/normal", "not orthogonal to its face: %g (extent %g)", n.dot(q[k].cast<double>() - a), ext);
        double out = -INFINITY; for (auto& v : pts) out = std::max(out, n.dot(v.cast<double>() - a)); check(out <= 2e-5 * ext + tol, "hull/contains", "a point lies %g outside a face (extent %g)", out, ext);
        V3 cr = (q[1] - q[0]).cast<double>().cross((q[2] - q[0]).cast<double>()); double A = cr.norm(); degenerate += A < 1e-6 * ext * ext; vol += A / 2 * n.dot(a - c) / 3; maxD = std::max(maxD, std::fabs(n.dot(a - c)));
        for (int k = 0; k < 3; k++) { std::array<float, 3> x{{q[k](0), q[k](1), q[k](2)}}, y{{q[(k + 1) % 3](0), q[(k + 1) % 3](1), q[(k + 1) % 3](2)}}; edges[x < y ? std::make_pair(x, y) : std::make_pair(y, x)]++; }
    }
    for (int k = 0; k < 20; k++) { VF d = r.dir().cast<float>(); double a = -INFINITY, b = -INFINITY; for (auto& v : pts) a = std::max(a, (double)d.dot(v)); for (auto& v : h->vertices) b = std::max(b, (double)d.dot(v)); check(std::fabs(a - b) < 2e-5 * ext + tol, "hull/extent", "%.9g instead of %.9g in a direction", b, a); }
    if (generic && !degenerate) { for (auto& e : edges) check(e.second == 2, "hull/closed", "an edge belongs to %d faces", e.second); check((long)hv.size() - (long)edges.size() + (long)h->faces.size() == 2, "hull/closed", "%zu vertices, %zu edges, %zu faces", hv.size(), edges.size(), h->faces.size()); }
    check(std::fabs(h->volume - vol) < 1e-4 * vol + 1e-7 * ext * ext * ext + 1e-6 * off * ext * ext, "hull/volume", "%.9g, the faces enclose %.9g", h->volume, vol);
    if (generic) { check((h->center.cast<double>() - c).norm() < 1e-4 * ext + 2 * tol, "hull/center", "off by %g", (h->center.cast<double>() - c).norm()); check(std::fabs(h->maxDistFacetCenter - maxD) < 1e-4 * ext + 2 * tol, "hull/max-dist", "%.9g instead of %.9g", h->maxDistFacetCenter, maxD); }
    for (auto& v : hv) sig(hmix((uint64_t)(v[0] * 1000) * 31 + (uint64_t)(int64_t)(v[1] * 1000), h->faces.size()));
    // as a mesh
    TriMeshModelPtr t = MeshConverter::CreateTriMeshModel(h); check(t->faces.size() == h->faces.size(), "hull/mesh", "%zu triangles for %zu faces", t->faces.size(), h->faces.size()); double v2 = 0;
    for (auto& f : t->faces) { V3 a = t->vertices[f.id1].cast<double>() - c, b = t->vertices[f.id2].cast<double>() - c, d = t->vertices[f.id3].cast<double>() - c; v2 += a.dot(b.cross(d)) / 6; V3 cr = (b - a).cross(d - a); if (cr.norm() > 1e-4 * ext * ext) check(cr.normalized().dot(f.normal.cast<double>()) > 0.999, "hull/mesh-normal", "triangle oriented against its normal"); }
    check(std::fabs(v2 - vol) < 1e-4 * vol + 1e-7 * ext * ext * ext + 1e-6 * off * ext * ext, "hull/mesh-volume", "oriented volume %.9g instead of %.9g", v2, vol);
    if (r.p(0.2)) { ManipulationObjectPtr o = MeshConverter::CreateManipulationObject("Hull Object", h); if (check(o && o->getName() == "Hull Object" && o->getCollisionModel(), "hull/object", "no object")) { auto m = o->getCollisionModel()->getTriMeshModel(); check(m && m->faces.size() == h->faces.size(), "hull/object", "%zu triangles", m ? m->faces.size() : 0); } }
}
// ---------------------------------------------------------------- six-dimensional hulls
struct Hull6 { std::vector<V6> distinct; double offset = INFINITY, volume = 0, far = 0; V6 center; int facets = 0; };
static bool hull6Check(const V6s& p, MathTools::ConvexHull6DPtr h, Hull6& o, const char* key)
{
    if (!check(h && h->faces.size() >= 7, "hull6/empty", "%s: %zu facets for %zu points", key, h ? h->faces.size() : 0, p.size())) return false;
    double ext = 0; for (auto& v : p) ext = std::max(ext, v.norm()); std::vector<VX> vs; for (auto& v : h->vertices) vs.push_back(v6(v)); std::sort(vs.begin(), vs.end(), lexLess); vs.erase(std::unique(vs.begin(), vs.end(), [](const VX& a, const VX& b) { return a == b; }), vs.end());
    o.center.setZero(); for (auto& v : vs) { o.center += v; o.distinct.push_back(v); double m = INFINITY; for (auto& q : p) m = std::min(m, (q - v).norm()); check(m < 1e-4 * ext, "hull6/vertex", "%s: a vertex is %g off every point", key, m); } o.center /= vs.size();
    std::map<std::vector<int>, int> ridges; auto idx = [&](const V6& v) { VX x = v; return (int)(std::lower_bound(vs.begin(), vs.end(), x, lexLess) - vs.begin()); };
    for (auto& f : h->faces)
    {
        V6 v[6], n = v6(f.normal); std::vector<int> id; for (int k = 0; k < 6; k++) { if (!check(f.id[k] >= 0 && f.id[k] < (int)h->vertices.size(), "hull6/index", "%s", key)) return false; v[k] = v6(h->vertices[f.id[k]]); id.push_back(idx(v[k])); }
        check(std::fabs(n.norm() - 1) < 1e-4, "hull6/normal", "%s: length %g", key, n.norm()); double out = -INFINITY; for (auto& q : p) out = std::max(out, n.dot(q - v[0])); check(out < 2e-4 * ext, "hull6/contains", "%s: a point lies %g outside", key, out);
        double lev = n.dot(v[0]); check(std::fabs(f.offset + lev) < 1e-4 * ext, "hull6/offset", "%s: offset %g, plane at %g", key, f.offset, lev); check(std::fabs(f.distPlaneZero + lev) < 1e-4 * ext && std::fabs(f.distNormZero + lev) < 1e-4 * ext, "hull6/zero", "%s: origin at %g and %g instead of %g", key, f.distPlaneZero, f.distNormZero, -lev);
        double dc = n.dot(o.center) - lev; check(std::fabs(f.distNormCenter - dc) < 5e-4 * ext && std::fabs(f.distPlaneCenter - dc) < 5e-4 * ext, "hull6/center-distance", "%s: %g and %g instead of %g", key, f.distNormCenter, f.distPlaneCenter, dc); o.offset = std::min(o.offset, -dc); o.far = std::max(o.far, lev > 0 ? 0 : -lev);
        MX M(6, 6); for (int k = 0; k < 6; k++) M.col(k) = v[k] - o.center; o.volume += std::fabs(M.determinant()) / 720; std::sort(id.begin(), id.end()); for (int k = 0; k < 6; k++) { auto x = id; x.erase(x.begin() + k); ridges[x]++; } o.facets++;
    }
    int open = 0; for (auto& x : ridges) open += x.second % 2; check(open == 0 || (int)vs.size() < 7, "hull6/closed", "%s: %d of %zu ridges are not shared by two facets", key, open, ridges.size());
    check((v6(h->center) - o.center).norm() < 1e-3 * ext, "hull6/center", "%s: off by %g", key, (v6(h->center) - o.center).norm()); check(std::fabs(h->volume - o.volume) < 1e-3 * o.volume + 1e-9 * std::pow(ext, 6), "hull6/volume", "%s: %.9g, the facets enclose %.9g", key, h->volume, o.volume);
    ev(h->faces.size()); return true;
}
static void hull6(Rng& r)
{
    int n = r.i(7, r.pick({10, 20, 40})); CPs c; V6s p; double e = r.pick({0.1, 1.0, 3.0}); for (int i = 0; i < n; i++) { ContactPoint x; x.force = 1; for (int k = 0; k < 3; k++) { x.p(k) = (float)(r.n() * e); x.n(k) = (float)(r.n() * e); } c.push_back(x); p.push_back(v6(x)); }
    if (rankOf(p, 0.05 * e) < 6) return; auto h = ConvexHullGenerator::CreateConvexHull(c); Hull6 o; count("hulls6"); if (hull6Check(p, h, o, "random") ) sig(hmix((uint64_t)(o.volume * 1e6), o.facets));
}
// ---------------------------------------------------------------- cones
static void cones(Rng& r)
{
    int n = r.i(3, 12); double mu = r.pick({0.1, 0.25, 0.35, 0.5, 1.0, 2.0}), uf = r.pick({1.0, 1.0, 0.5, 3.0}); ContactConeGenerator g(n, (float)mu, (float)uf); double a = std::atan(mu);
    check(std::fabs(g.getConeAngle() - a) < 1e-5 && std::fabs(g.getConeRadius() - uf * std::sin(a)) < 1e-5 * uf && std::fabs(g.getConeHeight() - uf * std::cos(a)) < 1e-5 * uf, "cone/parameters", "angle %g radius %g height %g for coefficient %g, force %g", g.getConeAngle(), g.getConeRadius(), g.getConeHeight(), mu, uf);
    CPs out; std::vector<VF> out3; ContactPoint c; size_t k0 = 0;
    for (int rep = 0; rep < 3; rep++)
    {
        V3 nn = r.p(0.3) ? V3(V3::Unit(r.i(0, 2)) * (r.p(0.5) ? 1 : -1)) : r.dir(); if (nn(2) < -0.999 && nn(2) > -1) continue; c.n = nn.cast<float>(); c.p = VF(r.f(-0.2, 0.2), r.f(-0.2, 0.2), r.f(-0.2, 0.2)); c.force = r.pick({1.0f, 1.0f, 0.5f, 2.0f});
        g.computeConePoints(c, out); g.computeConePoints(c, out3); if (!check(out.size() == k0 + n && out3.size() == k0 + n, "cone/count", "%zu and %zu points instead of %zu", out.size(), out3.size(), k0 + n)) return;
        for (int i = 0; i < n; i++)
        {
            V3 v = out[k0 + i].n.cast<double>(), w = (out[k0 + i].p - c.p).cast<double>(), q = (out3[k0 + i] - c.p).cast<double>(); nn = c.n.cast<double>();
            check(std::fabs(v.norm() - 1) < 1e-5, "cone/unit", "length %g", v.norm()); double ang = std::atan2(v.cross(nn).norm(), v.dot(nn)); check(std::fabs(ang - a) < 1e-3, "cone/angle", "%g instead of %g for coefficient %g", ang, a, mu); check((w - v * uf * c.force).norm() < 1e-4 * (uf * c.force + 1), "cone/point", "rim point is (%g %g %g)", w(0), w(1), w(2)); check((w - q).norm() < 1e-5, "cone/point", "the two variants differ by %g", (w - q).norm()); check(out[k0 + i].force == c.force, "cone/force", "force %g instead of %g", out[k0 + i].force, c.force);
            V3 p1 = v - nn * v.dot(nn), p2 = out[k0 + (i + 1) % n].n.cast<double>(); p2 -= nn * p2.dot(nn); check(std::fabs(std::atan2(p1.cross(p2).norm(), p1.dot(p2)) - 2 * M_PI / n) < 5e-3 && p1.cross(p2).dot(nn) > 0, "cone/spacing", "%g between rim points instead of %g", std::atan2(p1.cross(p2).norm(), p1.dot(p2)), 2 * M_PI / n);
        }
        k0 += n; count("cones"); sig(hmix((uint64_t)(int64_t)(c.n(0) * 1e6), (uint64_t)(int64_t)(c.n(1) * 1e6) * 31 + n));
    }
}
// ---------------------------------------------------------------- wrench spaces
struct Prob { Mesh m; ObstaclePtr o; CPs c; };
static ContactPoint surfacePoint(Rng& r, const Mesh& m)
{
    ContactPoint c; for (;;) { auto& t = r.pick(m.f); V3 a = m.v[t[0]], b = m.v[t[1]], d = m.v[t[2]], n = (b - a).cross(d - a); if (n.norm() < 1e-9) continue; double u = r.u(), v = r.u(); if (u + v > 1) { u = 1 - u; v = 1 - v; } c.p = (a + (b - a) * u + (d - a) * v).cast<float>(); c.n = n.normalized().cast<float>(); break; }
    if (c.n(2) < -0.9999f) c.n = VF(0, 0, -1); c.force = 1; return c;
}
static V6s wrenches(CPs cone, double len) { V6s w; for (auto& c : cone) { V6 x; V3 n = c.n.cast<double>(), p = c.p.cast<double>(); x << n, -p.cross(n) * (2 / (len / 1000)); w.push_back(x); } return w; }
static void wrench(Rng& r)
{
    double e = r.pick({20.0, 60.0, 150.0}); Mesh m = r.p(0.6) ? boxMesh(V3(e, e * r.u(0.3, 1), e * r.u(0.3, 1))) : starMesh(r, e / 2, r.pick({0.0, 0.2}), 4, r.i(4, 6)); if (r.p(0.4)) m = m.moved(T(r.u(-e, e), r.u(-e, e), r.u(-e, e)));
    auto obj = [&](const Mesh& x) { return ObstaclePtr(new Obstacle("Obj", VisualizationNodePtr(), meshCol(x))); }; ObstaclePtr o = obj(m); if (r.p(0.5)) o->setGlobalPose(f4(r.pose(300)));
    double len = 0; V3 lo = V3::Constant(INFINITY), hi = -lo; for (auto& v : m.v) { lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); } len = (hi - lo).maxCoeff(); int K = r.i(1, 5), samples = r.i(4, 8); double mu = r.pick({0.2, 0.35, 0.5, 0.8});
    CPs cs; for (int i = 0; i < K; i++) cs.push_back(surfacePoint(r, m)); if (r.p(0.3)) for (auto& c : cs) c.n *= 3;   // normals need not be unit vectors
    GraspQualityMeasureWrenchSpace q(o, 1, (float)mu, samples); GraspQualityMeasureWrenchSpaceNotNormalized qn(o, 1, (float)mu, samples); bool viaInfo = r.p(0.3); S().desc = fmt("%d contacts, %d samples, mu %g%s", K, samples, mu, viaInfo ? " (contact infos)" : "");
    auto info = [&](const CPs& x) { EndEffector::ContactInfoVector v; M4 g = o->getGlobalPose().cast<double>(); for (auto& c : x) { EndEffector::ContactInfo i; i.distance = 1; i.obstacle = o; V3 p = c.p.cast<double>(), f = p + c.n.normalized().cast<double>() * 2, P = (g * p.homogeneous()).head<3>(), F = (g * f.homogeneous()).head<3>(); i.contactPointObstacleLocal = p.cast<float>(); i.contactPointFingerLocal = f.cast<float>(); i.contactPointObstacleGlobal = P.cast<float>(); i.contactPointFingerGlobal = F.cast<float>(); i.approachDirectionGlobal = (P - F).normalized().cast<float>(); v.push_back(i); } return v; };
    auto set = [&](const CPs& x) { if (viaInfo) { auto v = info(x); q.setContactPoints(v); qn.setContactPoints(v); } else { q.setContactPoints(x); qn.setContactPoints(x); } };
    if (r.p(0.3)) { check(q.getGraspQuality() == 0 && !q.isGraspForceClosure() && !q.isValid(), "wrench/none", "quality without contacts"); check(qn.getGraspQuality() == 0 && !qn.isGraspForceClosure() && qn.getVolumeGraspMeasure() == 0, "wrench/none", "not normalized quality without contacts"); count("no-contacts"); }
    if (r.p(0.3)) { CPs other; for (int i = 0; i < 3; i++) other.push_back(surfacePoint(r, m)); set(other); if (r.p(0.7)) q.getGraspQuality(), qn.getGraspQuality(); if (r.p(0.5)) { set(CPs()); check(!q.isGraspForceClosure() && q.getGraspQuality() == 0 && q.getVolumeGraspMeasure() == 0, "wrench/emptied", "quality %g of no contacts", q.getGraspQuality()); check(!qn.isGraspForceClosure() && qn.getGraspQuality() == 0 && qn.getVolumeGraspMeasure() == 0, "wrench/emptied", "not normalized quality %g of no contacts", qn.getGraspQuality()); count("emptied"); } count("replaced"); }
    set(cs); VF com = q.getCoM(); check((com - o->getCollisionModel()->getTriMeshModel()->getCOM()).norm() == 0, "wrench/com", "center of mass"); ContactPoint mc = q.getContactPointsCenter(); V3 cp = V3::Zero(), cn = V3::Zero(); for (auto& c : cs) { cp += (c.p - com).cast<double>(); cn += c.n.normalized().cast<double>(); } cp /= K; cn /= K; check((mc.p.cast<double>() - cp).norm() < 1e-3 && (mc.n.cast<double>() - cn).norm() < 1e-3, "wrench/contacts", "mean contact off by %g and %g", (mc.p.cast<double>() - cp).norm(), (mc.n.cast<double>() - cn).norm());
    auto coneOf = [&](const CPs& x, const VF& com) { ContactConeGenerator g(samples, (float)mu, 1); CPs out; for (auto c : x) { c.p = (c.p - com) / 1000.f; c.n.normalize(); c.force = 1; g.computeConePoints(c, out); } return out; }; V6s w = wrenches(coneOf(cs, com), len);
    int rk = rankOf(w, 0.02); bool fc = q.isGraspForceClosure(), fcn = qn.isGraspForceClosure(); double dist = hullDist(w, V6::Zero());
    check(fc == fcn, "wrench/force-closure-agree", "%d and %d", fc, fcn); double g = q.getGraspQuality(), gn = qn.getGraspQuality(); double vol = q.getVolumeGraspMeasure(), voln = qn.getVolumeGraspMeasure(); check(std::isfinite(g) && std::isfinite(gn) && g >= 0 && gn >= 0 && vol >= 0 && voln >= 0 && gn < 1e6, "wrench/range", "quality %g, %g, volume %g, %g", g, gn, vol, voln); count("grasps");
    if (rk < 6 || (int)w.size() < 8) { count("flat"); if (w.size() < 7) check(!fc, "wrench/too-few", "force closure of %zu wrenches", w.size()); return; }
    if (dist > 0.02) { check(!fc, "wrench/force-closure", "reported, but the origin is %g outside the wrenches", dist); count("no-closure"); }
    double margin = 0; if (dist < 1e-6) { double rad = 0.02; bool in = true; for (int k = 0; in && k < 12; k++) { V6 d = V6::Zero(); d(k / 2) = k % 2 ? rad : -rad; in = hullDist(w, d) < 1e-6; } if (in) { margin = rad; check(fc, "wrench/force-closure", "not reported, but the origin is inside by %g", rad / 2.5); count("closure"); } }
    Hull6 H; if (!hull6Check(w, q.getConvexHullGWS(), H, "GWS")) return; sig(hmix((uint64_t)(H.volume * 1e7), H.facets)); Hull6 HN; if (!hull6Check(w, qn.getConvexHullGWS(), HN, "GWS not normalized")) return;
    check((v6(q.getCenterGWS()) - H.center).norm() < 1e-3 && (v6(qn.getCenterGWS()) - H.center).norm() < 2e-3, "wrench/center", "center");
    // the object wrench space comes from all faces (small meshes)
    CPs all; for (auto& t : m.f) { ContactPoint c; V3 a = m.v[t[0]], b = m.v[t[1]], d = m.v[t[2]]; c.p = ((a + b + d) / 3).cast<float>(); c.n = (b - a).cross(d - a).normalized().cast<float>(); all.push_back(c); } V6s wo = wrenches(coneOf(all, com), len); Hull6 O; bool poles = false; for (auto& c : all) poles |= c.n(2) < -0.999f && c.n(2) > -1.f; 
    double off = q.getOWSMinOffset(); if (rankOf(wo, 0.02) == 6 && !poles && hull6Check(wo, q.getConvexHullOWS(), O, "OWS")) { check(std::fabs(off - O.offset) < 2e-3 * O.offset + 1e-3, "wrench/ows", "offset %g instead of %g", off, O.offset); check(std::fabs(q.getOWSVolume() - O.volume) < 2e-3 * O.volume + 1e-6, "wrench/ows-volume", "%g instead of %g", q.getOWSVolume(), O.volume); count("ows"); }
    if (off > 1e-3) check(std::fabs(g * off - H.offset) < 2e-3 * H.offset + 1e-3, "wrench/quality", "%g (times %g), the facets are %g from the center", g, off, H.offset);
    check(std::fabs(gn - HN.offset) < 2e-3 * HN.offset + 1e-3, "wrench/quality-not-normalized", "%g, the facets are %g from the center", gn, HN.offset); if (vol > 0) check(std::fabs(vol * q.getOWSVolume() - H.volume) < 2e-3 * H.volume + 1e-7, "wrench/volume", "%g times %g instead of %g", vol, q.getOWSVolume(), H.volume); check(std::fabs(voln - HN.volume) < 2e-3 * HN.volume + 1e-7, "wrench/volume-not-normalized", "%g instead of %g", voln, HN.volume);
    // asked again
    check(q.getGraspQuality() == g && q.isGraspForceClosure() == fc && qn.getGraspQuality() == gn, "wrench/again", "another answer for the same contacts");
    // order of contacts does not matter
    { CPs p = cs; r.shuffle(p); set(p); double g2 = q.getGraspQuality(), gn2 = qn.getGraspQuality(); check(std::fabs(g2 - g) < 5e-3 * (g + 0.1) && std::fabs(gn2 - gn) < 5e-3 * (gn + 0.1), "wrench/order", "%g and %g instead of %g and %g", g2, gn2, g, gn); if (margin > 0 || dist > 0.02) check(q.isGraspForceClosure() == fc, "wrench/order", "force closure changed"); }
    // another contact never shrinks the wrench space
    { CPs p = cs; p.push_back(surfacePoint(r, m)); set(p); double v2 = (q.getGraspQuality(), q.getVolumeGraspMeasure()), vn2 = qn.getVolumeGraspMeasure(); check(v2 >= vol * (1 - 2e-3) && vn2 >= voln * (1 - 2e-3), "wrench/more-contacts", "volume fell from %g and %g to %g and %g", vol, voln, v2, vn2); if (margin > 0) check(q.isGraspForceClosure(), "wrench/more-contacts", "force closure lost"); count("more"); }
    // object and contacts moved and scaled together
    { double s = r.pick({1.0, 1.0, 2.0, 0.5}); V3 t(r.u(-500, 500), r.u(-500, 500), r.u(-500, 500)); Mesh m2 = m; for (auto& v : m2.v) v = v * s + t; ObstaclePtr o2 = obj(m2); CPs p = cs; for (auto& c : p) c.p = (c.p.cast<double>() * s + t).cast<float>(); GraspQualityMeasureWrenchSpaceNotNormalized q2(o2, 1, (float)mu, samples); q2.setContactPoints(p); double g2 = q2.getGraspQuality(), v2 = q2.getVolumeGraspMeasure(); check(std::fabs(g2 - gn) < 0.01 * gn + 2e-3, "wrench/moved", "%g instead of %g", g2, gn); check(std::fabs(v2 - voln) < 0.02 * voln + 1e-6, "wrench/moved", "volume %g instead of %g", v2, voln); if (margin > 0 || dist > 0.02) check(q2.isGraspForceClosure() == fc, "wrench/moved", "force closure changed"); count("moved"); }
    if (r.p(0.3)) { GraspQualityMeasureWrenchSpace q3(o, 1, (float)mu, samples); double d = r.u(0.1, 2), v = r.u(0.1, 2); q3.preCalculatedOWS((float)d, (float)v); q3.setContactPoints(cs); double g3 = q3.getGraspQuality(); check(std::fabs(g3 * d - H.offset) < 2e-3 * H.offset + 1e-3 && std::fabs(q3.getVolumeGraspMeasure() * v - H.volume) < 2e-3 * H.volume + 1e-7, "wrench/precalculated", "%g with offset %g, volume %g with %g", g3, d, q3.getVolumeGraspMeasure(), v); count("precalculated"); }
}
static void refine(Rng& r)
{
    Mesh m = genMesh(r, r.pick({20.0, 100.0})); if (m.f.empty()) return; double ext = 0; for (auto& v : m.v) ext = std::max(ext, v.norm()); ObstaclePtr o(new Obstacle("Coarse", VisualizationNodePtr(), meshCol(m))); if (r.p(0.5)) o->setGlobalPose(f4(r.pose(200))); TriMeshModelPtr t0 = o->getCollisionModel()->getTriMeshModel(); double longest = 0, area = 0; for (auto& f : m.f) { for (int k = 0; k < 3; k++) longest = std::max(longest, (m.v[f[k]] - m.v[f[(k + 1) % 3]]).norm()); area += (m.v[f[1]] - m.v[f[0]]).cross(m.v[f[2]] - m.v[f[0]]).norm() / 2; }
    check(std::fabs(MeshConverter::getMaxVertexDistance(t0) - longest) < 1e-5 * ext, "refine/longest", "%g instead of %g", MeshConverter::getMaxVertexDistance(t0), longest); double d = longest * r.u(0.2, 1.2); size_t nf = t0->faces.size(), nv = t0->vertices.size();
    ObstaclePtr x = MeshConverter::RefineObjectSurface(o, (float)d); if (!check(x && x->getCollisionModel() && x->getName() == o->getName(), "refine/null", "no object")) return; check(t0->faces.size() == nf && t0->vertices.size() == nv, "refine/input", "the object was modified");
    TriMeshModelPtr t = x->getCollisionModel()->getTriMeshModel(); M4 g = x->getGlobalPose().cast<double>(), G = o->getGlobalPose().cast<double>(); Mesh w = m.moved(G); double a2 = 0, l2 = 0; for (auto& f : t->faces) { V3 a = t->vertices[f.id1].cast<double>(), b = t->vertices[f.id2].cast<double>(), c = t->vertices[f.id3].cast<double>(); l2 = std::max(l2, std::max((a - b).norm(), std::max((b - c).norm(), (a - c).norm()))); a2 += (b - a).cross(c - a).norm() / 2; V3 mid = (g * V3((a + b + c) / 3).homogeneous()).head<3>(); check(pointMesh(mid, w) < 1e-4 * (ext + 400), "refine/surface", "a triangle lies %g off the object", pointMesh(mid, w)); }
    check(l2 <= d * (1 + 1e-5), "refine/edges", "an edge of %g, asked for at most %g", l2, d); check(std::fabs(a2 - area) < 1e-4 * area + 1e-6 * ext * ext, "refine/area", "%g instead of %g", a2, area); check(t->faces.size() >= nf, "refine/faces", "%zu of %zu", t->faces.size(), nf); count("refined"); if (d >= longest) check(t->faces.size() == nf, "refine/unneeded", "%zu faces instead of %zu", t->faces.size(), nf); sig(hmix(t->faces.size(), (uint64_t)(area * 100)));
}
static void hullCase(Rng& r) { hull3(r); if (r.p(0.5)) hull6(r); cones(r); wrench(r); if (r.p(0.5)) refine(r); }
#include "grasp29.h"
int main(int c, char** v)
{
    VirtualRobot::init("vh");
    return run(c, v, {{"C24", hullCase, 400, 12000}, {"C29", planCase, 150, 4000}});
}
