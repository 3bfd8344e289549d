// A planning world (robot with box links, walls, constraints in configuration space) and an independent
// judge: double precision forward kinematics, box/box separation, metric, and a dense walk along paths.
#pragma once
#include "rob.h"
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <MotionPlanning/Saba.h>
#include <MotionPlanning/CSpace/CSpaceSampled.h>
#include <MotionPlanning/CSpace/CSpacePath.h>
#include <MotionPlanning/CSpace/CSpaceTree.h>
#include <MotionPlanning/CSpace/CSpaceNode.h>
#include <MotionPlanning/CSpace/Sampler.h>
#include <MotionPlanning/CSpace/ConfigurationConstraint.h>
#include <MotionPlanning/Planner/Rrt.h>
#include <MotionPlanning/Planner/BiRrt.h>
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>
#include <MotionPlanning/PostProcessing/ElasticBandProcessor.h>
namespace vh
{
    using VX = Eigen::VectorXd; using VXf = Eigen::VectorXf;
    struct OBB { M4 g; V3 h; };
    // largest signed gap over the 15 separating axes: > 0 disjoint, < 0 overlapping by at least that depth
    inline double boxGap(const OBB& a, const OBB& b)
    {
        std::vector<V3> ax; M3 ra = a.g.block<3, 3>(0, 0), rb = b.g.block<3, 3>(0, 0); V3 t = b.g.block<3, 1>(0, 3) - a.g.block<3, 1>(0, 3);
        for (int i = 0; i < 3; i++) { ax.push_back(ra.col(i)); ax.push_back(rb.col(i)); for (int j = 0; j < 3; j++) { V3 c = ra.col(i).cross(rb.col(j)); if (c.norm() > 1e-4) ax.push_back(c.normalized()); } }
        double best = -1e30; for (auto& n : ax) { double s = 0; for (int i = 0; i < 3; i++) s += std::fabs(n.dot(ra.col(i))) * a.h(i) + std::fabs(n.dot(rb.col(i))) * b.h(i); best = std::max(best, std::fabs(n.dot(t)) - s); }
        return best;
    }
    struct PWorld;
    // forbidden balls (wrapped euclidean distance) and one optional forbidden slab
    struct Con : public Saba::ConfigurationConstraint
    {
        Con(unsigned d) : Saba::ConfigurationConstraint(d) {}
        std::vector<std::pair<VX, double>> ball; int slabDim = -1; double slabLo = 0, slabHi = 0; std::vector<bool> wrap; std::function<void()> hook; long calls = 0, rejected = 0;
        double margin(const VX& q) const
        {
            double m = 1e30;
            for (auto& b : ball) { double s = 0; for (int i = 0; i < q.size(); i++) { double e = q(i) - b.first(i); if (wrap[i]) e = std::remainder(e, 2 * M_PI); s += e * e; } m = std::min(m, std::sqrt(s) - b.second); }
            if (slabDim >= 0) m = std::min(m, std::max(slabLo - q(slabDim), q(slabDim) - slabHi));
            return m;
        }
        bool isValid(const VXf& c) override { calls++; if (hook) hook(); bool ok = margin(c.cast<double>()) > 0; if (!ok) rejected++; return ok; }
    };
    struct Walls { VirtualRobot::SceneObjectSetPtr set; std::vector<VirtualRobot::ObstaclePtr> ob; };
    struct PWorld
    {
        RobotDef d; VirtualRobot::RobotPtr rob; VirtualRobot::RobotNodeSetPtr set, links; VirtualRobot::CollisionCheckerPtr cc; VirtualRobot::CDManagerPtr cdm; Walls walls;
        std::vector<OBB> wall; std::vector<int> js; std::vector<double> lo, hi, w; std::vector<bool> wrap; bool useW = false; double dcd = 0.1, smp = 0.2;
        boost::shared_ptr<Con> con; Saba::CSpaceSampledPtr cs; M4 root = M4::Identity(); bool limitlessNarrowed = false;
        int dim() const { return (int)js.size(); }
        std::vector<OBB> boxes(const VX& q) const { std::vector<double> v(d.n.size(), 0); for (int i = 0; i < dim(); i++) v[js[i]] = q(i); auto g = d.fk(root, v); std::vector<OBB> b; for (size_t i = 0; i < g.size(); i++) if (d.n[i].col) b.push_back({g[i], d.n[i].box / 2}); return b; }
        double gap(const VX& q) const { double m = 1e30; auto b = boxes(q); for (auto& x : b) for (auto& y : wall) m = std::min(m, boxGap(x, y)); return m; }
        double delta(int i, double a, double b) const { return wrap[i] ? std::remainder(b - a, 2 * M_PI) : b - a; }
        double dist(const VX& a, const VX& b, bool weighted = true) const { double s = 0; for (int i = 0; i < dim(); i++) { double e = delta(i, a(i), b(i)) * (useW && weighted ? w[i] : 1); s += e * e; } return std::sqrt(s); }
        VX mix(const VX& a, const VX& b, double t) const { VX r = a; for (int i = 0; i < dim(); i++) r(i) = a(i) + t * delta(i, a(i), b(i)); return r; }
        // does a half turn in a wrapped dimension make the direction of the straight connection ambiguous
        bool ambiguous(const VX& a, const VX& b) const { for (int i = 0; i < dim(); i++) if (wrap[i] && std::fabs(std::fabs(delta(i, a(i), b(i))) - M_PI) < 2e-3) return true; return false; }
        bool inBounds(const VX& q, double eps = 1e-4) const { for (int i = 0; i < dim(); i++) { double e = eps * (1 + std::fabs(hi[i]) + std::fabs(lo[i])); if (wrap[i]) continue; if (!(q(i) >= lo[i] - e && q(i) <= hi[i] + e)) return false; } return true; }
        // -1 certainly invalid, 1 certainly valid, 0 too close to call
        int valid(const VX& q) const { double g = gap(q), c = con ? con->margin(q) : 1e30; if (g < -0.05 || c < -1e-4) return -1; return g > 0.05 && c > 1e-4 ? 1 : 0; }
        VX sampleQ(Rng& r) const { VX q(dim()); for (int i = 0; i < dim(); i++) q(i) = F(r.u(lo[i], hi[i])); return q; }
        bool validQ(Rng& r, VX& q, int tries = 200) const { for (int k = 0; k < tries; k++) { q = sampleQ(r); if (valid(q) == 1 && inBounds(q, 0)) return true; } return false; }
        // longest certainly invalid stretch on the straight connection, in metric length; lastBad: is the end invalid
        double badRun(const VX& a, const VX& b, double& run, double step) const
        {
            double L = dist(a, b), worst = 0; int n = std::max(1, (int)std::ceil(L / step));
            for (int k = 1; k <= n; k++) { if (valid(mix(a, b, (double)k / n)) == -1) { run += L / n; worst = std::max(worst, run); } else run = 0; }
            return worst;
        }
    };
    inline VXf vf(const VX& q) { return q.cast<float>(); }
    inline VX vd(const VXf& q) { return q.cast<double>(); }
    inline Walls makeWalls(const std::vector<OBB>& w, VirtualRobot::CollisionCheckerPtr cc)
    {
        Walls r; r.set.reset(new VirtualRobot::SceneObjectSet("walls", cc));
        for (auto& b : w) { VirtualRobot::VisualizationNodePtr v = boxVis(2 * b.h); VirtualRobot::CollisionModelPtr c(new VirtualRobot::CollisionModel(v, "wall", cc)); VirtualRobot::ObstaclePtr o(new VirtualRobot::Obstacle("wall", v, c, VirtualRobot::SceneObject::Physics(), cc)); o->setGlobalPose(f4(b.g)); r.ob.push_back(o); r.set->addSceneObject(o); }
        return r;
    }
    struct WorldOpt { int walls = -1, balls = -1; bool slab = false; int kind = -1; int maxConfigs = 20000; bool narrow = true; bool fine = true; };
    inline VirtualRobot::CDManagerPtr makeCdm(VirtualRobot::RobotPtr rob, const std::vector<std::string>& links, const Walls& w, VirtualRobot::CollisionCheckerPtr cc, VirtualRobot::RobotNodeSetPtr* out = nullptr)
    {
        std::vector<VirtualRobot::RobotNodePtr> ln; for (auto& n : links) ln.push_back(rob->getRobotNode(n));
        VirtualRobot::RobotNodeSetPtr ls = rob->hasRobotNodeSet("links") ? rob->getRobotNodeSet("links") : VirtualRobot::RobotNodeSet::createRobotNodeSet(rob, "links", ln, VirtualRobot::RobotNodePtr(), VirtualRobot::RobotNodePtr(), true); if (out) *out = ls;
        VirtualRobot::CDManagerPtr m(new VirtualRobot::CDManager(cc)); if (!w.ob.empty()) m->addCollisionModelPair(ls, w.set); return m;
    }
    inline std::shared_ptr<PWorld> genWorld(Rng& r, const WorldOpt& o)
    {
        auto P = std::make_shared<PWorld>(); PWorld& p = *P; int kind = o.kind >= 0 ? o.kind : r.i(0, 2);
        auto box = [&]() { return V3(F(r.u(60, 120)), F(r.u(60, 120)), F(r.u(60, 120))); };
        auto add = [&](int type, const M4& l, const V3& ax, double lo, double hi, bool lim, bool col) { NodeDef n; n.name = fmt("J%zu", p.d.n.size()); n.parent = (int)p.d.n.size() - 1; n.type = type; n.local = toF(l); n.axis = ax; n.lo = F(lo); n.hi = F(hi); n.limitless = lim; n.init = std::min(std::max(0.0, n.lo), n.hi); n.col = col; n.box = box(); p.d.n.push_back(n); };
        p.d.name = "P"; p.d.type = "P"; double reach = 400;
        if (kind == 0)
        {   // a body moving in the plane
            add(PRI, M4::Identity(), V3(1, 0, 0), -400, 400, false, false); add(PRI, M4::Identity(), V3(0, 1, 0), -400, 400, false, r.p(0.7)); bool lim = r.p(0.5); bool rot = r.p(0.6); if (rot) add(REV, M4::Identity(), V3(0, 0, 1), lim && r.p(0.3) ? 0 : -M_PI, 0, lim, true); if (rot) { auto& n = p.d.n.back(); n.hi = F(n.lo + 2 * M_PI); } else p.d.n.back().col = true;
        }
        else
        {   // an arm
            int n = r.i(1, kind == 1 ? 2 : 4); add(FIX, M4::Identity(), V3(0, 0, 1), 0, 0, false, false); reach = 150.0 * (n + 1);
            for (int k = 0; k < n; k++) { bool lim = r.p(0.35); double l0 = lim ? (r.p(0.3) ? 0 : -M_PI) : r.u(-3, -0.3); add(REV, k == 0 ? M4::Identity() : T(r.u(100, 180), 0, r.u(-30, 30)), kind == 1 || r.p(0.5) ? V3(V3::UnitZ()) : V3(V3::UnitY()), l0, lim ? l0 + 2 * M_PI : r.u(0.3, 3), lim, false); }
            add(FIX, T(r.u(100, 180), 0, 0), V3(0, 0, 1), 0, 0, false, true); for (size_t k = 2; k + 1 < p.d.n.size(); k++) p.d.n[k].col = r.p(0.5);
        }
        p.cc.reset(new VirtualRobot::CollisionChecker()); p.rob = buildApi(p.d)->clone("P", p.cc); p.js = p.d.joints(); if (r.p(0.4)) r.shuffle(p.js);
        std::vector<VirtualRobot::RobotNodePtr> jn; for (int j : p.js) jn.push_back(p.rob->getRobotNode(p.d.n[j].name));
        p.set = VirtualRobot::RobotNodeSet::createRobotNodeSet(p.rob, "joints", jn, p.rob->getRootNode(), p.rob->getRobotNode(p.d.n.back().name), true);
        if (r.p(0.4)) { p.root = toF(r.pose(500)); p.rob->setGlobalPose(f4(p.root)); }
        int nw = o.walls >= 0 ? o.walls : r.i(0, 4);
        for (int k = 0; k < nw; k++) { M4 g = toF(p.root * (kind == 2 ? [&]() { M4 m = r.pose(1); return m; }() : R(V3::UnitZ(), r.u(-M_PI, M_PI)))); V3 c(r.u(-reach, reach), r.u(-reach, reach), kind == 2 ? r.u(-reach, reach) : 0); g.block<3, 1>(0, 3) = (p.root * (V3(c(0), c(1), c(2)).homogeneous())).head<3>(); g = toF(g); p.wall.push_back({g, V3(F(r.u(250, 500)), F(r.u(5, 25)), F(r.u(250, 500)))}); }
        p.walls = makeWalls(p.wall, p.cc); std::vector<std::string> ln; for (auto& n : p.d.n) if (n.col) ln.push_back(n.name); p.cdm = makeCdm(p.rob, ln, p.walls, p.cc, &p.links);
        p.cs.reset(new Saba::CSpaceSampled(p.rob, p.cdm, p.set, o.maxConfigs));
        for (int j : p.js) { p.lo.push_back(p.d.n[j].lo); p.hi.push_back(p.d.n[j].hi); p.wrap.push_back(p.d.n[j].limitless); p.w.push_back(1); }
        int narrow = o.narrow ? r.i(0, 4) : 0;
        if (narrow == 1) { VXf a(p.dim()), b(p.dim()); for (int i = 0; i < p.dim(); i++) { double L = p.hi[i] - p.lo[i], f = r.u(0.3, 1); a(i) = p.lo[i] + r.u(0, 1 - f) * L; b(i) = a(i) + f * L; p.lo[i] = a(i); p.hi[i] = b(i); if (p.wrap[i]) { p.wrap[i] = p.hi[i] - p.lo[i] > 2 * M_PI - 1e-4; p.limitlessNarrowed |= !p.wrap[i]; } } p.cs->setBoundaries(a, b); count("boundaries"); }
        if (narrow == 2) { int i = r.i(0, p.dim() - 1); double L = p.hi[i] - p.lo[i], a = F(p.lo[i] + r.u(0, 0.4) * L), b = F(p.hi[i] - r.u(0, 0.4) * L); p.lo[i] = a; p.hi[i] = b; if (p.wrap[i]) { p.wrap[i] = b - a > 2 * M_PI - 1e-4; p.limitlessNarrowed |= !p.wrap[i]; } if (r.p(0.3)) std::swap(a, b); p.cs->setBoundary(i, a, b); count("boundary"); }
        if (narrow == 3 && r.p(0.5)) { p.cs->checkForBorderlessDimensions(false); for (size_t i = 0; i < p.wrap.size(); i++) p.wrap[i] = false; count("no-borderless"); }
        bool mm = kind == 0; if (mm || r.p(0.3)) { for (int i = 0; i < p.dim(); i++) { bool pri = p.d.n[p.js[i]].type == PRI; p.w[i] = F(mm && r.p(0.8) ? (pri ? 0.01 : 1) : r.u(0.2, 3)); } if (!mm || r.p(0.8)) { p.useW = true; VXf wv(p.dim()); for (int i = 0; i < p.dim(); i++) wv(i) = p.w[i]; p.cs->setMetricWeights(wv); if (r.p(0.2)) { p.cs->enableWeights(false); p.useW = false; } count("weights"); } }
        double scale = 0; { VX a(p.dim()), b(p.dim()); for (int i = 0; i < p.dim(); i++) { a(i) = p.lo[i]; b(i) = p.wrap[i] ? p.lo[i] + M_PI : p.hi[i]; } scale = p.dist(a, b); }
        p.dcd = F(scale / (o.fine ? r.u(40, 150) : r.u(20, 60))); p.smp = F(p.dcd * (r.p(0.15) ? r.u(0.4, 1) : r.u(1, 6))); p.cs->setSamplingSize(p.smp); p.cs->setSamplingSizeDCD(p.dcd);
        int nb = o.balls >= 0 ? o.balls : r.i(0, 2);
        p.con.reset(new Con(p.dim())); p.con->wrap = p.wrap;
        double ext = 0; for (int i = 0; i < p.dim(); i++) ext = std::max(ext, p.hi[i] - p.lo[i]);
        for (int k = 0; k < nb; k++) p.con->ball.push_back({p.sampleQ(r), ext * r.u(0.03, 0.25)});
        if (o.slab) { int c = -1; for (int i = 0; i < p.dim(); i++) if (!p.wrap[i]) c = i; if (c >= 0) { double th = 1.6 * p.dcd / (p.useW ? p.w[c] : 1), mid = F(0.5 * (p.lo[c] + p.hi[c])); p.con->slabDim = c; p.con->slabLo = mid - th / 2; p.con->slabHi = mid + th / 2; } }
        if (nb || p.con->slabDim >= 0) p.cs->addConstraintCheck(p.con);
        return P;
    }
    // judges a path that the library declares valid
    inline void judgePath(const PWorld& p, Saba::CSpacePathPtr s, const VX* a, const VX* b, const std::string& k, double spacing)
    {
        if (!check((bool)s && s->getNrOfPoints() >= 1, k + "/empty", "no points")) return;
        std::vector<VX> q; for (unsigned i = 0; i < s->getNrOfPoints(); i++) q.push_back(vd(s->getPoint(i)));
        for (auto& x : q) if (!check(x.size() == p.dim() && x.allFinite(), k + "/bad-point", "point %s", ms(x).c_str())) return;
        auto same = [&](const VX& x, const VX& y) { for (int i = 0; i < p.dim(); i++) if (std::fabs(p.delta(i, x(i), y(i))) > 2e-5 * (1 + std::fabs(y(i)))) return false; return true; };
        if (a) check(same(q[0], *a), k + "/start", "path starts at %s, requested %s", ms(q[0]).c_str(), ms(*a).c_str());
        if (b) check(same(q.back(), *b), k + "/goal", "path ends at %s, requested %s", ms(q.back()).c_str(), ms(*b).c_str());
        check(p.valid(q[0]) != -1 && p.valid(q.back()) != -1, k + "/end-invalid", "start or end of the path is invalid");
        double run = 0, worst = 0; size_t wi = 0; double step = p.dcd / 8;
        for (size_t i = 0; i < q.size(); i++) { if (!check(p.inBounds(q[i]), k + "/bounds", "point %zu of %zu leaves the boundaries: %s", i, q.size(), ms(q[i]).c_str())) return; sig(hm(i + 1, q[i])); }
        for (size_t i = 0; i + 1 < q.size(); i++)
        {
            double L = p.dist(q[i], q[i + 1]); if (spacing > 0) check(L <= spacing * 1.001 + 1e-5, k + "/spacing", "points %zu and %zu are %g apart, sampling size %g, DCD %g", i, i + 1, L, p.smp, p.dcd);
            if (p.ambiguous(q[i], q[i + 1])) { run = 0; continue; }
            double m = p.badRun(q[i], q[i + 1], run, step); if (m > worst) { worst = m; wi = i; }
        }
        check(worst <= 1.2 * p.dcd + step, k + "/invalid-stretch", "an invalid stretch of length %g (DCD %g) passes point %zu of %zu", worst, p.dcd, wi, q.size());
    }
}
