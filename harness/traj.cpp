// C13: stored joint trajectories and configurations. C14: time-optimal trajectories.
#include "rob.h"
#include <list>
#include <iomanip>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h>
#include <VirtualRobot/TimeOptimalTrajectory/Path.h>
#include <VirtualRobot/XML/BaseIO.h>
#include <VirtualRobot/XML/rapidxml.hpp>
using namespace VirtualRobot; using namespace vh;
using VX = Eigen::VectorXd; using VF = Eigen::VectorXf;
struct IO : BaseIO
{
    static TrajectoryPtr traj(const std::string& xml, std::vector<RobotPtr> robots) { std::vector<char> b(xml.begin(), xml.end()); b.push_back(0); rapidxml::xml_document<char> d; d.parse<0>(b.data()); return processTrajectory(d.first_node(), robots); }
    static bool conf(const std::string& xml, std::vector<RobotConfig::Configuration>& c, std::string& name, std::string& tcp)
    {
        std::vector<char> b(xml.begin(), xml.end()); b.push_back(0); rapidxml::xml_document<char> d; d.parse<0>(b.data());
        std::vector<std::vector<RobotConfig::Configuration>> cs; std::vector<std::string> ns, ts; if (!processConfigurationNodeList(d.first_node(), cs, ns, ts) || cs.size() != 1) return false; c = cs[0]; name = ns[0]; tcp = ts[0]; return true;
    }
};
static bool sameV(const VF& a, const VF& b) { return a.size() == b.size() && (a.size() == 0 || (a.array() == b.array()).all()); }
static bool samePath(const std::vector<VF>& a, const std::vector<VF>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!sameV(a[i], b[i])) return false; return true; }
static double lengthRef(const std::vector<VF>& p) { double l = 0; for (size_t i = 0; i + 1 < p.size(); i++) l += (p[i + 1].cast<double>() - p[i].cast<double>()).norm(); return l; }
static void checkTraj(Rng& r, Trajectory& t, const std::vector<VF>& ref, const std::string& what)
{
    check(t.getNrOfPoints() == ref.size() && samePath(t.getPoints(), ref) && samePath(t.getData(), ref), "sequence", "%s: the stored points differ from the expected sequence (%u / %zu points)", what.c_str(), t.getNrOfPoints(), ref.size());
    if (!samePath(t.getPoints(), ref)) return;
    double L = lengthRef(ref); checkNear(t.getLength(), L, 1e-4 + 2e-6 * L * (1 + 0.1 * ref.size()), "length", what);
    if (ref.empty()) return;
    double ext = 0; for (auto& p : ref) ext = std::max(ext, (double)p.cwiseAbs().maxCoeff());
    // positions along the trajectory: arc length, end points, passed index
    std::vector<double> cum{0}; for (size_t i = 0; i + 1 < ref.size(); i++) cum.push_back(cum.back() + (ref[i + 1].cast<double>() - ref[i].cast<double>()).norm());
    std::vector<float> ts{0.f, 1.f, r.f(0, 1), r.f(0, 1), r.f(0, 1), 1e-7f, 0.9999999f}; if (L > 0) for (int k = 0; k < 3; k++) ts.push_back(std::min(1.0, cum[r.i(0, ref.size() - 1)] / L));
    int last = -1; std::sort(ts.begin(), ts.end());
    for (float tt : ts)
    {
        VF p; int idx = -77; t.interpolate(tt, p, &idx); VF p2; t.interpolate(tt, p2); check(sameV(p, p2), "interpolate-index-arg", "asking for the index changes the result");
        double want = (double)tt * L; double tol = 1e-4 * (1 + ext) + 4e-6 * L * (1 + 0.1 * ref.size()); if (!check(p.size() == (int)t.getDimension(), "interpolate-dim", "%d values", (int)p.size())) return;
        double best = 1e300; VX pd = p.cast<double>();
        for (size_t i = 0; i + 1 < ref.size(); i++)
        {
            VX a = ref[i].cast<double>(), b = ref[i + 1].cast<double>(); double l = (b - a).norm();
            double s = want - cum[i]; if (s < -tol || s > l + tol) continue; double f = l > 0 ? std::min(1.0, std::max(0.0, s / l)) : 0; best = std::min(best, (a + f * (b - a) - pd).norm());
        }
        if (ref.size() == 1) best = (ref[0].cast<double>() - pd).norm();
        check(best <= tol, "interpolate", "%s: t=%.9g gives a configuration %g away from the one at that fraction of the length (%zu points, length %g)", what.c_str(), tt, best, ref.size(), L);
        if (tt == 0 ? !sameV(p, ref.front()) : tt == 1 && !sameV(p, ref.back())) viol("interpolate-end", what + ": t=0/1 is not the first/last point"); ev();
        bool idxOk = idx >= 0 && idx < (int)ref.size() && cum[idx] <= want + tol && (idx + 1 >= (int)ref.size() || cum[idx + 1] >= want - tol);
        check(idxOk, "interpolate-index", "%s: t=%.9g reports index %d, position %g of length %g, %zu points", what.c_str(), tt, idx, want, L, ref.size());
        check(idx >= last || L == 0, "interpolate-index-order", "%s: index decreases from %d to %d", what.c_str(), last, idx); last = idx; count("interpolate");
        sig(hm(hmix(ref.size(), (uint64_t)(tt * 1e6)), p));
    }
}
static VF genConf(Rng& r, const RobotDef& d, const std::vector<int>& js, bool inLimits)
{
    VF v(js.size()); for (size_t i = 0; i < js.size(); i++) { auto& n = d.n[js[i]]; double a = n.lo, b = n.hi; if (!inLimits) { a -= 1; b += 1; } v(i) = r.f(a, b); } return v;
}
static void c13(Rng& r)
{
    GenOpt o; o.prop = false; o.limitless = false; RobotDef d = genRobot(r, o); auto js = d.joints(); if (js.empty()) return;
    RobotPtr rob = build(d, r.p(0.3)), twin = build(d, false); M4 root = toF(r.pose(500)); rob->setGlobalPose(f4(root));
    std::vector<std::string> names; for (int j : js) names.push_back(d.n[j].name); int tcp = r.i(0, d.n.size() - 1);
    RobotNodeSetPtr rns = RobotNodeSet::createRobotNodeSet(rob, "traj", names, "", d.n[tcp].name, true);
    // history of edits against a plain vector
    TrajectoryPtr t(new Trajectory(rns, "walk")); std::vector<VF> ref; bool lim = r.p(0.7);
    auto conf = [&]() { if (!ref.empty() && r.p(0.15)) return ref[r.next() % ref.size()]; return genConf(r, d, js, lim); };
    int ops = r.i(1, 25);
    for (int k = 0; k < ops; k++)
    {
        int op = r.i(0, 12); at(fmt("operation %d of kind %d with %zu points", k, op, ref.size()));
        switch (op)
        {
            case 0: case 1: case 2: case 3: { VF c = conf(); t->addPoint(c); ref.push_back(c); break; }
            case 4: { VF c = conf(); unsigned p = r.i(0, ref.size() + 1); t->insertPosition(p, c); if (p <= ref.size()) ref.insert(ref.begin() + p, c); break; }
            case 5: { std::vector<VF> cs; for (int i = r.i(0, 3); i--;) cs.push_back(conf()); auto cs0 = cs; unsigned p = r.i(0, ref.size()); t->insertPosition(p, cs); ref.insert(ref.begin() + p, cs.begin(), cs.end()); check(samePath(cs, cs0), "insert-input", "the inserted list changed"); break; }
            case 6: { unsigned p = r.i(0, ref.size() + 1); t->erasePosition(p); if (p < ref.size()) ref.erase(ref.begin() + p); break; }
            case 7: { unsigned a = r.i(0, ref.size() + 1), b = r.i(0, ref.size() + 1); unsigned n = t->removePositions(a, b); unsigned w = 0; if (a < ref.size() && b < ref.size() && a <= b) { w = b - a + 1; ref.erase(ref.begin() + a, ref.begin() + b + 1); } check(n == w, "remove-count", "removePositions(%u,%u) reports %u, removed %u", a, b, n, w); break; }
            case 8: t->reverse(); std::reverse(ref.begin(), ref.end()); break;
            case 9: { TrajectoryPtr u; std::vector<VF> ur; bool self = r.p(0.2); if (self) { u = t; ur = ref; } else { u.reset(new Trajectory(rns, "u")); for (int i = r.i(0, 4); i--;) { VF c = conf(); u->addPoint(c); ur.push_back(c); } }
                      unsigned p = r.i(0, ref.size()); if (self && ref.size() > 30) break; t->insertTrajectory(p, u); ref.insert(ref.begin() + p, ur.begin(), ur.end()); if (!self) check(samePath(u->getPoints(), ur), "insert-input", "the inserted trajectory changed"); count(self ? "insert-self" : "insert-trajectory"); break; }
            case 10: { if (ref.empty()) break; unsigned p = r.i(0, ref.size() - 1); VF c = conf(); t->getPointRef(p) = c; ref[p] = c; break; }
            case 11: if (r.p(0.1)) { t->reset(); ref.clear(); } break;
            case 12:
            {
                TrajectoryPtr u = t->clone(); check(u->getName() == t->getName() && u->getRobotNodeSet() == rns && samePath(u->getPoints(), ref), "clone", "clone differs"); u->addPoint(conf()); if (r.p(0.5)) u->reverse(); check(samePath(t->getPoints(), ref), "clone-independent", "editing the copy changed the original");
                if (ref.empty()) break;
                unsigned a = r.i(0, ref.size()), b = r.i(0, ref.size()); TrajectoryPtr s = t->createSubPath(a, b); std::vector<VF> st; bool g = t->getPoints(a, b, st);
                if (a >= ref.size() || b >= ref.size()) check(!s && !g && st.empty(), "subpath-range", "sub path %u..%u of %zu points", a, b, ref.size());
                else if (a <= b) { std::vector<VF> w(ref.begin() + a, ref.begin() + b + 1); check(s && samePath(s->getPoints(), w), "subpath", "sub path %u..%u wrong", a, b); check(g && samePath(st, w), "getpoints", "points %u..%u wrong", a, b); }
                break;
            }
        }
        check(samePath(t->getPoints(), ref), "edit", "after operation %d: stored points differ from the expected sequence (%u / %zu points)", op, t->getNrOfPoints(), ref.size());
        if (!samePath(t->getPoints(), ref)) return;
    }
    at("queries"); checkTraj(r, *t, ref, "edited"); check(t->getDimension() == js.size(), "dimension", "dimension %u", t->getDimension());
    if (!ref.empty()) { unsigned p = r.i(0, ref.size() - 1); check(sameV(t->getPoint(p), ref[p]), "getpoint", "point %u", p); }
    // degenerate ones
    { Trajectory z(rns, "still"); VF c = conf(); std::vector<VF> zr(r.i(1, 4), c); for (auto& x : zr) z.addPoint(x); checkTraj(r, z, zr, "standing still"); }
    // the path in space
    {
        std::vector<VF> wr; TrajectoryPtr w(new Trajectory(rns, "space")); for (int i = r.i(1, 5); i--;) { VF c = genConf(r, d, js, true); w->addPoint(c); wr.push_back(c); }
        VF q0 = genConf(r, d, js, true); rob->setJointValues(rns, q0); VF before; rns->getJointValues(before); int nd = r.i(0, d.n.size() - 1); bool dflt = r.p(0.3); auto ps = w->createWorkspaceTrajectory(dflt ? RobotNodePtr() : rob->getRobotNode(d.n[nd].name)); if (dflt) nd = tcp;
        check(ps.size() == wr.size(), "workspace-size", "%zu poses for %zu points", ps.size(), wr.size());
        for (size_t i = 0; i < ps.size() && i < wr.size(); i++) { std::vector<double> q(d.n.size(), 0); for (size_t k = 0; k < js.size(); k++) q[js[k]] = wr[i](k); M4 g = d.fk(root, q)[nd]; checkPose(ps[i], g, 1e-4, 0.05 + 1e-5 * g.block<3, 1>(0, 3).norm(), "workspace", fmt("pose of point %zu", i)); count("workspace"); }
        VF after; rns->getJointValues(after); check((after - before).cwiseAbs().maxCoeff() < 1e-5, "workspace-restore", "joint values not restored");
        std::vector<double> q(d.n.size(), 0); for (size_t k = 0; k < js.size(); k++) q[js[k]] = before(k); M4 g = d.fk(root, q)[nd]; checkPose(rob->getRobotNode(d.n[nd].name)->getGlobalPose(), g, 1e-4, 0.05 + 1e-5 * g.block<3, 1>(0, 3).norm(), "workspace-restore", "node pose afterwards");
    }
    // stored and read again
    {
        std::string x = t->toXML(r.i(0, 3)); at("reading a stored trajectory"); TrajectoryPtr u = IO::traj(x, {rob}); check(u && u->getName() == t->getName() && u->getNrOfPoints() == ref.size() && u->getRobotNodeSet() == rns, "xml", "stored trajectory reads back as something else");
        if (u && u->getNrOfPoints() == ref.size()) for (size_t i = 0; i < ref.size(); i++) checkMat(u->getPoint(i), ref[i].cast<double>(), 1e-5 * (1 + ref[i].cwiseAbs().maxCoeff()), "xml-point", fmt("point %zu read back", i));
        count("xml");
    }
    // configurations
    {
        std::map<std::string, float> want; std::vector<RobotConfig::Configuration> cs; std::vector<std::string> cn; std::vector<float> cv; std::vector<RobotNodePtr> cp;
        for (int j : js) if (r.p(0.7)) { float v = r.f(d.n[j].lo, d.n[j].hi); want[d.n[j].name] = v; RobotConfig::Configuration c; c.name = d.n[j].name; c.value = v; cs.push_back(c); cn.push_back(c.name); cv.push_back(v); cp.push_back(rob->getRobotNode(c.name)); }
        int how = r.i(0, 3); RobotConfigPtr c; at(fmt("configuration built in way %d", how));
        if (how == 0) c.reset(new RobotConfig(rob, "pose", cs)); else if (how == 1) c.reset(new RobotConfig(rob, "pose", cn, cv)); else if (how == 2) c.reset(new RobotConfig(rob, "pose", cp, cv)); else { c.reset(new RobotConfig(rob, "pose")); for (auto& k : cs) if (r.p(0.5)) c->setConfig(k); else c->setConfig(k.name, k.value); }
        if (!want.empty() && r.p(0.5)) { auto it = want.begin(); std::advance(it, r.next() % want.size()); auto& n = d.n[std::find_if(d.n.begin(), d.n.end(), [&](const NodeDef& m) { return m.name == it->first; }) - d.n.begin()]; it->second = r.f(n.lo, n.hi); c->setConfig(it->first, it->second); }
        check(!c->setConfig("no such node", 1), "config-unknown", "a configuration accepted an unknown node"); bool tc = r.p(0.5); if (tc) c->setTCP(d.n[tcp].name);
        auto eq = [&](RobotConfigPtr k, const std::string& what) { check(k->getRobotNodeJointValueMap() == want, "config-map", "%s: stored values differ", what.c_str()); for (auto& n : d.n) { check(k->hasConfig(n.name) == (want.count(n.name) > 0), "config-has", "%s: %s", what.c_str(), n.name.c_str()); check(k->getConfig(n.name) == (want.count(n.name) ? want[n.name] : 0.f), "config-get", "%s: %s", what.c_str(), n.name.c_str()); } check(k->getNodes().size() == want.size(), "config-nodes", "%s", what.c_str()); };
        eq(c, "built"); RobotConfigPtr k = c->clone(twin); eq(k, "copied to another robot"); check(k->getRobot() == twin && k->getName() == "pose" && k->hasTCP() == tc && (!tc || k->getTCP() == twin->getRobotNode(d.n[tcp].name)), "config-clone", "copy of a configuration differs"); for (auto& n : k->getNodes()) check(n->getRobot() == twin, "config-clone-nodes", "copy refers to the original's nodes");
        // applying it
        for (RobotPtr target : {rob, twin})
        {
            std::map<std::string, float> pre; for (int j : js) pre[d.n[j].name] = r.f(d.n[j].lo, d.n[j].hi); target->setJointValues(pre); M4 g0 = toF(r.pose(300)); target->setGlobalPose(f4(g0)); bool ok = target == rob && r.p(0.5) ? c->setJointValues() : c->setJointValues(target); check(ok, "config-apply", "applying a configuration failed");
            std::vector<double> q(d.n.size(), 0); for (int j : js) { const std::string& nm = d.n[j].name; q[j] = want.count(nm) ? want[nm] : pre[nm]; checkNear(target->getRobotNode(nm)->getJointValue(), q[j], 1e-5 * (1 + std::fabs(q[j])), "config-applied", "joint " + nm); }
            auto g = d.fk(g0, q); for (size_t i = 0; i < d.n.size(); i++) checkPose(target->getRobotNode(d.n[i].name)->getGlobalPose(), g[i], 1e-4, 0.05 + 1e-5 * g[i].block<3, 1>(0, 3).norm(), "config-pose", "pose after applying a configuration"); count("config-applied");
        }
        check(c->getRobotNodeJointValueMap() == want, "config-stable", "applying changed the configuration");
        // a robot lacking one of the nodes is not touched
        if (!want.empty()) { RobotDef e = d; for (auto& n : e.n) n.name = "other_" + n.name; RobotPtr alien = build(e, false); std::vector<float> a, b; for (auto& n : alien->getRobotNodes()) a.push_back(n->getJointValue()); check(!c->setJointValues(alien), "config-alien", "a configuration was applied to a robot without its nodes"); for (auto& n : alien->getRobotNodes()) b.push_back(n->getJointValue()); check(a == b, "config-alien", "values of a robot without the nodes changed"); }
        // text form
        std::vector<RobotConfig::Configuration> back; std::string nm, tn; at("reading a stored configuration"); check(IO::conf(c->toXML(r.i(0, 2)), back, nm, tn), "config-xml", "cannot read"); check(nm == "pose" && tn == (tc ? d.n[tcp].name : ""), "config-xml", "name '%s' tcp '%s'", nm.c_str(), tn.c_str()); check(back.size() == want.size(), "config-xml", "%zu of %zu values", back.size(), want.size());
        for (auto& x : back) if (check(want.count(x.name) > 0, "config-xml", "unknown node %s", x.name.c_str())) checkNear(x.value, want[x.name], 1e-5 * (1 + std::fabs(want[x.name])), "config-xml-value", x.name);
        // units in hand-written text
        double v = r.u(-3, 3); struct U { const char* n; double f; } us[] = {{"radian", 1}, {"rad", 1}, {"degree", M_PI / 180}, {"deg", M_PI / 180}, {"mm", 1}, {"millimeter", 1}, {"m", 1000}, {"meter", 1000}}; auto& u = us[r.i(0, 7)];
        check(IO::conf(fmt("<Configuration name='a'><Node name='%s' unit%s='%s' value='%s'/></Configuration>", names[0].c_str(), r.p(0.5) ? "s" : "", u.n, n9(v).c_str()), back = {}, nm, tn) && back.size() == 1, "config-units", "cannot read unit %s", u.n); if (back.size() == 1) checkNear(back[0].value, v * u.f, 1e-5 * (1 + std::fabs(v * u.f)), fmt("config-units/%s", u.n), "value");
        count("config");
    }
}

// ---------------------------------------------------------------- C14
static double polyDist(const std::vector<VX>& w, const VX& p) { double b = 1e300; for (size_t i = 0; i + 1 < w.size(); i++) { VX a = w[i], d = w[i + 1] - a; double l = d.squaredNorm(), f = l > 0 ? std::min(1.0, std::max(0.0, d.dot(p - a) / l)) : 0; b = std::min(b, (a + f * d - p).norm()); } return b; }
static void c14(Rng& r)
{
    int dim = r.i(1, 7), nw = r.p(0.3) ? 2 : r.i(3, 7); double scale = r.pick({0.3, 1.0, 3.0, 10.0}); std::vector<VX> w; double dev = scale * r.pick({0.005, 0.02, 0.1, 0.5}); bool axis = r.p(0.3); int deg = 0;
    for (int i = 0; i < nw; i++)
    {
        VX p(dim);
        for (int tries = 0;; tries++)
        {
            if (axis && i) { p = w.back(); for (int k = 0; k < dim; k++) if (r.p(0.4)) p(k) += scale * r.u(-1, 1); } else for (int k = 0; k < dim; k++) p(k) = scale * r.u(-1, 1);
            if (i && (p - w.back()).norm() < 0.1 * scale) continue;
            if (i > 1 && tries < 50) { VX a = (w[i - 1] - w[i - 2]).normalized(), b = (p - w[i - 1]).normalized(); if (a.dot(b) < -0.95) continue; }   // near reversals are a separate class
            break;
        }
        w.push_back(p);
    }
    if (r.p(0.1) && nw > 2) { deg = 1; w[1] = 0.5 * (w[0] + w[2]); }                                       // collinear
    if (r.p(0.07)) { deg = 2; int k = r.i(0, nw - 1); w.insert(w.begin() + k, w[k]); }                     // a repeated way point
    if (dim == 1 && nw > 2) { deg = 1; for (size_t i = 1; i < w.size(); i++) w[i](0) = w[i - 1](0) + scale * r.u(0.2, 1); }
    VX vm(dim), am(dim); for (int k = 0; k < dim; k++) { vm(k) = r.pick({0.2, 1.0, 1.0, 3.0}) * r.u(0.5, 1); am(k) = r.pick({0.5, 1.0, 2.0, 10.0}) * r.u(0.5, 1); }
    double ts = r.pick({0.001, 0.002, 0.005, 0.002, 0.001, 0.0005});
    at(fmt("path of %zu way points in %d dimensions, scale %g, deviation %g, step %g, class %d", w.size(), dim, scale, dev, ts, deg));
    std::list<VX> wl(w.begin(), w.end()); Path p0(wl, dev); Path p(p0); if (r.p(0.3)) { std::list<VX> other{w.back(), w.front()}; Path pa(other, dev); pa = p0; p = pa; pa = pa; checkNear(pa.getLength(), p0.getLength(), 0, "path-assign", "length of an assigned path"); count("assigned"); } double L = p.getLength(), PL = 0; for (size_t i = 0; i + 1 < w.size(); i++) PL += (w[i + 1] - w[i]).norm();
    check(std::isfinite(L) && L <= PL + 1e-6 && L > 0.5 * (w.back() - w.front()).norm(), "path-length", "length %g, way points %g apart", L, PL);
    auto segSwitch = p.getSwitchingPoints(); std::vector<double> disc; for (auto& s : segSwitch) if (s.second) disc.push_back(s.first);
    auto nearDisc = [&](double s, double e) { for (double x : disc) if (std::fabs(x - s) < e) return true; return false; };
    check((p.getConfig(0) - w.front()).norm() < 1e-6 && (p.getConfig(L) - w.back()).norm() < 1e-6, "path-ends", "path does not start/end at the first/last way point");
    for (int k = 0; k < 60; k++)
    {
        double s = L * r.u(0.001, 0.999), h = std::min(1e-5 * scale, 1e-3 * dev); if (nearDisc(s, 3 * h)) continue; VX c = p.getConfig(s), t = p.getTangent(s), cu = p.getCurvature(s);
        check(polyDist(w, c) <= dev * 1.0001 + 1e-6, "path-deviation", "path point at %g is %g off the way point lines, allowed %g", s, polyDist(w, c), dev);
        checkNear(t.norm(), 1, 1e-5, "path-tangent-unit", "tangent norm"); checkMat(t, (p.getConfig(s + h) - p.getConfig(s - h)) / (2 * h), 2e-3, "path-tangent", "tangent against differences"); VX dt = (p.getTangent(s + h) - p.getTangent(s - h)) / (2 * h); check((cu - dt).norm() <= 1e-3 * (1 + cu.norm()) + 1e-9 / h, "path-curvature", "curvature %g, differences of the tangent %g", cu.norm(), dt.norm());
    }
    for (double s : disc) check((p.getConfig(s - 1e-9) - p.getConfig(s + 1e-9)).norm() < 1e-6 * scale, "path-continuous", "path jumps at %g", s);
    TimeOptimalTrajectory T0(p, vm, am, ts);
    if (!T0.isValid()) { count("not-solved"); count(fmt("not-solved-%d", deg).c_str()); return; }
    std::unique_ptr<TimeOptimalTrajectory> holder; TimeOptimalTrajectory* T = &T0; if (r.p(0.3)) { { TimeOptimalTrajectory T1(T0); T1.getPosition(T1.getDuration() * 0.4); holder.reset(new TimeOptimalTrajectory(T1)); } T = holder.get(); count("copied"); }
    double D = T->getDuration(); count("solved"); if (!check(std::isfinite(D) && D > 0, "duration", "duration %g", D)) return;
    if (r.p(0.5)) { double t = D * r.u(0.3, 0.9); check((T->getPosition(t) - T0.getPosition(t)).norm() <= 1e-9 && (T->getVelocity(t) - T0.getVelocity(t)).norm() <= 1e-9, "copy", "a copy gives another position or velocity"); }
    sig(hm(hm(hmix(nw, (uint64_t)(D * 1e6)), w.back()), vm));
    double ptol = 1e-4 * scale + ts * 1e-3; VX p_0 = T->getPosition(0), p_D = T->getPosition(D);
    check((p_0 - w.front()).norm() <= ptol, "start", "starts %g away from the first way point", (p_0 - w.front()).norm()); check((p_D - w.back()).norm() <= ptol, "end", "ends %g away from the last way point", (p_D - w.back()).norm());
    // lower bound: every joint alone
    double lb = 0; for (int k = 0; k < dim; k++) { double dist = std::fabs(w.back()(k) - w.front()(k)), t = dist < vm(k) * vm(k) / am(k) ? 2 * std::sqrt(dist / am(k)) : dist / vm(k) + vm(k) / am(k); lb = std::max(lb, t); }
    check(D >= lb * 0.995 - 3 * ts, "too-fast", "duration %g, but a single joint needs %g", D, lb);
    if (w.size() == 2)
    {   // straight line: the tightest limits along the direction
        VX u = (w[1] - w[0]); double dist = u.norm(); u /= dist; double pv = 1e300, pa = 1e300; for (int k = 0; k < dim; k++) if (u(k) != 0) { pv = std::min(pv, vm(k) / std::fabs(u(k))); pa = std::min(pa, am(k) / std::fabs(u(k))); }
        double opt = dist < pv * pv / pa ? 2 * std::sqrt(dist / pa) : dist / pv + pv / pa; check(std::fabs(D - opt) <= opt * 0.005 + 3 * ts, "not-optimal", "straight line: duration %g, optimum %g", D, opt); count("straight");
    }
    // sampling
    int N = 400; double dtm = D / N, vmax = 0, amax = 0, vat = 0, aat = 0; VX prev = p_0; int active = 0, samples = 0, over = 0; double maxStep = 0;
    std::vector<int> order(N + 1); for (int i = 0; i <= N; i++) order[i] = i; bool shuffled = r.p(0.3); if (shuffled) r.shuffle(order); std::vector<VX> P(N + 1), V(N + 1);
    for (int i : order) { P[i] = T->getPosition(std::min(D, i * dtm)); V[i] = T->getVelocity(std::min(D, i * dtm)); }
    for (int i = 0; i <= N; i++)
    {
        double t = std::min(D, i * dtm); double off = polyDist(w, P[i]);
        check(P[i].allFinite() && V[i].allFinite(), "finite", "position or velocity at %g is not a number", t); check(off <= dev * 1.001 + ptol, "deviation", "position at %g is %g off the path, allowed %g", t, off, dev);
        double vr = (V[i].array().abs() / vm.array()).maxCoeff(); if (vr > vmax) { vmax = vr; vat = t; }
        double h = std::min(1e-4, D * 1e-3); double ar = 0;
        if (i % 3 == 0 && t > 2 * h && t < D - 2 * h) { VX va = T->getVelocity(t - h), vb = T->getVelocity(t + h); VX a = (vb - va) / (2 * h); ar = (a.array().abs() / am.array()).maxCoeff(); VX pa = T->getPosition(t - h), pb = T->getPosition(t + h); VX nv = (pb - pa) / (2 * h); double vd = ((nv - V[i]).array().abs() / vm.array()).maxCoeff(); check(vd <= 0.02 + (am.array() / vm.array()).maxCoeff() * h * 4, "velocity-consistent", "velocity at %g differs from the derivative of the position by %g of the limit", t, vd); samples++; if (std::max(ar, vr) > 0.95) active++; if (ar > 1.1) over++; if (ar > amax) { amax = ar; aat = t; } }
        if (i) maxStep = std::max(maxStep, ((P[i] - P[i - 1]).array().abs() / vm.array()).maxCoeff() / dtm);
    }
    double curv = 0; for (int k = 0; k < 200; k++) curv = std::max(curv, p.getCurvature(L * k / 200.).norm()); double pvel = 0; for (auto& x : V) pvel = std::max(pvel, x.norm()); double slack = 0.005 + 0.3 * std::min(0.3, ts * pvel * curv);   // one integration step turns by this angle
    check(vmax <= 1 + slack, "velocity-limit", "velocity reaches %.4f of the limit at %g of %g (step %g)", vmax, vat, D, ts);
    check(maxStep <= 1.005 + slack, "step-limit", "positions %g apart move at %.4f of the velocity limit", dtm, maxStep);
    check(amax <= 1.1 + 15 * std::min(0.3, ts * pvel * curv) || over <= 3 + samples / 50, "acceleration-limit", "acceleration exceeds the limit at %d of %d samples, reaches %.4f of it at %g of %g (step %g)", over, samples, amax, aat, D, ts);
    if (over) count("acceleration-spike"); if (samples >= 50) check(active >= 0.9 * samples, "not-optimal", "no velocity or acceleration limit is active in %d of %d samples", samples - active, samples);
    if (getenv("VH_STAT")) fprintf(stderr, "STAT amax %.4f at %g of %g vmax %.5f active %.3f deg %d ts %g nw %zu dim %d\n", amax, aat, D, vmax, (double)active / std::max(1, samples), deg, ts, w.size(), dim);
    if (getenv("VH_STAT")) { for (auto& x : w) std::cerr << "W " << std::setprecision(12) << x.transpose() << "\n"; std::cerr << "vm " << vm.transpose() << " am " << am.transpose() << " dev " << dev << "\n"; for (int k = -10; k <= 10; k++) { double t = aat + k * 5e-5; if (t > 0 && t < D) std::cerr << t << " P " << T->getPosition(t).transpose() << " V " << T->getVelocity(t).transpose() << "\n"; } }
    count("sampled", samples);
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C13", c13, 3000, 40000}, {"C14", c14, 300, 20000}}); }
