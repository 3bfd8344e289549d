// C12: mass, center of mass and inertia of objects, robots, node sets and their copies.
#include "mesh.h"
#include <Eigen/Eigenvalues>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/XML/ObjectIO.h>
using namespace vh; using namespace VirtualRobot;
using V3f = Eigen::Vector3f;
using Phys = SceneObject::Physics;
static V3 at4(const M4& m, const V3& p) { return m.block<3, 3>(0, 0) * p + m.block<3, 1>(0, 3); }
static void checkV(const V3& got, const V3& want, double tol, const std::string& key, const std::string& what = "")
{ double e = (got - want).norm(); check(std::isfinite(e) && e <= tol, key, "%s: got (%.6g %.6g %.6g), expected (%.6g %.6g %.6g), off by %.3g > %.3g", what.c_str(), got(0), got(1), got(2), want(0), want(1), want(2), e, tol); }
static void checkI(const M3& got, const M3& want, double rel, const std::string& key, const std::string& what = "")
{ double e = (got - want).cwiseAbs().maxCoeff(), t = rel * std::max(1e-12, want.cwiseAbs().maxCoeff()) + 1e-12; check(std::isfinite(e) && e <= t, key, "%s: inertia off by %.4g > %.3g; got diag (%.6g %.6g %.6g), expected (%.6g %.6g %.6g)", what.c_str(), e, t, got(0, 0), got(1, 1), got(2, 2), want(0, 0), want(1, 1), want(2, 2)); }
static void checkPsd(const M3& I, const std::string& key, const std::string& what)
{
    double s = std::max(1e-12, I.cwiseAbs().maxCoeff());
    check((I - I.transpose()).cwiseAbs().maxCoeff() <= 1e-5 * s, key + "/symmetric", "%s: inertia is not symmetric", what.c_str());
    Eigen::SelfAdjointEigenSolver<M3> e((I + I.transpose()) / 2); check(e.eigenvalues().minCoeff() >= -1e-5 * s, key + "/semidefinite", "%s: smallest eigenvalue %.4g", what.c_str(), e.eigenvalues().minCoeff());
    // triangle inequality of principal moments: no body violates it
    check(e.eigenvalues()(0) + e.eigenvalues()(1) >= e.eigenvalues()(2) * (1 - 1e-5) - 1e-9, key + "/triangle", "%s: principal moments %.4g %.4g %.4g", what.c_str(), e.eigenvalues()(0), e.eigenvalues()(1), e.eigenvalues()(2));
}
static M3 genInertia(Rng& r) { M3 q = r.rot(); V3 a(r.u(0.001, 1), r.u(0.001, 1), r.u(0.001, 1)); V3 e(a(1) + a(2), a(0) + a(2), a(0) + a(1)); M3 m = q * e.asDiagonal() * q.transpose(); m = (m + m.transpose().eval()) / 2; for (int k = 0; k < 9; k++) m(k) = F(m(k)); m = (m + m.transpose().eval()) / 2; for (int k = 0; k < 9; k++) m(k) = F(m(k)); return m; }
static void bbox(const Mesh& m, V3& lo, V3& hi) { lo = V3::Constant(INFINITY); hi = -lo; std::vector<bool> used(m.v.size()); for (auto& t : m.f) for (int k : t) { lo = lo.cwiseMin(m.v[k]); hi = hi.cwiseMax(m.v[k]); } }
static M3 boxInertia(const V3& lmm, double mass) { V3 l = lmm * 0.001; M3 I = M3::Zero(); I(0, 0) = (l(1) * l(1) + l(2) * l(2)) / 12; I(1, 1) = (l(0) * l(0) + l(2) * l(2)) / 12; I(2, 2) = (l(0) * l(0) + l(1) * l(1)) / 12; return I * mass; }
static Mesh shifted(Mesh m, const V3& d) { for (auto& p : m.v) for (int k = 0; k < 3; k++) p(k) = F(p(k) + d(k)); return m; }

// what a body is expected to be
struct Body { double mass = 0; V3 com = V3::Zero(); M3 inertia = M3::Identity(); };
struct Gen { Phys p; Mesh vis, col; bool hasVis = false, hasCol = false; Body b; };
static Gen genBody(Rng& r)
{
    Gen g; double e = r.pick({5.0, 50.0, 500.0});
    int k = r.i(0, 3); g.hasVis = k & 1; g.hasCol = k & 2;
    if (g.hasVis) g.vis = shifted(genMesh(r, e), V3(r.u(-e, e), r.u(-e, e), r.u(-e, e)));
    if (g.hasCol) g.col = shifted(genMesh(r, e), V3(r.u(-e, e), r.u(-e, e), r.u(-e, e)));
    g.p.massKg = r.pick({0.0f, 0.001f, r.f(0.01, 20), r.f(0.01, 20), 5000.f}); g.b.mass = g.p.massKg;
    bool custom = r.p(0.5); g.p.comLocation = custom ? Phys::eCustom : Phys::eVisuBBoxCenter;
    g.b.com = V3(F(r.u(-e, e)), F(r.u(-e, e)), F(r.u(-e, e))); if (!custom) g.b.com.setZero();
    g.p.localCoM = g.b.com.cast<float>();
    const Mesh& m = g.hasCol ? g.col : g.vis; V3 lo(0, 0, 0), hi(0, 0, 0); if (g.hasVis || g.hasCol) bbox(m, lo, hi);
    if (!custom && (g.hasVis || g.hasCol)) g.b.com = (lo + hi) / 2;
    int ik = r.i(0, 2);
    if (ik == 0) g.b.inertia = genInertia(r), g.p.inertiaMatrix = g.b.inertia.cast<float>();
    else if (ik == 1)
    {
        g.p.inertiaMatrix.setZero();
        if (g.b.mass <= 0) g.b.inertia = M3::Identity();
        else if (g.hasVis || g.hasCol) g.b.inertia = boxInertia(hi - lo, g.b.mass); else g.b.inertia = M3::Identity() * 0.01 * g.b.mass;
        count("inertia-derived");
    }
    g.p.simType = (Phys::SimulationType)r.i(0, 3); if (r.p(0.4)) g.p.friction = r.f(0, 1); if (r.p(0.2)) g.p.ignoreCollisions.push_back("Other");
    return g;
}
static VisualizationNodePtr mv(const Mesh& m) { return meshVis(m); }
static void checkBody(SceneObjectPtr o, const Body& b, const Gen& g, const M4& pose, const std::string& key, double rel = 1e-4)
{
    double e = 1 + b.com.norm() + pose.block<3, 1>(0, 3).norm();
    checkNear(o->getMass(), b.mass, (rel > 1e-4 ? 1e-5 : 1e-6) * b.mass, key + "/mass");
    checkV(o->getCoMLocal().cast<double>(), b.com, rel * (1 + b.com.norm()) + 2e-5 * e, key + "/com-local");
    checkV(o->getCoMGlobal().cast<double>(), at4(pose, b.com), rel * (1 + b.com.norm()) + 2e-5 * e, key + "/com-global");
    checkI(o->getInertiaMatrix().cast<double>(), b.inertia, 20 * rel, key + "/inertia");
    checkPsd(o->getInertiaMatrix().cast<double>(), key, o->getName());
    Phys p = o->getPhysics(); check(p.simType == g.p.simType && std::fabs(p.friction - g.p.friction) < 1e-5 && p.ignoreCollisions == g.p.ignoreCollisions && p.comLocation == g.p.comLocation, key + "/attributes", "sim %d/%d friction %g/%g location %d/%d", p.simType, g.p.simType, p.friction, g.p.friction, p.comLocation, g.p.comLocation);
    check(p.massKg == o->getMass() && p.localCoM == o->getCoMLocal(), key + "/physics-record", "getPhysics disagrees with the getters");
    // shifted and rotated references: parallel axis theorem
}
static void objects(Rng& r)
{
    Gen g = genBody(r); int kind = r.i(0, 2); CollisionCheckerPtr cc = CollisionChecker::getGlobalCollisionChecker();
    VisualizationNodePtr v; CollisionModelPtr c; if (g.hasVis) v = mv(g.vis); if (g.hasCol) c = meshCol(g.col, cc);
    at("object kind %d vis %d col %d mass %g location %d inertia(0,0) %g", kind, g.hasVis, g.hasCol, g.p.massKg, g.p.comLocation, g.p.inertiaMatrix(0, 0));
    SceneObjectPtr o; ObstaclePtr ob; ManipulationObjectPtr mo;
    if (kind == 0) o.reset(new SceneObject("Obj", v, c, g.p, cc)); else if (kind == 1) { ob.reset(new Obstacle("Obj", v, c, g.p, cc)); o = ob; } else { mo.reset(new ManipulationObject("Obj", v, c, g.p, cc)); o = mo; ob = mo; }
    M4 pose = M4::Identity();
    o->initialize(); count(g.p.comLocation == Phys::eVisuBBoxCenter ? "com-derived" : "com-custom");
    checkBody(o, g.b, g, pose, "derived");
    for (int k = 0; k < r.i(1, 3); k++)
    {
        pose = toF(r.pose(r.pick({100.0, 3000.0}))); o->setGlobalPose(f4(pose)); checkBody(o, g.b, g, pose, "moved"); sig(hm(12, f4(pose)));
        // reference shifted / rotated
        V3 s(F(r.u(-2, 2)), F(r.u(-2, 2)), F(r.u(-2, 2))); M3 R = r.rot(); for (int i = 0; i < 9; i++) R(i) = F(R(i));
        M3 P = g.b.inertia + g.b.mass * (s.squaredNorm() * M3::Identity() - s * s.transpose());
        checkI(o->getInertiaMatrix(V3f(s.cast<float>())).cast<double>(), P, 2e-3, "parallel-axis");
        checkI(o->getInertiaMatrix(V3f(s.cast<float>()), Eigen::Matrix3f(R.cast<float>())).cast<double>(), R * P * R.transpose(), 2e-3, "parallel-axis-rotated");
        M4 t = M4::Identity(); t.block<3, 3>(0, 0) = R; t.block<3, 1>(0, 3) = s;
        checkI(o->getInertiaMatrix(f4(t)).cast<double>(), R * P * R.transpose(), 2e-3, "parallel-axis-transform");
        ev(3);
    }
    // a body of f times the mass has f times the derived inertia
    if (g.p.inertiaMatrix.isZero() && g.p.massKg > 0)
    {
        Phys p2 = g.p; float f = r.f(0.1, 10); p2.massKg *= f; SceneObjectPtr o2(new SceneObject("Obj2", v, c, p2, cc)); o2->initialize();
        checkI(o2->getInertiaMatrix().cast<double>(), g.b.inertia * f, 4e-3, "linear-in-mass"); count("linear-in-mass");
        o->setGlobalPose(f4(pose));
    }
    // copies
    {
        SceneObjectPtr cl; Body b = g.b; std::string key = "clone"; float sc = 1;
        if (kind == 2 && r.p(0.5)) cl = mo->clone("C", cc, r.p(0.5));
        else { if (r.p(0.4)) sc = r.f(0.2, 4), key = "clone-scaled"; cl = (kind == 1 && sc == 1 && r.p(0.5)) ? boost::static_pointer_cast<SceneObject>(ob->clone("C", cc)) : o->clone("C", cc, sc); }
        b.com *= sc; count(key.c_str());
        if (check((bool)cl, key + "/null", "clone returned null")) { checkBody(cl, b, g, pose, key); M4 p2 = toF(r.pose(500)); cl->setGlobalPose(f4(p2)); checkBody(cl, b, g, p2, key + "-moved"); checkBody(o, g.b, g, pose, "cloned-original"); cl->setMass(77); cl->setCoMLocal(V3f(1, 2, 3)); checkBody(o, g.b, g, pose, "edited-copy-original"); }
    }
    // explicit edits
    {
        Body b = g.b; b.mass = r.f(0, 9); b.com = V3(F(r.u(-100, 100)), F(r.u(-100, 100)), F(r.u(-100, 100))); b.inertia = genInertia(r);
        Gen ge = g; ge.p.comLocation = Phys::eCustom; o->setMass(b.mass); o->setCoMLocal(b.com.cast<float>()); o->setInertiaMatrix(b.inertia.cast<float>()); checkBody(o, b, ge, pose, "edited");
        o->setMass(g.b.mass); o->setCoMLocal(g.b.com.cast<float>()); o->setInertiaMatrix(g.b.inertia.cast<float>());
    }
}
// a file may state masses in g, kg or t, lengths in m or mm
static std::string physText(Rng& r, Gen& g)
{
    std::string mu = r.pick({std::string("kg"), std::string("g"), std::string("t"), std::string("kilogram"), std::string("gram"), std::string("ton")}); double mf = mu[0] == 'k' ? 1 : mu[0] == 'g' ? 1e-3 : 1e3;
    double mv = F(g.b.mass / mf); g.b.mass = mv * mf;
    std::string s = "<Physics>" + fmt("<Mass value='%s' units='%s'/>", n9(mv).c_str(), mu.c_str());
    if (g.p.comLocation == Phys::eVisuBBoxCenter) s += "<CoM location='VisualizationBBoxCenter'/>";
    else
    {
        bool m = r.p(0.4); double f = m ? 1000 : 1; V3 c = g.b.com; for (int k = 0; k < 3; k++) { c(k) = F(c(k) / f); g.b.com(k) = c(k) * f; }
        s += fmt("<CoM location='%s' x='%s' y='%s' z='%s' units='%s'/>", r.p(0.5) ? "joint" : "custom", n9(c(0)).c_str(), n9(c(1)).c_str(), n9(c(2)).c_str(), m ? "m" : "mm");
    }
    if (!g.p.inertiaMatrix.isZero())
    {
        std::string wu = r.pick({std::string("kg"), std::string("g"), std::string("t")}), lu = r.pick({std::string("m"), std::string("mm")}); double f = (wu == "kg" ? 1 : wu == "g" ? 1e-3 : 1e3) * (lu == "m" ? 1 : 1e-6);
        s += fmt("<InertiaMatrix unitsWeight='%s' unitsLength='%s'>", wu.c_str(), lu.c_str()); for (int i = 0; i < 3; i++) s += fmt("<row%d c1='%s' c2='%s' c3='%s'/>", i + 1, n9(g.b.inertia(i, 0) / f).c_str(), n9(g.b.inertia(i, 1) / f).c_str(), n9(g.b.inertia(i, 2) / f).c_str()); s += "</InertiaMatrix>";
    }
    else { V3 lo(0, 0, 0), hi(0, 0, 0); const Mesh& m = g.hasCol ? g.col : g.vis; if (g.hasCol || g.hasVis) bbox(m, lo, hi); g.b.inertia = g.b.mass <= 0 ? M3(M3::Identity()) : (g.hasCol || g.hasVis) ? boxInertia(hi - lo, g.b.mass) : M3(M3::Identity() * 0.01 * g.b.mass); }
    for (auto& i : g.p.ignoreCollisions) s += "<IgnoreCollision name='" + i + "'/>";
    const char* st[] = {"static", "kinematic", "dynamic", ""}; if (g.p.simType != Phys::eUnknown) s += fmt("<SimulationType value='%s'/>", st[g.p.simType]);
    if (g.p.friction >= 0) s += "<Friction value='" + n9(g.p.friction) + "'/>";
    return s + "</Physics>";
}
static void writeStl(const std::string& fn, const Mesh& m)
{
    std::ofstream f(fn.c_str()); f << "solid m\n"; char b[200];
    for (auto& t : m.f) { f << "facet normal 0 0 0\nouter loop\n"; for (int k : t) { snprintf(b, sizeof b, "vertex %.9g %.9g %.9g\n", m.v[k](0) / 1000, m.v[k](1) / 1000, m.v[k](2) / 1000); f << b; } f << "endloop\nendfacet\n"; }
    f << "endsolid m\n";
}
static Mesh solid(const Mesh& m) { Mesh o; for (auto& t : m.f) if (triArea(m.v[t[0]], m.v[t[1]], m.v[t[2]]) > 1) { int a = o.add(m.v[t[0]]), b = o.add(m.v[t[1]]), c = o.add(m.v[t[2]]); o.tri(a, b, c); } return o; }
// objects described in a file
static void files(Rng& r)
{
    Gen g = genBody(r); bool man = r.p(0.5); std::string d = S().scratch;
    // STL models: vertices are read as they are (degenerate triangles are dropped by the reader)
    if (g.hasVis) g.vis = solid(g.vis); if (g.hasCol) g.col = solid(g.col);
    if ((g.hasVis && g.vis.f.empty()) || (g.hasCol && g.col.f.empty())) return;
    if (g.p.comLocation == Phys::eVisuBBoxCenter && (g.hasVis || g.hasCol)) { V3 lo, hi; bbox(g.hasCol ? g.col : g.vis, lo, hi); g.b.com = (lo + hi) / 2; }
    std::string x = fmt("<%s name='Thing'>", man ? "ManipulationObject" : "Obstacle");
    if (g.hasVis) { writeStl(d + "/mv.stl", g.vis); x += "<Visualization><File type='inventor'>mv.stl</File></Visualization>"; }
    if (g.hasCol) { writeStl(d + "/mc.stl", g.col); x += "<CollisionModel><File type='inventor'>mc.stl</File></CollisionModel>"; }
    x += physText(r, g);
    M4 pose = M4::Identity(); if (r.p(0.6)) { pose = toF(r.pose(800)); x += "<GlobalPose><Transform>" + xmlMat(pose) + "</Transform></GlobalPose>"; }
    x += fmt("</%s>", man ? "ManipulationObject" : "Obstacle");
    at("file %s", x.substr(0, 1500).c_str());
    { std::ofstream f((d + "/thing.xml").c_str()); f << x; }
    ObstaclePtr o; int how = r.i(0, 1);
    if (how == 0) o = man ? boost::static_pointer_cast<Obstacle>(ObjectIO::loadManipulationObject(d + "/thing.xml")) : ObjectIO::loadObstacle(d + "/thing.xml");
    else o = man ? boost::static_pointer_cast<Obstacle>(ObjectIO::createManipulationObjectFromString(x, d)) : ObjectIO::createObstacleFromString(x, d);
    std::string key = man ? "file-manipulation" : "file-obstacle"; count(key.c_str());
    checkPose(o->getGlobalPose(), pose, 1e-4, 1e-2, key + "/pose");
    checkBody(o, g.b, g, pose, key, 1e-3);
    // text it writes
    std::string y = o->toXML(d); { std::ofstream f((d + "/thing2.xml").c_str()); f << y; }
    if (man && !g.hasVis && !g.hasCol) { ManipulationObjectPtr q = ObjectIO::createManipulationObjectFromString(boost::dynamic_pointer_cast<ManipulationObject>(o)->toXML(d), d); checkBody(q, g.b, g, pose, "saved-manipulation", 2e-3); count("saved"); }
    if (!man && !g.hasVis && !g.hasCol) { ObstaclePtr q = ObjectIO::createObstacleFromString(y, d); checkBody(q, g.b, g, pose, "saved-obstacle", 2e-3); count("saved"); }
}
// a robot and its node sets in many configurations
struct Agg { double mass = 0; V3 com = V3::Zero(); void add(double m, const V3& c) { mass += m; com += m * c; } V3 mean() const { return mass > 0 ? V3(com / mass) : V3(V3::Zero()); } };
static void checkRobot(RobotPtr rob, const RobotDef& d, const std::vector<M4>& g, const std::string& key, double sc = 1)
{
    Agg a; double ext = 1;
    for (size_t i = 0; i < d.n.size(); i++)
    {
        const NodeDef& n = d.n[i]; RobotNodePtr rn = rob->getRobotNode(n.name); if (!rn) { viol(key + "/node", n.name); return; }
        V3 c = at4(g[i], n.com * sc); if (!n.phys) c = g[i].block<3, 1>(0, 3); ext = std::max(ext, c.norm());
        a.add(n.phys ? n.mass : 0, c);
        checkNear(rn->getMass(), n.phys ? n.mass : 0, 1e-5 * n.mass, key + "/node-mass", n.name);
        if (n.phys) { checkV(rn->getCoMLocal().cast<double>(), n.com * sc, 1e-3, key + "/node-com-local", n.name); checkV(rn->getCoMGlobal().cast<double>(), c, 2e-2 + 1e-5 * c.norm(), key + "/node-com-global", n.name); M3 I = n.inertia; if (n.inertia.isZero()) return; checkI(rn->getInertiaMatrix().cast<double>(), I, 1e-4, key + "/node-inertia", n.name); checkPsd(rn->getInertiaMatrix().cast<double>(), key + "/node", n.name); }
    }
    double tol = 3e-2 + 1e-5 * ext;
    checkNear(rob->getMass(), a.mass, 1e-5 * a.mass, key + "/mass");
    checkV(rob->getCoMGlobal().cast<double>(), a.mean(), tol, key + "/com-global");
    if (a.mass > 0) checkV(rob->getCoMLocal().cast<double>(), at4(inv(rob->getGlobalPose().cast<double>()), a.mean()), tol, key + "/com-local");
    for (auto& s : d.sets)
    {
        if (!rob->hasRobotNodeSet(s.name)) continue; RobotNodeSetPtr rns = rob->getRobotNodeSet(s.name); Agg b;
        for (int i : s.nodes) b.add(d.n[i].phys ? d.n[i].mass : 0, d.n[i].phys ? at4(g[i], d.n[i].com * sc) : V3(g[i].block<3, 1>(0, 3)));
        checkNear(rns->getMass(), b.mass, 1e-5 * b.mass, key + "/set-mass", s.name); checkV(rns->getCoM().cast<double>(), b.mean(), tol, key + "/set-com", s.name); count("sets");
    }
    ev(d.n.size() * 4 + 3);
}
static std::vector<M4> poses(RobotPtr rob, const RobotDef& d) { std::vector<M4> g; for (auto& n : d.n) { RobotNodePtr rn = rob->getRobotNode(n.name); g.push_back(rn ? M4(rn->getGlobalPose().cast<double>()) : M4(M4::Identity())); } return g; }
static RobotDef scaledDef(RobotDef d, double s) { for (auto& n : d.n) { n.local.block<3, 1>(0, 3) *= s; n.com *= s; } return d; }
static void robots(Rng& r)
{
    GenOpt o; o.phys = true; o.models = r.p(0.4); o.maxNodes = 8; o.prop = false; RobotDef d = genRobot(r, o);
    for (auto& n : d.n) if (n.phys) { n.inertia = genInertia(r); if (r.p(0.1)) n.mass = F(r.u(100, 1000)); }
    // further sets: bodies in any order
    for (int k = 0; k < 2; k++) { SetDef s; s.name = fmt("Bodies%d", k); for (size_t i = 0; i < d.n.size(); i++) if (r.p(0.6)) s.nodes.push_back(i); if (s.nodes.empty()) s.nodes.push_back(0); r.shuffle(s.nodes); d.sets.push_back(s); }
    RobotPtr rob = build(d, r.p(0.5)); M4 root = M4::Identity();
    at("robot %s nodes %d", d.name.c_str(), (int)d.n.size());
    auto q = initialQ(d);
    checkRobot(rob, d, d.fk(root, q), "fresh");
    for (int k = 0; k < r.i(2, 5); k++)
    {
        if (r.p(0.5)) { root = toF(r.pose(2000)); rob->setGlobalPose(f4(root)); }
        for (size_t i = 0; i < d.n.size(); i++) if (d.n[i].type != FIX && r.p(0.7)) { q[i] = clipRef(d.n[i], F(r.u(d.n[i].lo, d.n[i].hi))); rob->getRobotNode(d.n[i].name)->setJointValue(q[i]); }
        checkRobot(rob, d, d.fk(root, q), "moved"); sig(hm(13, rob->getRobotNode(d.n.back().name)->getGlobalPose()));
        if (r.p(0.3)) { int i = r.i(0, (int)d.n.size() - 1); NodeDef& n = d.n[i]; n.phys = true; n.mass = r.f(0, 30); n.com = V3(F(r.u(-50, 50)), F(r.u(-50, 50)), F(r.u(-50, 50))); n.inertia = genInertia(r); RobotNodePtr rn = rob->getRobotNode(n.name); rn->setMass(n.mass); rn->setCoMLocal(n.com.cast<float>()); rn->setInertiaMatrix(n.inertia.cast<float>()); checkRobot(rob, d, d.fk(root, q), "edited"); count("edited"); }
    }
    auto g = poses(rob, d);
    if (r.p(0.6)) { RobotPtr c = rob->clone("K"); checkRobot(c, d, g, "clone"); M4 r2 = toF(r.pose(900)); c->setGlobalPose(f4(r2)); checkRobot(c, d, poses(c, d), "clone-moved"); checkRobot(rob, d, g, "cloned-original"); count("robot-clone"); }
    if (r.p(0.3)) { float s = r.f(0.3, 3); RobotPtr c = rob->clone("K", CollisionCheckerPtr(), s); checkRobot(c, d, poses(c, d), "clone-scaled", s); count("robot-clone-scaled"); }
    if (r.p(0.4))
    {
        int st = r.i(0, (int)d.n.size() - 1); RobotPtr c = rob->extractSubPart(rob->getRobotNode(d.n[st].name), "Sub", "Sub"); RobotDef e; e.name = "Sub";
        for (auto& n : d.n) if (d.below(&n - &d.n[0], st)) e.n.push_back(n);
        checkRobot(c, e, poses(c, e), "subpart"); count("subpart");
    }
    if (r.p(0.4))
    {
        // text and back (geometry is not needed here)
        RobotPtr c = RobotIO::createRobotFromString(rob->toXML(S().scratch, "models", false), S().scratch); checkRobot(c, d, poses(c, d), "reload"); count("reload");
    }
}
static void massCase(Rng& r)
{
    int k = r.i(0, 5); if (k < 2) objects(r); else if (k < 3) files(r); else robots(r);
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C12", massCase, 3000, 60000}}); }
