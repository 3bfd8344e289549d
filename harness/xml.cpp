// C04 (clones and sub-parts), C05 (robot definition round trip)
#include "mesh.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/Nodes/CameraSensor.h>
#include <VirtualRobot/Nodes/ForceTorqueSensor.h>
#include <VirtualRobot/Nodes/ContactSensor.h>
#include <boost/filesystem.hpp>
#include <fstream>
using namespace vh;
using namespace VirtualRobot;
namespace fs = boost::filesystem;
static std::string num(double x) { return n9(x); }
struct EefDef { std::string name; int base, tcp, gcp; std::vector<int> statics; std::vector<std::pair<std::string, std::vector<std::pair<int, double>>>> actors; std::vector<std::vector<int>> modes; std::map<std::string, std::map<std::string, double>> pre; };
static std::vector<EefDef> genEefs(Rng& r, const RobotDef& d)
{
    std::vector<EefDef> o; auto js = d.joints();
    for (int k = 0; k < r.i(0, 2); k++)
    {
        EefDef e; int N = d.n.size() - 1; e.name = fmt("EEF%d", k); e.base = r.i(0, N); e.tcp = r.i(0, N); e.gcp = r.i(0, N);
        for (int i = 0; i <= N; i++) if (r.p(0.2)) e.statics.push_back(i);
        std::vector<int> s = js; r.shuffle(s); size_t p = 0;
        for (int a = 0; a < r.i(1, 2) && p < s.size(); a++) { std::vector<std::pair<int, double>> ns; std::vector<int> ms; int c = r.i(1, 2); while (c-- && p < s.size()) { ns.push_back({s[p++], F(r.p(0.5) ? r.u(0.1, 2) : -r.u(0.1, 2))}); ms.push_back(r.i(0, 4)); } e.actors.push_back({fmt("act%d_%d", k, a), ns}); e.modes.push_back(ms); }
        for (int c = 0; c < r.i(0, 2); c++) { std::map<std::string, double> m; for (int j : js) if (r.p(0.5)) m[d.n[j].name] = F(r.u(d.n[j].lo, d.n[j].hi)); if (!m.empty()) e.pre[fmt("pre%d", c)] = m; }
        o.push_back(e);
    }
    return o;
}
static std::string eefXml(const RobotDef& d, const EefDef& e)
{
    std::string x = fmt("<Endeffector name='%s' base='%s' tcp='%s' gcp='%s'>\n", e.name.c_str(), d.n[e.base].name.c_str(), d.n[e.tcp].name.c_str(), d.n[e.gcp].name.c_str());
    for (auto& p : e.pre) { x += fmt("<Preshape name='%s'>", p.first.c_str()); for (auto& q : p.second) x += fmt("<Node name='%s' unit='radian' value='%s'/>", q.first.c_str(), num(q.second).c_str()); x += "</Preshape>\n"; }
    if (!e.statics.empty()) { x += "<Static>"; for (int i : e.statics) x += fmt("<Node name='%s'/>", d.n[i].name.c_str()); x += "</Static>\n"; }
    const char* cm[] = {"", " considerCollisions='None'", " considerCollisions='Actors'", " considerCollisions='Static'", " considerCollisions='All'"};
    for (size_t a = 0; a < e.actors.size(); a++) { x += fmt("<Actor name='%s'>", e.actors[a].first.c_str()); for (size_t i = 0; i < e.actors[a].second.size(); i++) { auto& n = e.actors[a].second[i]; x += fmt("<Node name='%s' direction='%s'%s/>", d.n[n.first].name.c_str(), num(n.second).c_str(), cm[e.modes[a][i]]); } x += "</Actor>\n"; }
    return x + "</Endeffector>\n";
}
static double geoExt(const BoundingBox& b) { return (b.getMax() - b.getMin()).norm(); }
// relative tolerance of written numbers
static bool nr(double a, double b, double rel, double abs_ = 1e-5) { return near_(a, b, abs_ + rel * std::max(std::fabs(a), std::fabs(b))); }
struct Cmp { std::string k; double scale = 1; double rel = 2e-6, rot = 2e-5, pos = 0.02, com = 0.2, ext = 0.01, exr = 1e-5; bool cross = false; bool models = true, sensors = true, eef = true, rns = true, dyn = true; std::set<std::string> only; };
#define CK(c, key, ...) check(c, o.k + "/" + (key), __VA_ARGS__)
static void cmpNode(RobotNodePtr a, RobotNodePtr b, const Cmp& o)
{
    std::string nn = a->getName(); const char* n = nn.c_str();
    { M4 la = a->getLocalTransformation().cast<double>(); la.block<3, 1>(0, 3) *= o.scale; checkPose(b->getLocalTransformation(), la, o.rot, o.pos, o.k + "/local-transformation", n); }
    CK(a->isRotationalJoint() == b->isRotationalJoint() && a->isTranslationalJoint() == b->isTranslationalJoint(), "joint-type", "%s", n);
    if (a->isRotationalJoint() || a->isTranslationalJoint())
    {
        CK(nr(a->getJointLimitLo(), b->getJointLimitLo(), o.rel) && nr(a->getJointLimitHi(), b->getJointLimitHi(), o.rel), "limits", "%s: [%g,%g] became [%g,%g]", n, a->getJointLimitLo(), a->getJointLimitHi(), b->getJointLimitLo(), b->getJointLimitHi());
        CK(a->isLimitless() == b->isLimitless(), "limitless", "%s: %d became %d", n, (int)a->isLimitless(), (int)b->isLimitless());
        CK(nr(a->getMaxVelocity(), b->getMaxVelocity(), o.rel) && nr(a->getMaxAcceleration(), b->getMaxAcceleration(), o.rel) && nr(a->getMaxTorque(), b->getMaxTorque(), o.rel), "max-values", "%s: %g %g %g became %g %g %g", n, a->getMaxVelocity(), a->getMaxAcceleration(), a->getMaxTorque(), b->getMaxVelocity(), b->getMaxAcceleration(), b->getMaxTorque());
        CK(nr(a->getJointValueOffset(), b->getJointValueOffset(), o.rel), "offset", "%s: %g became %g", n, a->getJointValueOffset(), b->getJointValueOffset());
    }
    CK(a->getChildren().size() - (o.sensors ? 0 : a->getSensors().size()) == b->getChildren().size() - (o.sensors ? 0 : b->getSensors().size()), "children", "%s: %zu became %zu", n, a->getChildren().size(), b->getChildren().size());
    if (o.dyn)
    {
        CK(nr(a->getMass(), b->getMass(), o.rel), "mass", "%s: %g became %g", n, a->getMass(), b->getMass());
        if (a->getMass() > 0) { Eigen::Vector3f ca = a->getCoMLocal() * (float)o.scale, cb = b->getCoMLocal(); checkMat(cb, ca, o.com, o.k + "/com", n); checkMat(b->getInertiaMatrix(), a->getInertiaMatrix(), 1e-5 * (1 + a->getInertiaMatrix().norm()), o.k + "/inertia", n); }
        CK(a->getSimulationType() == b->getSimulationType(), "simulation-type", "%s: %d became %d", n, (int)a->getSimulationType(), (int)b->getSimulationType());
        CK(nr(a->getFriction(), b->getFriction(), o.rel), "friction", "%s: %g became %g", n, a->getFriction(), b->getFriction());
        CK(a->getIgnoredCollisionModels() == b->getIgnoredCollisionModels(), "ignored-collisions", "%s: %zu became %zu", n, a->getIgnoredCollisionModels().size(), b->getIgnoredCollisionModels().size());
    }
    if (o.models)
    {
        VisualizationNodePtr va = a->getVisualization(SceneObject::Full), vb = b->getVisualization(SceneObject::Full);
        bool ha = va && va->getNumFaces() > 0, hb = vb && vb->getNumFaces() > 0;
        if (CK(ha == hb, "visual-presence", "%s: %d became %d", n, (int)ha, (int)hb) && ha)
        {
            CK(va->getNumFaces() == vb->getNumFaces(), "visual-faces", "%s: %d became %d", n, va->getNumFaces(), vb->getNumFaces());
            BoundingBox ba = va->getTriMeshModel()->boundingBox, bb = vb->getTriMeshModel()->boundingBox;
            checkMat(bb.getMin(), (ba.getMin() * (float)o.scale).eval(), o.ext + o.exr * geoExt(ba) * o.scale, o.k + "/visual-extent", n); checkMat(bb.getMax(), (ba.getMax() * (float)o.scale).eval(), o.ext + o.exr * geoExt(ba) * o.scale, o.k + "/visual-extent", n); count("visual");
        }
        CollisionModelPtr ca = a->getCollisionModel(), cb = b->getCollisionModel();
        ha = ca && ca->getNumFaces() > 0; hb = cb && cb->getNumFaces() > 0;
        if (CK(ha == hb, "collision-presence", "%s: %d became %d", n, (int)ha, (int)hb) && ha)
        {
            CK(ca->getTriMeshModel()->faces.size() == cb->getTriMeshModel()->faces.size(), "collision-faces", "%s: %zu became %zu", n, ca->getTriMeshModel()->faces.size(), cb->getTriMeshModel()->faces.size());
            BoundingBox ba = ca->getTriMeshModel()->boundingBox, bb = cb->getTriMeshModel()->boundingBox;
            checkMat(bb.getMin(), (ba.getMin() * (float)o.scale).eval(), o.ext + o.exr * geoExt(ba) * o.scale, o.k + "/collision-extent", n); checkMat(bb.getMax(), (ba.getMax() * (float)o.scale).eval(), o.ext + o.exr * geoExt(ba) * o.scale, o.k + "/collision-extent", n); count("collision");
        }
    }
    if (o.sensors)
    {
        auto sa = a->getSensors(), sb = b->getSensors();
        if (CK(sa.size() == sb.size(), "sensor-count", "%s: %zu became %zu", n, sa.size(), sb.size()))
            for (auto& s : sa)
            {
                bool f = false; for (auto& t : sb) if (t->getName() == s->getName()) { f = true; M4 la = s->getRobotNodeToSensorTransformation().cast<double>(); la.block<3, 1>(0, 3) *= o.scale; checkPose(t->getRobotNodeToSensorTransformation(), la, o.rot, o.pos, o.k + "/sensor-pose", s->getName()); CK(typeid(*s) == typeid(*t), "sensor-type", "%s", s->getName().c_str()); count("sensor"); }
                CK(f, "sensor-name", "sensor %s of %s is missing", s->getName().c_str(), n);
            }
    }
}
static void cmpEef(EndEffectorPtr a, EndEffectorPtr b, const Cmp& o, RobotPtr ra, RobotPtr rb)
{
    auto nm = [](RobotNodePtr n) { return n ? n->getName() : std::string("-"); };
    CK(nm(a->getBase()) == nm(b->getBase()) && nm(a->getTcp()) == nm(b->getTcp()) && nm(a->getGCP()) == nm(b->getGCP()), "eef-nodes", "%s: base %s/%s tcp %s/%s gcp %s/%s", a->getName().c_str(), nm(a->getBase()).c_str(), nm(b->getBase()).c_str(), nm(a->getTcp()).c_str(), nm(b->getTcp()).c_str(), nm(a->getGCP()).c_str(), nm(b->getGCP()).c_str());
    for (auto n : {b->getBase(), b->getTcp(), b->getGCP()}) CK(n && n->getRobot() == rb, "eef-own-nodes", "node of another robot");
    std::vector<RobotNodePtr> sa, sb; a->getStatics(sa); b->getStatics(sb); std::vector<std::string> na, nb; for (auto& s : sa) na.push_back(nm(s)); for (auto& s : sb) { nb.push_back(nm(s)); CK(s && s->getRobot() == rb, "eef-own-nodes", "static of another robot"); }
    CK(na == nb, "eef-statics", "%s: %zu became %zu static nodes", a->getName().c_str(), na.size(), nb.size());
    std::vector<EndEffectorActorPtr> aa, ab; a->getActors(aa); b->getActors(ab);
    if (CK(aa.size() == ab.size(), "eef-actors", "%zu became %zu", aa.size(), ab.size()))
        for (size_t i = 0; i < aa.size(); i++)
        {
            auto da = aa[i]->getDefinition(), db = ab[i]->getDefinition(); bool ok = da.size() == db.size() && aa[i]->getName() == ab[i]->getName();
            for (size_t k = 0; ok && k < da.size(); k++) { ok = nm(da[k].robotNode) == nm(db[k].robotNode) && nr(da[k].directionAndSpeed, db[k].directionAndSpeed, o.rel) && da[k].colMode == db[k].colMode; CK(db[k].robotNode && db[k].robotNode->getRobot() == rb, "eef-own-nodes", "actor node of another robot"); }
            CK(ok, "eef-actor-definition", "actor %s differs", aa[i]->getName().c_str());
        }
    auto pa = a->getPreshapes(), pb = b->getPreshapes(); std::sort(pa.begin(), pa.end()); std::sort(pb.begin(), pb.end());
    if (CK(pa == pb, "eef-preshapes", "%zu became %zu", pa.size(), pb.size()))
        for (auto& p : pa)
        {
            auto ma = a->getPreshape(p)->getRobotNodeJointValueMap(), mb = b->getPreshape(p)->getRobotNodeJointValueMap(); bool ok = ma.size() == mb.size();
            for (auto& q : ma) ok &= mb.count(q.first) && nr(q.second, mb[q.first], o.rel);
            CK(ok, "eef-preshape-values", "preshape %s differs", p.c_str()); CK(b->getPreshape(p)->getRobot() == rb, "eef-own-nodes", "preshape of another robot"); count("preshape");
        }
    count("eef");
}
// a: original, b: copy. Only nodes below `top` are expected
static void compare(Rng& r, RobotPtr ra, RobotPtr rb, RobotNodePtr top, const Cmp& o)
{
    std::vector<RobotNodePtr> na; top->collectAllRobotNodes(na); std::set<std::string> names; for (auto& n : na) names.insert(n->getName());
    std::set<std::string> got; for (auto& n : rb->getRobotNodes()) got.insert(n->getName());
    if (!CK(names == got, "node-names", "%zu nodes became %zu", names.size(), got.size())) return;
    CK(rb->getRootNode() && rb->getRootNode()->getName() == top->getName(), "root-node", "root differs");
    for (auto& n : na)
    {
        RobotNodePtr m = rb->getRobotNode(n->getName()); CK(m != n && m->getRobot() == rb, "own-nodes", "node %s belongs to another robot", n->getName().c_str());
        cmpNode(n, m, o);
        if (n != top) CK(m->getParent() && m->getParent()->getName() == n->getParent()->getName(), "parent", "%s", n->getName().c_str());
    }
    // same kinematics in random configurations
    std::vector<RobotNodePtr> joints; for (auto& n : na) if (n->isRotationalJoint() || n->isTranslationalJoint()) joints.push_back(n);
    auto qa0 = ra->getConfig(); auto qb0 = rb->getConfig(); Eigen::Matrix4f ga = ra->getGlobalPose(), gb = rb->getGlobalPose();
    for (int rep = 0; rep < 3; rep++)
    {
        bool single = !o.cross && r.p(0.5);
        if (single) { for (int k = 0; k < 3 && !joints.empty(); k++) { auto j = r.pick(joints); float v = r.f(j->getJointLimitLo() - 0.3, j->getJointLimitHi() + 0.3); ra->setJointValue(j, v); rb->setJointValue(j->getName(), v); } }
        else { std::map<std::string, float> q; for (auto& j : joints) q[j->getName()] = r.f(j->getJointLimitLo(), j->getJointLimitHi()); ra->setJointValues(q); rb->setJointValues(q); }
        if (rep == 0) for (auto& j : joints) rb->getRobotNode(j->getName())->setJointValue(j->getJointValue()), ra->setJointValue(j, j->getJointValue());
        if (single)
        {   // values of coupled joints: rounding of a driver's limit is amplified by the factors; then the poses are compared at equal values
            double big = 1; std::map<std::string, float> q; for (auto& j : joints) { big = std::max(big, (double)std::fabs(j->getJointValue())); q[j->getName()] = j->getJointValue(); }
            if (rep) for (auto& n : joints) { double dv = n->getJointValue() - rb->getRobotNode(n->getName())->getJointValue(); if (n->isLimitless()) dv = std::remainder(dv, 2 * M_PI); if (!CK(std::fabs(dv) <= 2e-4 + o.rel * 40 * (1 + std::fabs(n->getJointValue())) + 1e-5 * big, "coupled-joint-values", "%s: %g became %g", n->getName().c_str(), n->getJointValue(), rb->getRobotNode(n->getName())->getJointValue())) return; }
            rb->setJointValues(q);
        }
        M4 ref = inv(top->getGlobalPose().cast<double>());
        double L = 0; for (auto& n : na) L = std::max(L, (ref * n->getGlobalPose().cast<double>()).block<3, 1>(0, 3).norm());
        M4 rr = rb->getRootNode()->getGlobalPose().cast<double>();
        for (auto& n : na)
        {
            auto m = rb->getRobotNode(n->getName());
            double dv = n->getJointValue() - m->getJointValue(); if (n->isLimitless()) dv = std::remainder(dv, 2 * M_PI);
            { if (!CK(std::fabs(dv) <= 2e-4 + o.rel * 40 * (1 + std::fabs(n->getJointValue())), "joint-values", "%s: %g became %g", n->getName().c_str(), n->getJointValue(), m->getJointValue())) return; }
            if (o.scale != 1) { bool pri = false; for (SceneObjectPtr x = n; x && x != top; x = x->getParent()) if (auto y = boost::dynamic_pointer_cast<RobotNode>(x)) pri |= y->isTranslationalJoint(); if (pri) continue; }
            M4 pa = ref * n->getGlobalPose().cast<double>(); pa.block<3, 1>(0, 3) *= o.scale;
            if (!checkPose((inv(rr) * m->getGlobalPose().cast<double>()).eval(), pa, o.rot * 20, (o.pos + (1e-4 + o.rot * 10) * L) * std::max(1.0, o.scale), o.k + "/kinematics", n->getName())) return;
            if (o.k == "clone" || o.k == "subpart" || o.k == "clone-of-clone")
            {   // what moves along with the node: centre of mass and models (prismatic joints may stretch them with the joint value)
                V3 ca = n->getCoMLocal().cast<double>() * o.scale, cb = m->getCoMLocal().cast<double>();
                if (!CK((ca - cb).norm() <= (o.k == "clone-of-clone" ? 0.2 : 1e-3) + 1e-4 * ca.norm(), "com-at-configuration", "%s at %g: %g %g %g became %g %g %g", n->getName().c_str(), n->getJointValue(), ca(0), ca(1), ca(2), cb(0), cb(1), cb(2))) return;
                if (n->getCollisionModel() && m->getCollisionModel()) { BoundingBox x = n->getCollisionModel()->getBoundingBox(false), y = m->getCollisionModel()->getBoundingBox(false); for (int i = 0; i < 3; i++) if (!CK(nr(x.getMax()(i) * o.scale, y.getMax()(i), 1e-3, 0.02) && nr(x.getMin()(i) * o.scale, y.getMin()(i), 1e-3, 0.02), "model-extent-at-configuration", "%s at %g, axis %d: [%g %g] became [%g %g]", n->getName().c_str(), n->getJointValue(), i, x.getMin()(i), x.getMax()(i), y.getMin()(i), y.getMax()(i))) return; count("extent-at-configuration"); }
            }
        }
        sig(hm(hm(1, rr), rb->getRobotNodes().back()->getGlobalPose()));
    }
    ra->setConfig(qa0); rb->setConfig(qb0);
    if (o.rns)
    {
        for (auto& s : ra->getRobotNodeSets())
        {
            bool inside = true; for (auto& n : s->getAllRobotNodes()) inside &= names.count(n->getName()) > 0;
            bool suff = inside && names.count(s->getKinematicRoot()->getName()) && names.count(s->getTCP()->getName());
            if (!suff) { count("rns-outside"); continue; }
            if (!CK(rb->hasRobotNodeSet(s->getName()), "node-set", "set %s is missing", s->getName().c_str())) continue;
            auto t = rb->getRobotNodeSet(s->getName()); std::vector<std::string> x, y; for (auto& n : s->getAllRobotNodes()) x.push_back(n->getName()); for (auto& n : t->getAllRobotNodes()) { y.push_back(n->getName()); CK(n->getRobot() == rb, "node-set-own-nodes", "set %s", s->getName().c_str()); }
            CK(x == y, "node-set-nodes", "set %s", s->getName().c_str());
            CK(s->getKinematicRoot()->getName() == t->getKinematicRoot()->getName(), "node-set-root", "set %s: %s became %s", s->getName().c_str(), s->getKinematicRoot()->getName().c_str(), t->getKinematicRoot()->getName().c_str());
            CK(s->getTCP()->getName() == t->getTCP()->getName(), "node-set-tcp", "set %s: %s became %s", s->getName().c_str(), s->getTCP()->getName().c_str(), t->getTCP()->getName().c_str());
            count("rns");
        }
        CK(rb->getRobotNodeSets().size() <= ra->getRobotNodeSets().size(), "node-set-count", "more sets than the original");
    }
    else CK(rb->getRobotNodeSets().empty(), "no-node-sets", "node sets although not requested");
    if (o.eef)
    {
        for (auto& e : ra->getEndEffectors())
        {
            std::vector<RobotNodePtr> all = e->getAllNodes(); bool in = names.count(e->getBase()->getName()) && names.count(e->getTcp()->getName()) && names.count(e->getGCP()->getName()); std::vector<RobotNodePtr> st; e->getStatics(st); for (auto& n : all) in &= names.count(n->getName()) > 0; for (auto& n : st) in &= names.count(n->getName()) > 0;
            std::set<std::string> pn; for (auto& p : e->getPreshapes()) for (auto& q : e->getPreshape(p)->getRobotNodeJointValueMap()) in &= names.count(q.first) > 0;
            if (!in) continue;
            if (CK(rb->hasEndEffector(e->getName()), "eef", "end effector %s is missing", e->getName().c_str())) cmpEef(e, rb->getEndEffector(e->getName()), o, ra, rb);
        }
    }
    else CK(rb->getEndEffectors().empty(), "no-eefs", "end effectors although not requested");
}
struct Src { RobotDef d; std::string xml; RobotPtr rob; bool multi = false; };
static std::string sensorXml(Rng& r, int k) { M4 t = toF(r.pose(200)); { int sk = r.i(0, 5); if (sk == 0) t.block<3, 1>(0, 3).setZero(); if (sk == 1) t.block<3, 3>(0, 0).setIdentity(); } const char* ty = r.pick({"position", "camera", "forcetorque", "contact"}); if (!strcmp(ty, "contact")) return fmt("<Sensor type='contact' name='X%d'/>", k); return fmt("<Sensor type='%s' name='X%d'><Transform>%s</Transform></Sensor>", ty, k, xmlMat(t).c_str()); }
static Src gen(Rng& r, bool models, bool visuScale = false)
{
    GenOpt o; o.models = models; o.phys = true; o.xmlNotations = r.p(0.4); o.maxNodes = 8; Src s; s.d = genRobot(r, o);
    s.xml = toXml(s.d);
    // prismatic joints that stretch their models and centre of mass with the joint value
    if (visuScale) { size_t p = 0; for (auto& n : s.d.n) if (n.type == PRI) { p = s.xml.find("<TranslationDirection", p); p = s.xml.find("\n", p) + 1; if (!r.p(0.5)) continue; double u = n.offset != 0 ? std::fabs(n.offset) / 700 : 1.0 / 700; std::string a = fmt("<ScaleVisualization x='%s' y='%s' z='%s'/>\n", n9(r.p(0.3) ? 0 : r.u(-0.8 * u, 1.5 * u)).c_str(), n9(r.u(0.1 * u, 1.5 * u)).c_str(), n9(r.p(0.3) ? 0 : r.u(-0.8 * u, 1.5 * u)).c_str()); s.xml.insert(p, a); count("visu-scaling"); } }
    // friction, ignored collisions
    { size_t p = 0; while ((p = s.xml.find("</Physics>", p)) != std::string::npos) { std::string add; if (r.p(0.4)) add += fmt("<IgnoreCollision name='%s'/>", s.d.n[r.i(0, (int)s.d.n.size() - 1)].name.c_str()); if (r.p(0.3)) add += fmt("<Friction value='%s'/>", num(r.u(0, 1)).c_str()); s.xml.insert(p, add); p += add.size() + 10; } }
    { size_t p = 0; int k = 0; while ((p = s.xml.find("</RobotNode>\n", p)) != std::string::npos) { std::string add; if (r.p(0.2)) add = sensorXml(r, k++); s.xml.insert(p, add); p += add.size() + 12; } }
    if (models && r.p(0.5)) { size_t p = 0; while ((p = s.xml.find("<Primitives>", p)) != std::string::npos) { p += 12; std::string add; if (r.p(0.5)) { std::string t; genTransform(r, 100, t, false); add = (r.p(0.5) ? fmt("<Sphere radius='%s'>", num(r.u(5, 50)).c_str()) + "<Transform>" + t + "</Transform></Sphere>" : fmt("<Cylinder radius='%s' height='%s'>", num(r.u(5, 50)).c_str(), num(r.u(5, 50)).c_str()) + "<Transform>" + t + "</Transform></Cylinder>"); s.multi = true; } s.xml.insert(p, add); p += add.size(); } }
    std::string e; for (auto& x : genEefs(r, s.d)) e += eefXml(s.d, x); s.xml.insert(s.xml.rfind("</Robot>"), e);
    s.rob = RobotIO::createRobotFromString(s.xml);
    s.rob->setGlobalPose(f4(toF(r.pose(800))));
    std::map<std::string, float> q; for (int j : s.d.joints()) q[s.d.n[j].name] = r.f(s.d.n[j].lo, s.d.n[j].hi); s.rob->setJointValues(q);
    return s;
}
static std::vector<float> poses(RobotPtr r) { std::vector<float> o; for (auto& n : r->getRobotNodes()) { Eigen::Matrix4f p = n->getGlobalPose(); for (int i = 0; i < 16; i++) o.push_back(p(i)); o.push_back(n->getJointValue()); if (n->getCollisionModel()) { Eigen::Matrix4f g = n->getCollisionModel()->getGlobalPose(); for (int i = 0; i < 16; i++) o.push_back(g(i)); BoundingBox b = n->getCollisionModel()->getTriMeshModel()->boundingBox; o.push_back(b.getMax()(0)); } } return o; }
static void wiggle(Rng& r, RobotPtr b) { b->setGlobalPose(f4(toF(r.pose(500)))); for (auto& n : b->getRobotNodes()) if (n->isRotationalJoint() || n->isTranslationalJoint()) b->setJointValue(n, r.f(n->getJointLimitLo(), n->getJointLimitHi())); }
static void c04(Rng& r)
{
    Src s = gen(r, r.p(0.6), r.p(0.6)); bool stretch = s.xml.find("<ScaleVisualization") != std::string::npos; if (r.p(0.3)) for (auto& n : s.rob->getRobotNodes()) if (n->isRotationalJoint() && r.p(0.3)) n->setEnforceJointLimits(false);
    for (int rep = 0; rep < 3; rep++)
    {
        Cmp o; o.k = "clone"; o.pos = 0.005; o.scale = r.p(0.5) ? 1 : r.pick({0.5, 2.0, 1.37}); int kind = r.i(0, 2); RobotNodePtr top = s.rob->getRootNode(); RobotPtr c;
        if (kind == 2) { top = r.pick(s.rob->getRobotNodes()); o.k = "subpart"; o.rns = r.p(0.6); o.eef = r.p(0.6); int ti = -1; for (size_t i = 0; i < s.d.n.size(); i++) if (s.d.n[i].name == top->getName()) ti = (int)i; for (size_t i = 0; i < s.d.n.size(); i++) for (auto& p : s.d.n[i].prop) o.cross |= s.d.below((int)i, ti) != s.d.below(p.first, ti); }
        auto before = poses(s.rob);
        if (kind == 0 && o.scale == 1) c = r.p(0.5) ? s.rob->clone() : s.rob->clone("copy");
        else if (kind < 2) c = s.rob->clone("copy", r.p(0.5) ? CollisionCheckerPtr() : CollisionCheckerPtr(new CollisionChecker()), o.scale);
        else c = s.rob->extractSubPart(top, "ST", "SN", o.rns, o.eef, CollisionCheckerPtr(), o.scale);
        if (!check(!!c, o.k + "/failed", "no copy")) continue;
        check(before == poses(s.rob), o.k + "/original-changed", "copying changed the original");
        // current state is carried over
        for (auto& n : c->getRobotNodes()) { auto m = s.rob->getRobotNode(n->getName()); if (m) check(std::fabs(m->getJointValue() - n->getJointValue()) < 1e-5 * (1 + std::fabs(m->getJointValue())), o.k + "/current-joint-value", "%s: %g became %g", n->getName().c_str(), m->getJointValue(), n->getJointValue()), check(m->getEnforceJointLimits() == n->getEnforceJointLimits(), o.k + "/enforce-limits", "%s", n->getName().c_str()); }
        if (kind < 2) { checkPose(c->getGlobalPose(), s.rob->getGlobalPose(), 1e-6, 1e-4, o.k + "/global-pose"); if (o.scale == 1) for (auto& n : c->getRobotNodes()) checkPose(n->getGlobalPose(), s.rob->getRobotNode(n->getName())->getGlobalPose(), 1e-4, 0.05, o.k + "/node-pose", n->getName()); check(c->getType() == s.rob->getType(), o.k + "/type", "type"); }
        check(nr(c->getScaling(), o.scale, 1e-6), o.k + "/scaling", "scaling %g instead of %g", c->getScaling(), o.scale);
        // models of the copy sit at the copy's nodes
        for (auto& n : c->getRobotNodes()) if (n->getCollisionModel()) checkPose(n->getCollisionModel()->getGlobalPose(), n->getGlobalPose(), 1e-5, 1e-2, o.k + "/collision-model-pose", n->getName());
        compare(r, s.rob, c, top, o);
        // independence
        before = poses(s.rob); wiggle(r, c);
        for (auto& n : c->getRobotNodes()) { n->setMass(7); if (r.p(0.3)) { n->setJointLimits(-0.01f, 0.01f); n->setJointValue(n->getJointValue()); } if (n->getCollisionModel() && !stretch && r.p(0.3)) n->getCollisionModel()->inflateModel(5); }
        std::vector<float> masses; for (auto& n : s.rob->getRobotNodes()) masses.push_back(n->getMass());
        check(before == poses(s.rob), o.k + "/independent", "changing the copy changed the original"); for (auto& m : masses) check(m != 7, o.k + "/independent-physics", "mass shared");
        auto cb = poses(c); wiggle(r, s.rob); check(cb == poses(c), o.k + "/independent", "changing the original changed the copy");
        count(kind == 2 ? "subpart" : "clone"); if (o.scale != 1) count("scaled");
        if (r.p(0.3)) { c.reset(); }   // destroying a copy leaves the original usable
        else if (r.p(0.2)) { RobotPtr c2 = c->clone(); Cmp p; p.k = "clone-of-clone"; p.eef = p.rns = true; compare(r, c, c2, c->getRootNode(), p); s.rob->applyJointValues(); }
    }
    sample(fmt("%zu nodes, %zu sets, %zu end effectors", s.d.n.size(), s.rob->getRobotNodeSets().size(), s.rob->getEndEffectors().size()));
}
static void c05(Rng& r)
{
    Src s = gen(r, r.p(0.6)); RobotPtr src = s.rob; bool scaled = false; if (r.p(0.3)) { scaled = r.p(0.5); src = s.rob->clone("w", CollisionCheckerPtr(), scaled ? 1.5f : 1.f); }
    static int cnt = 0; std::string dir = S().scratch + fmt("/rt%d", cnt++); fs::create_directories(dir);
    bool eef = r.p(0.8), rns = r.p(0.8), sens = r.p(0.8);
    auto before = poses(src);
    check(RobotIO::saveXML(src, "rob.xml", dir, r.pick({"models", "a/b"}), eef, rns, sens, true), "save/failed", "saveXML failed");
    check(before == poses(src), "save/robot-changed", "saving changed the robot");
    RobotPtr b; try { b = RobotIO::loadRobot(dir + "/rob.xml"); } catch (std::exception& e) { check(false, "reload/exception", "%s", e.what()); }
    if (check(!!b, "reload/failed", "saved robot does not load"))
    {
        Cmp o; o.k = "reload"; o.rel = 2e-5; o.rot = 1.5e-4; o.pos = 0.05; o.ext = 0.06; o.exr = 1e-3; o.eef = eef; o.rns = rns; o.sensors = sens; compare(r, src, b, src->getRootNode(), o); check(b->getType() == src->getType(), "reload/type", "%s became %s", src->getType().c_str(), b->getType().c_str());
        // a second save of the reloaded robot is a fixed point of the definition
        if (r.p(0.3)) { std::string d2 = dir + "/second"; fs::create_directories(d2); RobotIO::saveXML(b, "rob.xml", d2, "models", eef, rns, sens, true); RobotPtr c; try { c = RobotIO::loadRobot(d2 + "/rob.xml"); } catch (std::exception& e) { check(false, "reload2/exception", "%s", e.what()); } if (c) { o.k = scaled || s.multi ? "reload2-transformed" : "reload2"; compare(r, b, c, b->getRootNode(), o); } }
    }
    // loading modes
    { RobotPtr st = RobotIO::createRobotFromString(s.xml, "", RobotIO::eStructure); Cmp o; o.k = "structure-mode"; o.models = false; o.dyn = false; compare(r, s.rob, st, s.rob->getRootNode(), o); for (auto& n : st->getRobotNodes()) check(!n->getVisualization() && !n->getCollisionModel(), "structure-mode/no-models", "%s has a model", n->getName().c_str()); }
    {
        RobotPtr cm = RobotIO::createRobotFromString(s.xml, "", RobotIO::eCollisionModel); Cmp o; o.k = "collision-mode"; o.models = false; o.dyn = false; compare(r, s.rob, cm, s.rob->getRootNode(), o);
        for (auto& n : cm->getRobotNodes()) { auto a = s.rob->getRobotNode(n->getName()); bool hc = !!a->getCollisionModel(); check(!!n->getCollisionModel() == hc, "collision-mode/collision-model", "%s", n->getName().c_str()); if (hc) check(n->getVisualization(SceneObject::Full) && n->getVisualization(SceneObject::Full)->getNumFaces() == a->getCollisionModel()->getNumFaces(), "collision-mode/visual-from-collision", "%s has no visualization built from its collision model", n->getName().c_str()); }
    }
    // a robot included in another robot
    if (r.p(0.4))
    {
        std::ofstream(dir + "/child.xml") << s.xml;
        RobotPtr p; try { p = RobotIO::createRobotFromString("<Robot Type='P' RootNode='PR'><RobotNode name='PR'><Transform><Translation x='100' y='5' z='7'/></Transform><ChildFromRobot><File importEEF='true'>child.xml</File></ChildFromRobot></RobotNode></Robot>", dir); } catch (std::exception& e) { check(false, "child-from-robot/exception", "%s", e.what()); }
        if (p)
        {
            check(p->getRobotNodes().size() == s.d.n.size() + 1, "child-from-robot/count", "%zu nodes", p->getRobotNodes().size());
            RobotNodePtr cr = p->getRobotNode(s.d.n[0].name);
            if (check(cr && cr->getParent() && cr->getParent()->getName() == "PR", "child-from-robot/attached", "root not attached"))
            {
                std::map<std::string, float> q; for (int j : s.d.joints()) q[s.d.n[j].name] = r.f(s.d.n[j].lo, s.d.n[j].hi); p->setJointValues(q); s.rob->setJointValues(q);
                for (auto& n : s.d.n) checkPose((inv(cr->getGlobalPose().cast<double>()) * p->getRobotNode(n.name)->getGlobalPose().cast<double>()).eval(), (inv(s.rob->getRootNode()->getGlobalPose().cast<double>()) * s.rob->getRobotNode(n.name)->getGlobalPose().cast<double>()).eval(), 2e-4, 0.1, "child-from-robot/kinematics", n.name);
                for (auto& t : s.rob->getRobotNodeSets()) check(p->hasRobotNodeSet(t->getName()), "child-from-robot/node-set", "%s", t->getName().c_str());
                for (auto& t : s.rob->getEndEffectors()) if (check(p->hasEndEffector(t->getName()), "child-from-robot/eef", "%s", t->getName().c_str())) { Cmp o; o.k = "child-from-robot"; cmpEef(t, p->getEndEffector(t->getName()), o, s.rob, p); }
            }
            count("child-from-robot");
        }
    }
    fs::remove_all(dir);
    sample(fmt("%zu nodes, eef %d rns %d sensors %d", s.d.n.size(), (int)eef, (int)rns, (int)sens));
}
int main(int c, char** v)
{
    VirtualRobot::init("vh");
    return run(c, v, {{"C04", c04, 2000, 60000}, {"C05", c05, 1200, 40000}});
}
