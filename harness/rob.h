// Random robot definitions, two independent ways of building them (XML text, C++ factories) and an
// independent double-precision forward-kinematics model.
#pragma once
#include "vh.h"
#include <VirtualRobot/VirtualRobot.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/RobotFactory.h>
#include <VirtualRobot/Random.h>
#include <VirtualRobot/SceneObject.h>
#include <VirtualRobot/VirtualRobotException.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/Nodes/RobotNode.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Nodes/RobotNodeFixed.h>
#include <VirtualRobot/Nodes/RobotNodeRevoluteFactory.h>
#include <VirtualRobot/Nodes/RobotNodePrismaticFactory.h>
#include <VirtualRobot/Nodes/RobotNodeFixedFactory.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
namespace vh
{
    using M4 = Eigen::Matrix4d;
    using V3 = Eigen::Vector3d;
    using M3 = Eigen::Matrix3d;
    inline void seedLibrary(unsigned s) { VirtualRobot::PRNG64Bit().seed(s); }
    inline double F(double x) { return (double)(float)x; }
    inline M4 toF(const M4& m) { return m.cast<float>().cast<double>(); }
    inline M4 T(double x, double y, double z) { M4 m = M4::Identity(); m(0, 3) = x; m(1, 3) = y; m(2, 3) = z; return m; }
    inline M4 R(const V3& ax, double a) { M4 m = M4::Identity(); m.block<3, 3>(0, 0) = Eigen::AngleAxisd(a, ax).toRotationMatrix(); return m; }
    inline M4 inv(const M4& m) { M4 r = M4::Identity(); r.block<3, 3>(0, 0) = m.block<3, 3>(0, 0).transpose(); r.block<3, 1>(0, 3) = -r.block<3, 3>(0, 0) * m.block<3, 1>(0, 3); return r; }
    inline Eigen::Matrix4f f4(const M4& m) { return m.cast<float>(); }
    inline double rotAngle(const M3& r) { Eigen::Quaterniond q(r); q.normalize(); return 2 * std::atan2(q.vec().norm(), std::fabs(q.w())); }
    inline std::string n9(double x) { return fmt("%.9g", (double)(float)x); }

    enum JT { FIX = 0, REV = 1, PRI = 2 };
    struct NodeDef
    {
        std::string name; int parent = -1; int type = FIX; M4 local = M4::Identity(); V3 axis = V3(0, 0, 1); double offset = 0, lo = -M_PI, hi = M_PI; bool limitless = false;
        double init = 0; std::vector<std::pair<int, float>> prop; double maxVel = -1, maxAcc = -1, maxTorque = -1;
        bool phys = false; double mass = 0; V3 com = V3::Zero(); M3 inertia = M3::Zero(); int sim = 0;
        bool vis = false, col = false; V3 box = V3(50, 50, 50);
        std::vector<std::pair<std::string, M4>> sensors; std::string xmlTransform;
    };
    struct SetDef { std::string name; std::vector<int> nodes; int root = -1, tcp = -1; };
    struct RobotDef
    {
        std::string name = "R", type = "T"; std::vector<NodeDef> n; std::vector<SetDef> sets;
        std::vector<int> joints() const { std::vector<int> r; for (size_t i = 0; i < n.size(); i++) if (n[i].type != FIX) r.push_back(i); return r; }
        std::vector<int> children(int i) const { std::vector<int> r; for (size_t k = 0; k < n.size(); k++) if (n[k].parent == i) r.push_back(k); return r; }
        bool below(int a, int anc) const { while (a >= 0) { if (a == anc) return true; a = n[a].parent; } return false; }
        // independent forward kinematics
        std::vector<M4> fk(const M4& root, const std::vector<double>& q) const
        {
            std::vector<M4> g(n.size());
            for (size_t i = 0; i < n.size(); i++)   // parents precede children
            {
                M4 p = n[i].parent < 0 ? root : g[n[i].parent];
                M4 j = M4::Identity(); double v = q[i] + n[i].offset;
                if (n[i].type == REV) j = R(n[i].axis.normalized(), v);
                if (n[i].type == PRI) j = T(v * n[i].axis(0), v * n[i].axis(1), v * n[i].axis(2));
                g[i] = p * n[i].local * j;
            }
            return g;
        }
    };
    struct GenOpt { int minNodes = 2, maxNodes = 9; bool models = false; bool sensors = true; bool prop = true; bool limitless = true; bool offsets = true; bool phys = false; double reach = 300; bool chain = false; bool initVals = true; bool xmlNotations = false; bool tricky = true; };

    inline std::string xmlMat(const M4& m)
    {
        std::string s = "<Matrix4x4>";
        for (int r = 0; r < 4; r++) { s += fmt("<row%d", r + 1); for (int c = 0; c < 4; c++) s += fmt(" c%d='%s'", c + 1, n9(m(r, c)).c_str()); s += "/>"; }
        return s + "</Matrix4x4>";
    }
    // a random <Transform> body and the matrix it denotes
    inline M4 genTransform(Rng& r, double reach, std::string& xml, bool notations)
    {
        M4 m = M4::Identity(); xml = "";
        int parts = notations ? r.i(1, 3) : 1;
        for (int k = 0; k < parts; k++)
        {
            int kind = notations ? r.i(0, 6) : 0;
            if (kind == 0)
            {
                M4 l = toF(r.pose(reach)); { int lk = r.i(0, 11); if (lk == 0) l.block<3, 1>(0, 3).setZero(); if (lk == 1) l.block<3, 3>(0, 0).setIdentity(); }
                if (notations && r.p(0.3))
                {
                    M4 lm = l; for (int i = 0; i < 3; i++) lm(i, 3) = F(lm(i, 3) / 1000);
                    std::string x = xmlMat(lm); x.insert(x.find("<row1") - 1, r.p(0.5) ? " units='m'" : " unitsLength='meter'"); xml += x;
                    for (int i = 0; i < 3; i++) l(i, 3) = lm(i, 3) * 1000;
                }
                else xml += xmlMat(l);
                m = m * l;
            }
            else if (kind == 1)
            {
                M3 rot = r.rot(); for (int i = 0; i < 9; i++) rot(i) = F(rot(i));
                xml += "<Matrix3x3>"; for (int i = 0; i < 3; i++) xml += fmt("<row%d c1='%s' c2='%s' c3='%s'/>", i + 1, n9(rot(i, 0)).c_str(), n9(rot(i, 1)).c_str(), n9(rot(i, 2)).c_str());
                xml += "</Matrix3x3>"; M4 l = M4::Identity(); l.block<3, 3>(0, 0) = rot; m = m * l;
            }
            else if (kind == 2)
            {
                bool deg = r.p(0.5); double s = deg ? M_PI / 180 : 1; double lim = deg ? 180 : M_PI;
                double a = F(r.u(-lim, lim)), b = F(r.u(-lim, lim)), c = F(r.u(-lim, lim));
                xml += fmt("<%s roll='%s' pitch='%s' yaw='%s' %s='%s'/>", r.p(0.5) ? "rollpitchyaw" : "RPY", n9(a).c_str(), n9(b).c_str(), n9(c).c_str(), r.p(0.5) ? "units" : "unitsAngle", deg ? (r.p(0.5) ? "degree" : "deg") : (r.p(0.5) ? "radian" : "rad"));
                m = m * R(V3::UnitZ(), c * s) * R(V3::UnitY(), b * s) * R(V3::UnitX(), a * s);
            }
            else if (kind == 3)
            {
                Eigen::Quaterniond q(r.rot()); q.normalize();
                double w = F(q.w()), x = F(q.x()), y = F(q.y()), z = F(q.z());
                xml += fmt("<Quaternion x='%s' y='%s' z='%s' w='%s'/>", n9(x).c_str(), n9(y).c_str(), n9(z).c_str(), n9(w).c_str());
                M4 l = M4::Identity(); l.block<3, 3>(0, 0) = Eigen::Quaterniond(w, x, y, z).normalized().toRotationMatrix(); m = m * l;
            }
            else if (kind == 4)
            {
                bool me = r.p(0.4); double s = me ? 1000 : 1;
                double x = F(r.u(-reach, reach) / s), y = F(r.u(-reach, reach) / s), z = F(r.u(-reach, reach) / s);
                xml += fmt("<%s x='%s' y='%s' z='%s'%s/>", r.p(0.5) ? "Translation" : "trans", n9(x).c_str(), n9(y).c_str(), n9(z).c_str(), me ? " units='m'" : (r.p(0.5) ? " units='mm'" : ""));
                m = m * T(x * s, y * s, z * s);
            }
            else
            {
                bool deg = r.p(0.5), me = r.p(0.3); double s = deg ? M_PI / 180 : 1, l = me ? 1000 : 1, lim = deg ? 180 : M_PI;
                double a = F(r.u(-reach, reach) / l), d = F(r.u(-reach, reach) / l), al = F(r.u(-lim, lim)), th = F(r.u(-lim, lim));
                bool ha = r.p(0.85), hd = r.p(0.85), hal = r.p(0.85), hth = r.p(0.85);
                xml += "<DH"; if (ha) xml += fmt(" a='%s'", n9(a).c_str()); if (hd) xml += fmt(" d='%s'", n9(d).c_str()); if (hal) xml += fmt(" alpha='%s'", n9(al).c_str()); if (hth) xml += fmt(" theta='%s'", n9(th).c_str());
                xml += fmt(" unitsAngle='%s' unitsLength='%s'/>", deg ? "degree" : "rad", me ? "m" : "mm");
                if (!ha) a = 0; if (!hd) d = 0; if (!hal) al = 0; if (!hth) th = 0;
                m = m * R(V3::UnitZ(), th * s) * T(0, 0, d * l) * T(a * l, 0, 0) * R(V3::UnitX(), al * s);
            }
        }
        return m;
    }
    inline RobotDef genRobot(Rng& r, const GenOpt& o)
    {
        RobotDef d; int N = r.i(o.minNodes, o.maxNodes);
        d.name = fmt("Rob%d", r.i(0, 99)); d.type = "TypeX";
        for (int i = 0; i < N; i++)
        {
            NodeDef n; n.name = fmt("N%d_%c", i, 'a' + r.i(0, 25));
            n.parent = i == 0 ? -1 : (o.chain || r.p(0.6)) ? i - 1 : r.i(0, i - 1);
            n.type = r.pick({FIX, REV, REV, REV, PRI});
            if (o.xmlNotations || r.p(0.85)) n.local = genTransform(r, o.reach, n.xmlTransform, o.xmlNotations); else n.xmlTransform = "";
            if (n.type != FIX)
            {
                n.axis = r.p(0.4) ? V3(V3::Unit(r.i(0, 2)) * (r.p(0.3) ? -1 : 1)) : r.dir();
                for (int k = 0; k < 3; k++) n.axis(k) = F(n.axis(k));
                if (n.type == REV)
                {
                    int k = r.i(0, 4);
                    n.lo = F(k == 0 ? -M_PI : r.u(-3, 0.2)); n.hi = F(k == 0 ? M_PI : n.lo + r.u(0.05, 4));
                    if (o.limitless && r.p(0.25)) { n.limitless = true; n.lo = (double)float(-M_PI); n.hi = (double)float(M_PI); if (r.p(0.3)) { n.lo = 0; n.hi = F(2 * M_PI); } }
                    if (o.offsets && r.p(0.35)) n.offset = F(r.u(-2, 2));
                }
                else { n.lo = F(r.u(-400, 50)); n.hi = F(n.lo + r.u(1, 600)); if (o.offsets && r.p(0.3)) n.offset = F(r.u(-100, 100)); }
                if (o.initVals && r.p(0.5)) n.init = F(r.u(n.lo, n.hi)); else n.init = std::min(std::max(0.0, n.lo), n.hi);
                if (r.p(0.5)) { n.maxVel = F(r.u(0.1, 5)); n.maxAcc = F(r.u(0.1, 5)); n.maxTorque = F(r.u(0.1, 500)); }
            }
            if (o.models) { n.vis = r.p(0.5); n.col = r.p(0.6); n.box = V3(F(r.u(10, 120)), F(r.u(10, 120)), F(r.u(10, 120))); }
            if (o.phys && r.p(0.8))
            {
                n.phys = true; n.mass = r.p(0.15) ? 0 : F(r.u(0.01, 20)); n.com = V3(F(r.u(-100, 100)), F(r.u(-100, 100)), F(r.u(-100, 100)));
                M3 q = r.rot(); V3 e(r.u(0.001, 1), r.u(0.001, 1), r.u(0.001, 1)); n.inertia = q * e.asDiagonal() * q.transpose();
                for (int k = 0; k < 9; k++) n.inertia(k) = F(n.inertia(k)); n.inertia = (n.inertia + n.inertia.transpose().eval()) / 2; for (int k = 0; k < 9; k++) n.inertia(k) = F(n.inertia(k));
                n.sim = r.i(0, 3);
            }
            if (o.sensors && r.p(0.25)) { M4 sp = toF(r.pose(200)); int sk = r.i(0, 5); if (sk == 0) sp.block<3, 1>(0, 3).setZero(); if (sk == 1) sp.block<3, 3>(0, 0).setIdentity(); n.sensors.push_back({fmt("S%d", i), sp}); }
            d.n.push_back(n);
        }
        if (d.joints().empty()) { d.n.back().type = REV; d.n.back().axis = V3(0, 0, 1); d.n.back().lo = F(-2); d.n.back().hi = F(2); d.n.back().init = 0; }
        if (o.prop && r.p(0.4))   // acyclic coupling: driver index < driven index
        {
            auto js = d.joints();
            for (int k = 0; k < r.i(1, 2); k++) if (js.size() >= 2) { int a = r.i(0, (int)js.size() - 2), b = r.i(a + 1, (int)js.size() - 1); bool dup = false; for (auto& p : d.n[js[a]].prop) dup |= p.first == js[b]; if (!dup) d.n[js[a]].prop.push_back({js[b], r.f(-2, 2)}); }
        }
        for (int k = 0; k < r.i(1, 3); k++)
        {
            SetDef s; s.name = fmt("Set%d", k); std::vector<int> js = d.joints(); r.shuffle(js); js.resize(r.i(1, (int)js.size()));
            if (r.p(0.5)) std::sort(js.begin(), js.end());
            s.nodes = js;
            // a valid kinematic root is an ancestor-or-self of every node of the set
            if (r.p(0.6)) { std::vector<int> c; for (size_t i = 0; i < d.n.size(); i++) { bool ok = true; for (int j : js) ok &= d.below(j, i); if (ok) c.push_back(i); } if (!c.empty()) s.root = r.pick(c); }
            if (r.p(0.6)) s.tcp = r.i(0, (int)d.n.size() - 1);
            d.sets.push_back(s);
        }
        return d;
    }
    inline std::vector<double> initialQ(const RobotDef& d) { std::vector<double> q; for (auto& n : d.n) q.push_back(n.type == FIX ? 0 : std::min(std::max(n.init, n.lo), n.hi)); return q; }
    inline std::string physXml(const NodeDef& n)
    {
        std::string s = "<Physics>" + fmt("<Mass value='%s' units='kg'/>", n9(n.mass).c_str());
        s += fmt("<CoM location='joint' x='%s' y='%s' z='%s' units='mm'/>", n9(n.com(0)).c_str(), n9(n.com(1)).c_str(), n9(n.com(2)).c_str());
        s += "<InertiaMatrix unitsWeight='kg' unitsLength='m'>"; for (int i = 0; i < 3; i++) s += fmt("<row%d c1='%s' c2='%s' c3='%s'/>", i + 1, n9(n.inertia(i, 0)).c_str(), n9(n.inertia(i, 1)).c_str(), n9(n.inertia(i, 2)).c_str());
        s += "</InertiaMatrix>";
        const char* st[] = {"", "static", "kinematic", "dynamic"};
        if (n.sim) s += fmt("<SimulationType value='%s'/>", st[n.sim]);
        return s + "</Physics>";
    }
    inline std::string toXml(const RobotDef& d, Rng* notations = nullptr)
    {
        std::string x = fmt("<?xml version='1.0' encoding='UTF-8'?>\n<Robot Type='%s' StandardName='%s' RootNode='%s'>\n", d.type.c_str(), d.name.c_str(), d.n[0].name.c_str());
        for (size_t i = 0; i < d.n.size(); i++)
        {
            const NodeDef& n = d.n[i];
            x += fmt("<RobotNode name='%s'>\n", n.name.c_str());
            if (!n.xmlTransform.empty()) x += "<Transform>" + n.xmlTransform + "</Transform>\n";
            if (n.vis) x += fmt("<Visualization enable='true'><Primitives><Box width='%s' height='%s' depth='%s'/></Primitives></Visualization>\n", n9(n.box(0)).c_str(), n9(n.box(1)).c_str(), n9(n.box(2)).c_str());
            if (n.col) x += fmt("<CollisionModel><Primitives><Box width='%s' height='%s' depth='%s'/></Primitives></CollisionModel>\n", n9(n.box(0)).c_str(), n9(n.box(1)).c_str(), n9(n.box(2)).c_str());
            if (n.type != FIX)
            {
                x += fmt("<Joint type='%s' offset='%s' initialvalue='%s'>\n", n.type == REV ? "revolute" : "prismatic", n9(n.offset).c_str(), n9(n.init).c_str());
                x += fmt(n.type == REV ? "<Axis x='%s' y='%s' z='%s'/>\n" : "<TranslationDirection x='%s' y='%s' z='%s'/>\n", n9(n.axis(0)).c_str(), n9(n.axis(1)).c_str(), n9(n.axis(2)).c_str());
                x += fmt("<Limits lo='%s' hi='%s' units='%s'%s/>\n", n9(n.lo).c_str(), n9(n.hi).c_str(), n.type == REV ? "radian" : "mm", n.limitless ? " limitless='true'" : "");
                if (n.maxVel >= 0) x += fmt("<MaxVelocity value='%s'/><MaxAcceleration value='%s'/><MaxTorque value='%s'/>\n", n9(n.maxVel).c_str(), n9(n.maxAcc).c_str(), n9(n.maxTorque).c_str());
                for (auto& p : n.prop) x += fmt("<PropagateJointValue name='%s' factor='%s'/>\n", d.n[p.first].name.c_str(), n9(p.second).c_str());
                x += "</Joint>\n";
            }
            if (n.phys) x += physXml(n) + "\n";
            for (auto& s : n.sensors) x += fmt("<Sensor type='position' name='%s'><Transform>%s</Transform></Sensor>\n", s.first.c_str(), xmlMat(s.second).c_str());
            for (int c : d.children(i)) x += fmt("<Child name='%s'/>\n", d.n[c].name.c_str());
            x += "</RobotNode>\n";
        }
        for (auto& s : d.sets)
        {
            x += fmt("<RobotNodeSet name='%s'%s%s>\n", s.name.c_str(), s.root >= 0 ? fmt(" kinematicRoot='%s'", d.n[s.root].name.c_str()).c_str() : "", s.tcp >= 0 ? fmt(" tcp='%s'", d.n[s.tcp].name.c_str()).c_str() : "");
            for (int i : s.nodes) x += fmt("<Node name='%s'/>\n", d.n[i].name.c_str());
            x += "</RobotNodeSet>\n";
        }
        return x + "</Robot>\n";
    }
    inline VirtualRobot::VisualizationNodePtr boxVis(const V3& b) { return VirtualRobot::VisualizationFactory::first(nullptr)->createBox(b(0), b(1), b(2)); }
    // builds the same robot through the C++ interface
    inline VirtualRobot::RobotPtr buildApi(const RobotDef& d)
    {
        using namespace VirtualRobot;
        RobotPtr rob(new LocalRobot(d.name, d.type));
        std::vector<RobotNodePtr> nodes; std::map<RobotNodePtr, std::vector<std::string>> ch;
        RobotNodeRevoluteFactory rf; RobotNodePrismaticFactory pf; RobotNodeFixedFactory ff;
        for (auto& n : d.n)
        {
            VisualizationNodePtr v; CollisionModelPtr c;
            if (n.vis) v = boxVis(n.box);
            if (n.col) c.reset(new CollisionModel(boxVis(n.box), n.name + "_col", CollisionCheckerPtr()));
            SceneObject::Physics p;
            if (n.phys)
            {
                p.massKg = n.mass; p.localCoM = n.com.cast<float>(); p.comLocation = SceneObject::Physics::eCustom; p.inertiaMatrix = n.inertia.cast<float>();
                p.simType = n.sim == 1 ? SceneObject::Physics::eStatic : n.sim == 2 ? SceneObject::Physics::eKinematic : n.sim == 3 ? SceneObject::Physics::eDynamic : SceneObject::Physics::eUnknown;
            }
            Eigen::Matrix4f l = f4(n.local); Eigen::Vector3f ax = n.axis.cast<float>();
            RobotNodePtr rn;
            if (n.type == REV) rn = rf.createRobotNode(rob, n.name, v, c, n.lo, n.hi, n.offset, l, ax, Eigen::Vector3f::Zero(), p);
            else if (n.type == PRI) rn = pf.createRobotNode(rob, n.name, v, c, n.lo, n.hi, n.offset, l, Eigen::Vector3f::Zero(), ax, p);
            else rn = ff.createRobotNode(rob, n.name, v, c, 0, 0, 0, l, Eigen::Vector3f::Zero(), Eigen::Vector3f::Zero(), p);
            if (n.type != FIX) { rn->setLimitless(n.limitless); rn->setMaxVelocity(n.maxVel); rn->setMaxAcceleration(n.maxAcc); rn->setMaxTorque(n.maxTorque); }
            for (auto& s : n.sensors) { SensorPtr se(new PositionSensor(rn, s.first, VisualizationNodePtr(), f4(s.second))); rn->registerSensor(se); }
            nodes.push_back(rn); rob->registerRobotNode(rn);
        }
        for (size_t i = 0; i < d.n.size(); i++)
        {
            std::vector<std::string> c; for (int k : d.children(i)) c.push_back(d.n[k].name); ch[nodes[i]] = c;
            for (auto& p : d.n[i].prop) nodes[i]->propagateJointValue(d.n[p.first].name, p.second);
        }
        if (!RobotFactory::initializeRobot(rob, nodes, ch, nodes[0])) throw std::runtime_error("initializeRobot failed");
        for (auto& s : d.sets)
        {
            std::vector<RobotNodePtr> sn; for (int i : s.nodes) sn.push_back(nodes[i]);
            RobotNodeSet::createRobotNodeSet(rob, s.name, sn, s.root >= 0 ? nodes[s.root] : RobotNodePtr(), s.tcp >= 0 ? nodes[s.tcp] : RobotNodePtr(), true);
        }
        std::map<std::string, float> q; for (auto& n : d.n) if (n.type != FIX) q[n.name] = n.init;
        rob->setJointValues(q);
        return rob;
    }
    inline VirtualRobot::RobotPtr buildXml(const RobotDef& d, VirtualRobot::RobotIO::RobotDescription mode = VirtualRobot::RobotIO::eFull) { return VirtualRobot::RobotIO::createRobotFromString(toXml(d), "", mode); }
    inline VirtualRobot::RobotPtr build(const RobotDef& d, bool xml) { return xml ? buildXml(d) : buildApi(d); }
    // joint value a joint with these limits holds after being commanded v
    inline double clipRef(const NodeDef& n, double v) { return n.limitless ? v : std::min(std::max(v, n.lo), n.hi); }
    // is a equal to b, modulo whole turns for limitless joints
    inline double jdiff(const NodeDef& n, double a, double b) { double e = a - b; if (n.limitless) e = std::remainder(e, 2 * M_PI); return std::fabs(e); }
    inline double posTol(const M4& m) { return 0.02 + 4e-6 * m.block<3, 1>(0, 3).norm(); }
}
