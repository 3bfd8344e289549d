// C01 forward kinematics, C02 joint limits, C03 frame conversions
#include "rob.h"
#include <VirtualRobot/LinkedCoordinate.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/Obstacle.h>
using namespace vh;
using namespace VirtualRobot;

struct Sim
{
    Rng& r; RobotDef d; RobotPtr rob; std::vector<RobotNodePtr> nd; std::vector<double> q; M4 root = M4::Identity(); std::vector<bool> loose;
    std::vector<bool> enforce, cmdd; std::string hist; bool c02;
    Sim(Rng& rr, const GenOpt& o, bool c02_) : r(rr), c02(c02_)
    {
        d = genRobot(r, o);
        bool xml = r.p(0.5); hist = xml ? "xml" : "api";
        rob = build(d, xml); attach();
        q = initialQ(d); enforce.assign(d.n.size(), true); cmdd.assign(d.n.size(), true);
        sig(hmix(std::hash<std::string>()(toXml(d)), xml));
    }
    void attach() { nd.clear(); for (auto& n : d.n) { nd.push_back(rob->getRobotNode(n.name)); if (!nd.back()) throw std::runtime_error("node lost"); } loose.assign(d.n.size(), false); }
    double lim(int i, double v) { return (!enforce[i] && !d.n[i].limitless) ? v : clipRef(d.n[i], v); }
    void hit(const std::string& s) { hist += ";" + s; if (hist.size() > 600) hist = hist.substr(hist.size() - 600); at(hist); }
    double val(int i)
    {
        const NodeDef& n = d.n[i]; double w = n.hi - n.lo;
        int k = r.i(0, 9);
        double v = k == 0 ? n.lo : k == 1 ? n.hi : k == 2 ? n.lo - r.u(0, 2) * w : k == 3 ? n.hi + r.u(0, 2) * w : k == 4 ? 0 : k == 5 ? r.u(-40, 40) : r.u(n.lo, n.hi);
        if (k == 5 && n.limitless && r.p(0.3)) v = r.u(-300, 300);
        return F(v);
    }
    // single-joint command semantics: coupled joints follow
    void cmdSingle(int i, double v)
    {
        q[i] = lim(i, v); loose[i] = false; cmdd[i] = true;
        double held = nd[i]->getJointValue();   // limitless: representative chosen by the library
        if (d.n[i].limitless) q[i] = held_ok(i, v, held) ? held : v;
        for (auto& p : d.n[i].prop) cmdSingle(p.first, F((float)q[i] * p.second));
    }
    bool held_ok(int i, double v, double h) { return jdiff(d.n[i], v, h) <= 2e-5 + 1e-6 * std::fabs(v); }
    void cmdBatch(int i, double v) { q[i] = lim(i, v); loose[i] = false; cmdd[i] = true; }
    void step()
    {
        auto js = d.joints(); int i = r.pick(js); double v = val(i);
        std::vector<int> some = js; r.shuffle(some); some.resize(r.i(1, (int)some.size()));
        std::vector<double> vals; for (int k : some) vals.push_back(val(k));
        int op = r.i(0, 17);
        std::vector<int> batch; std::vector<double> bv; bool single = false;
        switch (op)
        {
            case 0: hit(fmt("node%d=%g", i, v)); nd[i]->setJointValue(v); single = true; break;
            case 1: hit(fmt("rob.node%d=%g", i, v)); rob->setJointValue(nd[i], v); single = true; break;
            case 2: hit(fmt("rob.name%d=%g", i, v)); rob->setJointValue(d.n[i].name, v); single = true; break;
            case 3: { hit("map<name>"); std::map<std::string, float> m; for (size_t k = 0; k < some.size(); k++) m[d.n[some[k]].name] = vals[k]; rob->setJointValues(m); batch = some; bv = vals; break; }
            case 4: { hit("map<node>"); std::map<RobotNodePtr, float> m; for (size_t k = 0; k < some.size(); k++) m[nd[some[k]]] = vals[k]; rob->setJointValues(m); batch = some; bv = vals; break; }
            case 5: { hit("vec<node>"); std::vector<RobotNodePtr> m; std::vector<float> f; for (size_t k = 0; k < some.size(); k++) { m.push_back(nd[some[k]]); f.push_back(vals[k]); } rob->setJointValues(m, f); batch = some; bv = vals; break; }
            case 6: case 7: case 8: case 9: case 10:
            {
                const SetDef& s = r.pick(d.sets); RobotNodeSetPtr rns = rob->getRobotNodeSet(s.name);
                batch = s.nodes; std::vector<float> f; for (int k : batch) { bv.push_back(val(k)); f.push_back(bv.back()); }
                Eigen::VectorXf e(f.size()); for (size_t k = 0; k < f.size(); k++) e(k) = f[k];
                hit(fmt("rns%d:%s", op, s.name.c_str()));
                if (op == 6) rns->setJointValues(f); else if (op == 7) rns->setJointValues(e); else if (op == 8) rob->setJointValues(rns, f); else if (op == 9) rob->setJointValues(rns, e);
                else
                {   // configuration restricted to the set; entries outside the set must be ignored
                    std::map<std::string, float> cm; RobotConfigPtr c(new RobotConfig(rob, "c")); for (size_t k = 0; k < batch.size(); k++) c->setConfig(d.n[batch[k]].name, f[k]);
                    for (size_t k = 0; k < some.size(); k++) if (std::find(batch.begin(), batch.end(), some[k]) == batch.end()) c->setConfig(nd[some[k]], vals[k]);
                    if (r.p(0.5)) rns->setJointValues(c); else rob->setJointValues(rns, c);
                }
                break;
            }
            case 11: { hit("config"); RobotConfigPtr c(new RobotConfig(rob, "c")); for (size_t k = 0; k < some.size(); k++) c->setConfig(nd[some[k]], vals[k]); int w = r.i(0, 2); if (w == 0) rob->setConfig(c); else if (w == 1) rob->setJointValues(c); else c->setJointValues(); batch = some; bv = vals; break; }
            case 12: { hit("rootpose"); root = toF(r.pose(2000)); rob->setGlobalPose(f4(root)); break; }
            case 13: { hit("rootpose+apply"); root = toF(r.pose(2000)); rob->setGlobalPose(f4(root), false); rob->applyJointValues(); break; }
            case 14:
            {
                int k = r.i(0, (int)d.n.size() - 1); M4 target = r.pose(2000);
                if (r.p(0.3)) target.block<3, 3>(0, 0).setIdentity();
                target = toF(target); hit(fmt("placeNode%d", k));
                auto before = jointVec();
                rob->setGlobalPoseForRobotNode(nd[k], f4(target));
                if (!c02) checkPose(nd[k]->getGlobalPose(), target, 5e-5, 0.05 + 1e-5 * target.block<3, 1>(0, 3).norm(), "place/node-pose", "node at requested pose");
                if (!c02) check(before == jointVec(), "place/joints-changed", "placing changed joint values");
                root = rob->getGlobalPose().cast<double>(); count("placed");
                break;
            }
            case 15:
            {
                int k = r.i(0, (int)d.n.size() - 1); V3 target(F(r.u(-2000, 2000)), F(r.u(-2000, 2000)), F(r.u(-2000, 2000))); hit(fmt("placeNodePos%d", k));
                auto before = jointVec(); Eigen::Matrix3f ori = rob->getGlobalOrientation();
                rob->setGlobalPositionForRobotNode(nd[k], target.cast<float>());
                if (!c02) checkMat(nd[k]->getGlobalPosition(), target, 0.1, "place/node-position", "node at requested position");
                if (!c02) checkMat(rob->getGlobalOrientation(), ori, 1e-4, "place/position-turned-robot", "orientation kept");
                if (!c02) check(before == jointVec(), "place/joints-changed", "placing changed joint values");
                root = rob->getGlobalPose().cast<double>(); count("placed");
                break;
            }
            case 16: { int k = r.i(0, (int)d.n.size() - 1); hit(fmt("noupdate%d+apply", k)); batch = {i}; bv = {v}; nd[i]->setJointValueNoUpdate(v); rob->applyJointValues(); break; }
            case 17:
            {
                if (c02 && !d.n[i].limitless && r.p(0.5)) { bool e = r.p(0.5); hit(fmt("enforce%d=%d", i, e)); nd[i]->setEnforceJointLimits(e); enforce[i] = e; cmdd[i] = false; check(nd[i]->getEnforceJointLimits() == e, "limits/enforce-flag", "flag"); break; }
                if (c02 && !d.n[i].limitless) { double lo = F(r.u(-2, 0)), hi = F(lo + r.u(0.1, 3)); if (d.n[i].type == PRI) { lo *= 100; hi *= 100; lo = F(lo); hi = F(hi); } hit(fmt("limits%d=[%g,%g]", i, lo, hi)); nd[i]->setJointLimits(lo, hi); d.n[i].lo = lo; d.n[i].hi = hi; nd[i]->setJointValue(v); single = true; break; }
                hit(fmt("upd%d", i)); nd[i]->updatePose(true); single = !d.n[i].prop.empty(); if (single) { v = q[i]; } break;
            }
        }
        if (single) cmdSingle(i, v);
        for (size_t k = 0; k < batch.size(); k++) cmdBatch(batch[k], bv[k]);
        if (!batch.empty())
        {
            // coupled joints of batch commands: see known finding C02 propagate/batch
            for (int b : batch) for (auto& p : d.n[b].prop) if (std::find(batch.begin(), batch.end(), p.first) == batch.end()) markLoose(p.first, b);
        }
        if (op >= 6 && op <= 10) for (size_t k = 0; k < d.n.size(); k++) if (!d.n[k].prop.empty()) for (auto& p : d.n[k].prop) markLoose(p.first, (int)k);
        count(fmt("op%02d", op).c_str());
    }
    void markLoose(int i, int driver)
    {
        // accept the value the joint had, was commanded, or the value its driver would propagate
        double h = nd[i]->getJointValue(); bool old = jdiff(d.n[i], h, q[i]) < 1e-4 + 1e-6 * std::fabs(h);
        for (auto& p : d.n[driver].prop) if (p.first == i)
        {
            double w = lim(i, F((float)nd[driver]->getJointValue() * p.second));
            bool pr = jdiff(d.n[i], h, w) < 1e-4 + 1e-5 * std::fabs(w);
            if (c02 && !pr) { check(false, "propagate/batch", "batch command of joint %d did not drive coupled joint %d", driver, i); }
            if (old || pr) { q[i] = h; for (auto& p2 : d.n[i].prop) markLoose(p2.first, i); return; }
        }
    }
    std::vector<float> jointVec() { std::vector<float> v; for (auto& n : nd) v.push_back(n->getJointValue()); return v; }
    void checkJoints()
    {
        for (size_t i = 0; i < d.n.size(); i++)
        {
            if (d.n[i].type == FIX) continue;
            double h = nd[i]->getJointValue();
            check(jdiff(d.n[i], h, q[i]) <= 2e-5 + 3e-6 * std::fabs(q[i]), "limits/held-value", "joint %zu holds %.9g want %.9g (limits %g..%g limitless %d)", i, h, q[i], d.n[i].lo, d.n[i].hi, d.n[i].limitless);
            if (enforce[i] && cmdd[i] && !d.n[i].limitless) check(h >= d.n[i].lo && h <= d.n[i].hi, "limits/outside", "joint %zu at %.9g outside [%.9g,%.9g]", i, h, d.n[i].lo, d.n[i].hi);
            if (d.n[i].limitless) check(h >= d.n[i].lo - 1e-5 && h <= d.n[i].hi + 1e-5, "limits/limitless-range", "limitless joint %zu at %.9g", i, h);
            q[i] = h;   // continue from the held representative (already judged)
        }
    }
    void checkPoses()
    {
        auto g = d.fk(root, q);
        checkPose(rob->getGlobalPose(), root, 1e-6, 1e-3, "fk/robot-pose", "robot pose");
        M4 rinv = inv(root);
        for (size_t i = 0; i < d.n.size(); i++)
        {
            double pt = posTol(g[i]) + 4e-6 * (g[i].block<3, 1>(0, 3) - root.block<3, 1>(0, 3)).norm(); Eigen::Matrix4f p = nd[i]->getGlobalPose();
            checkPose(p, g[i], 5e-5, pt, "fk/global-pose", fmt("node %zu", i));
            check(mdiff((p.block<3, 3>(0, 0).transpose() * p.block<3, 3>(0, 0)).eval(), M3::Identity().eval()) < 1e-4 && p.block<3, 3>(0, 0).determinant() > 0, "fk/rigid", "node %zu rotation not orthonormal", i);
            checkMat(nd[i]->getGlobalPosition(), g[i].block<3, 1>(0, 3), pt, "fk/global-position");
            checkMat(nd[i]->getGlobalOrientation(), g[i].block<3, 3>(0, 0), 5e-5, "fk/global-orientation");
            M4 rel = rinv * g[i];
            checkPose(nd[i]->getPoseInRootFrame(), relToRootNode(g, i), 1e-4, 2 * pt + 0.02, "fk/root-frame-pose", fmt("node %zu", i));
            checkMat(nd[i]->getPositionInRootFrame(), relToRootNode(g, i).block<3, 1>(0, 3), 2 * pt + 0.02, "fk/root-frame-position");
            checkMat(nd[i]->getOrientationInRootFrame(), relToRootNode(g, i).block<3, 3>(0, 0), 1e-4, "fk/root-frame-orientation");
            (void)rel;
            if (d.n[i].vis) { auto v = nd[i]->getVisualization(SceneObject::Full); check(!!v, "fk/visualization-lost", "node %zu", i); if (v) checkPose(v->getGlobalPose(), g[i], 5e-5, pt, "fk/visualization-pose", fmt("node %zu", i)); }
            if (d.n[i].col) { auto c = nd[i]->getCollisionModel(); check(!!c, "fk/collision-model-lost", "node %zu", i); if (c) checkPose(c->getGlobalPose(), g[i], 5e-5, pt, "fk/collision-model-pose", fmt("node %zu", i)); }
            for (auto& s : d.n[i].sensors)
            {
                SensorPtr se = nd[i]->getSensor(s.first); check(!!se, "fk/sensor-lost", "sensor"); if (!se) continue;
                checkPose(se->getGlobalPose(), (g[i] * s.second).eval(), 1e-4, pt + 0.02, "fk/sensor-pose", fmt("sensor of node %zu", i));
            }
            sig(hm(i, p));
        }
        for (auto& s : d.sets)
        {
            auto rns = rob->getRobotNodeSet(s.name); int tcp = s.tcp >= 0 ? s.tcp : s.nodes.back();
            check(rns && rns->getTCP() && rns->getTCP()->getName() == d.n[tcp].name, "fk/tcp", "tcp of set");
            std::vector<float> v = rns->getJointValues(); Eigen::VectorXf e = rns->getJointValuesEigen(); auto mp = rns->getJointValueMap();
            check(v.size() == s.nodes.size() && (size_t)e.size() == v.size(), "fk/set-size", "size");
            for (size_t k = 0; k < s.nodes.size() && k < v.size(); k++) check(v[k] == (float)nd[s.nodes[k]]->getJointValue() && e(k) == v[k] && mp[d.n[s.nodes[k]].name] == v[k], "fk/set-values", "set value %zu", k);
        }
        RobotConfigPtr c = rob->getConfig(); auto cm = c->getRobotNodeJointValueMap();
        for (size_t i = 0; i < d.n.size(); i++) if (d.n[i].type != FIX) check(cm.count(d.n[i].name) && cm[d.n[i].name] == nd[i]->getJointValue(), "fk/config-values", "config of joint %zu", i);
    }
    M4 relToRootNode(const std::vector<M4>& g, size_t i) { return inv(g[0]) * g[i]; }
};

static void c01(Rng& r)
{
    GenOpt o; o.models = r.p(0.4); o.maxNodes = S().thorough ? 16 : 10; o.xmlNotations = false;
    Sim s(r, o, false);
    s.checkPoses(); s.checkJoints();
    int n = r.i(6, 20);
    for (int k = 0; k < n; k++) { s.step(); s.checkJoints(); s.checkPoses(); }
    sample(fmt("%zu nodes, history %s", s.d.n.size(), s.hist.c_str()));
}
static void c02(Rng& r)
{
    GenOpt o; o.sensors = false; o.maxNodes = 8;
    Sim s(r, o, true);
    s.checkJoints();
    int n = r.i(8, 30);
    for (int k = 0; k < n; k++)
    {
        s.step(); s.checkJoints();
        for (size_t i = 0; i < s.d.n.size(); i++) sig(hmix(hmix(i, s.d.n[i].limitless), (uint64_t)llround(s.q[i] * 1e4)));
        // delta to a target inside the range, commanded on top of the current value, reaches the target
        auto js = s.d.joints(); int i = r.pick(js); NodeDef& nd = s.d.n[i];
        double cur = s.nd[i]->getJointValue(), target = F(r.u(nd.lo, nd.hi));
        if (nd.limitless && r.p(0.3)) target = F(r.u(-30, 30));
        if (!nd.limitless && (cur < nd.lo || cur > nd.hi)) continue;
        double del = s.nd[i]->getDelta(target);
        check(jdiff(nd, cur + del, target) < 3e-5 + 1e-5 * std::fabs(target) + 1e-6 * std::fabs(cur), "delta/reaches", "cur %g delta %g target %g limitless %d", cur, del, target, nd.limitless);
        if (nd.limitless && target >= nd.lo && target <= nd.hi) check(std::fabs(del) <= M_PI + 1e-4, "delta/shortest", "cur %g delta %g target %g", cur, del, target);
        if (!nd.limitless) { double out = F(r.p(0.5) ? nd.hi + r.u(0.01, 5) : nd.lo - r.u(0.01, 5)); check(s.nd[i]->getDelta(out) == 0, "delta/outside", "delta to unreachable target must be 0"); }
        // predicates
        float v = s.val(i), w = v; s.nd[i]->respectJointLimits(w);
        if (!nd.limitless) { check(w == (float)clipRef(nd, v), "limits/respect", "respect %g -> %g", v, w); check(s.nd[i]->checkJointLimits(v) == (v >= (float)nd.lo && v <= (float)nd.hi), "limits/check", "check %g", v); }
        check(s.nd[i]->getJointLimitLo() == (float)nd.lo && s.nd[i]->getJointLimitHi() == (float)nd.hi, "limits/reported", "limits");
        for (auto& st : s.d.sets)
        {
            auto rns = s.rob->getRobotNodeSet(st.name); std::vector<float> a, b; bool in = true, ll = false;
            for (int k2 : st.nodes) { a.push_back(s.val(k2)); b.push_back(clipRef(s.d.n[k2], a.back())); in &= a.back() >= (float)s.d.n[k2].lo && a.back() <= (float)s.d.n[k2].hi; ll |= s.d.n[k2].limitless; }
            if (ll) continue;
            check(rns->checkJointLimits(a) == in, "limits/set-check", "set check");
            Eigen::VectorXf e(a.size()); for (size_t z = 0; z < a.size(); z++) e(z) = a[z]; check(rns->checkJointLimits(e) == in, "limits/set-check", "set check eigen");
            rns->respectJointLimits(a); rns->respectJointLimits(e); bool same = true; for (size_t z = 0; z < a.size(); z++) same &= a[z] == b[z] && e(z) == b[z];
            check(same, "limits/set-respect", "set respect");
        }
    }
    sample(fmt("%zu nodes, history %s", s.d.n.size(), s.hist.c_str()));
}
static void c03(Rng& r)
{
    GenOpt o; o.maxNodes = 8; Sim s(r, o, false);
    auto rnd = [&]() { s.root = toF(r.pose(1500)); s.rob->setGlobalPose(f4(s.root)); std::map<std::string, float> m; for (int j : s.d.joints()) { double v = F(r.u(s.d.n[j].lo, s.d.n[j].hi)); m[s.d.n[j].name] = v; s.q[j] = v; } s.rob->setJointValues(m); return s.d.fk(s.root, s.q); };
    for (int rep = 0; rep < 6; rep++)
    {
        auto g = rnd();
        std::vector<SceneObjectPtr> ob; std::vector<M4> og;
        for (size_t i = 0; i < s.nd.size(); i++) { ob.push_back(s.nd[i]); og.push_back(g[i]); }
        ob.push_back(s.rob); og.push_back(s.root);
        for (int k = 0; k < 2; k++) { SceneObjectPtr so(new SceneObject("free")); so->initialize(); M4 p = toF(r.pose(2000)); so->setGlobalPose(f4(p)); ob.push_back(so); og.push_back(p); }
        int extra = r.i(0, (int)s.nd.size() - 1); // an object attached to a node
        SceneObjectPtr att(new SceneObject("attached")); att->initialize(); M4 attRel; { M4 p = toF(r.pose(500)); att->setGlobalPose(f4(p)); if (s.nd[extra]->attachChild(att)) { attRel = M4::Identity(); ob.push_back(att); og.push_back(p); } else viol("attach/failed", "attachChild"); }
        for (int k = 0; k < 6; k++)
        {
            int a = r.i(0, (int)ob.size() - 1), b = r.i(0, (int)ob.size() - 1); M4 x = toF(r.pose(1500)); V3 p = x.block<3, 1>(0, 3); V3 dv = r.dir();
            M4 A = og[a], B = og[b]; Eigen::Matrix4f xf = f4(x); Eigen::Vector3f pf = p.cast<float>(); double pt = 0.08;
            const char* K = "frames/";
            auto key = [&](const char* w) { return std::string(K) + w; };
            checkPose(ob[a]->toLocalCoordinateSystem(xf), (inv(A) * x).eval(), 1e-4, pt, key("to-local"));
            checkPose(ob[a]->toGlobalCoordinateSystem(xf), (A * x).eval(), 1e-4, pt, key("to-global"));
            checkMat(ob[a]->toLocalCoordinateSystemVec(pf), (inv(A) * p.homogeneous()).head<3>().eval(), pt, key("to-local-vec"));
            checkMat(ob[a]->toGlobalCoordinateSystemVec(pf), (A * p.homogeneous()).head<3>().eval(), pt, key("to-global-vec"));
            checkPose(ob[a]->toGlobalCoordinateSystem(ob[a]->toLocalCoordinateSystem(xf)), x, 1e-4, pt, key("inverse"));
            checkPose(ob[a]->getTransformationTo(ob[b]), (inv(A) * B).eval(), 1e-4, pt, key("transformation-to"));
            checkPose(ob[a]->getTransformationFrom(ob[b]), (inv(B) * A).eval(), 1e-4, pt, key("transformation-from"));
            checkPose(ob[a]->transformTo(ob[b], xf), (inv(A) * B * x).eval(), 1e-4, pt, key("transform-pose"));
            checkMat(ob[a]->transformTo(ob[b], pf), (inv(A) * B * p.homogeneous()).head<3>().eval(), pt, key("transform-position"));
            checkPose(ob[a]->getGlobalPose(xf), (A * x).eval(), 1e-4, pt, key("global-of-local-pose"));
            checkMat(ob[a]->getGlobalPosition(pf), (A * p.homogeneous()).head<3>().eval(), pt, key("global-of-local-position"));
            checkMat(ob[a]->getGlobalDirection(dv.cast<float>()), (A.block<3, 3>(0, 0) * dv).eval(), 1e-4, key("global-direction"));
            checkMat(ob[a]->getGlobalOrientation(Eigen::Matrix3f(xf.block<3, 3>(0, 0))), (A.block<3, 3>(0, 0) * x.block<3, 3>(0, 0)).eval(), 1e-4, key("global-orientation"));
            int i = r.i(0, (int)s.nd.size() - 1); M4 rf = inv(g[0]) * g[i];
            checkPose(s.nd[i]->getPoseInRootFrame(xf), (rf * x).eval(), 1e-4, pt, key("root-pose-of-local"));
            checkMat(s.nd[i]->getPositionInRootFrame(pf), (rf * p.homogeneous()).head<3>().eval(), pt, key("root-position-of-local"));
            checkMat(s.nd[i]->getDirectionInRootFrame(dv.cast<float>()), (rf.block<3, 3>(0, 0) * dv).eval(), 1e-4, key("root-direction-of-local"));
            checkMat(s.nd[i]->getOrientationInRootFrame(Eigen::Matrix3f(xf.block<3, 3>(0, 0))), (rf.block<3, 3>(0, 0) * x.block<3, 3>(0, 0)).eval(), 1e-4, key("root-orientation-of-local"));
            Eigen::Matrix4f want = s.rob->getGlobalPoseForRobotNode(s.nd[i], xf);
            checkPose(want, (x * inv(g[i]) * s.root).eval(), 2e-4, 0.3, key("robot-pose-for-node"));
            if (auto rv = boost::dynamic_pointer_cast<RobotNodeRevolute>(s.nd[i]))
            {
                checkMat(rv->getJointRotationAxis(), (g[i].block<3, 3>(0, 0) * s.d.n[i].axis.normalized()).eval(), 1e-4, key("joint-axis-global"));
                checkMat(rv->getJointRotationAxis(ob[b]), (B.block<3, 3>(0, 0).transpose() * g[i].block<3, 3>(0, 0) * s.d.n[i].axis.normalized()).eval(), 1e-4, key("joint-axis-in-frame"));
            }
            if (auto pv = boost::dynamic_pointer_cast<RobotNodePrismatic>(s.nd[i]))
            {
                checkMat(pv->getJointTranslationDirection(), (g[i].block<3, 3>(0, 0) * s.d.n[i].axis).eval(), 1e-4, key("joint-direction-global"));
                checkMat(pv->getJointTranslationDirection(ob[b]), (B.block<3, 3>(0, 0).transpose() * g[i].block<3, 3>(0, 0) * s.d.n[i].axis).eval(), 1e-4, key("joint-direction-in-frame"));
            }
        }
        // linked coordinates
        {
            int i = r.i(0, (int)s.nd.size() - 1), j = r.i(0, (int)s.nd.size() - 1), k = r.i(0, (int)s.nd.size() - 1); M4 x = toF(r.pose(500));
            LinkedCoordinate lc(s.rob); bool byName = r.p(0.5); bool posOnly = r.p(0.3); if (posOnly) x.block<3, 3>(0, 0).setIdentity();
            if (posOnly) { Eigen::Vector3f p = x.block<3, 1>(0, 3).cast<float>(); if (byName) lc.set(s.d.n[i].name, p); else lc.set(s.nd[i], p); } else { if (byName) lc.set(s.d.n[i].name, f4(x)); else lc.set(s.nd[i], f4(x)); }
            if (byName) lc.changeFrame(s.d.n[j].name); else lc.changeFrame(s.nd[j]);
            M4 rel = inv(g[j]) * g[i] * x;
            checkPose(lc.getPose(), rel, 1e-4, 0.08, "linked/change-frame");
            checkMat(lc.getPosition(), rel.block<3, 1>(0, 3), 0.08, "linked/position");
            check(lc.getFrame() && lc.getFrame()->getName() == s.d.n[j].name, "linked/frame", "frame name");
            checkPose(byName ? lc.getInFrame(s.d.n[k].name) : lc.getInFrame(s.nd[k]), (inv(g[k]) * g[i] * x).eval(), 1e-4, 0.08, "linked/in-frame");
            LinkedCoordinate lc2(lc), lc3(s.rob); lc3 = lc;
            g = rnd();   // the robot moves: the coordinate keeps its frame-relative pose
            M4 w = inv(g[k]) * g[j] * rel;
            checkPose(lc.getInFrame(s.nd[k]), w, 1e-4, 0.1, "linked/follows-frame"); checkPose(lc2.getInFrame(s.nd[k]), w, 1e-4, 0.1, "linked/copy"); checkPose(lc3.getInFrame(s.nd[k]), w, 1e-4, 0.1, "linked/assign");
            checkPose(LinkedCoordinate::getCoordinateTransformation(s.nd[i], s.nd[k], s.rob), (inv(g[k]) * g[i]).eval(), 1e-4, 0.08, "linked/transformation");
            if (att->hasParent()) checkPose(att->getGlobalPose(), (g[extra] * attRel).eval(), 2e-4, 0.1, "attach/follows");
            if (att->hasParent())
            {
                s.nd[extra]->detachChild(att); M4 keep = att->getGlobalPose().cast<double>(); check(!att->hasParent(), "attach/detach", "still has a parent");
                rnd(); checkPose(att->getGlobalPose(), keep, 1e-6, 1e-3, "attach/detached-stays");
            }
        }
        sig(hm(rep, s.rob->getGlobalPose()));
    }
    sample(fmt("%zu nodes, root [%s]", s.d.n.size(), ms(s.root).c_str()));
}
int main(int c, char** v)
{
    VirtualRobot::init("vh");
    return run(c, v, {{"C01", c01, 6000, 200000}, {"C02", c02, 12000, 400000}, {"C03", c03, 8000, 200000}});
}
