// Generated hands (end effectors) and obstacles.
#pragma once
#include "mesh.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
using namespace vh; using namespace VirtualRobot;
using Act = EndEffectorActor;
struct ActRef { std::string name; std::vector<int> node, mode; std::vector<double> dir; };
struct Hand
{
    RobotDef d; std::vector<Mesh> mesh; std::vector<bool> has; std::vector<ActRef> act; std::vector<int> stat; int base, tcp, gcp; M4 root = M4::Identity(); RobotPtr p; EndEffectorPtr e; CollisionCheckerPtr cc;
    std::vector<double> q() const { std::vector<double> v; for (auto& n : d.n) v.push_back(p->getRobotNode(n.name)->getJointValue()); return v; }
};
struct Thing { Mesh m; M4 pose; ObstaclePtr o; };
inline int addNode(RobotDef& d, const std::string& n, int parent, int type, const M4& local, const V3& axis, double lo, double hi) { NodeDef x; x.name = n; x.parent = parent; x.type = type; x.local = toF(local); x.axis = axis; x.lo = F(lo); x.hi = F(hi); d.n.push_back(x); return (int)d.n.size() - 1; }
inline Hand genHand(Rng& r)
{
    Hand h; RobotDef& d = h.d; d.name = "Hand"; d.type = "HandType"; auto model = [&](int n, const Mesh& m) { h.mesh.resize(n + 1); h.has.resize(n + 1); h.mesh[n] = m; h.has[n] = true; };
    int cur = addNode(d, "Root", -1, FIX, M4::Identity(), V3(0, 0, 1), 0, 0);
    if (r.p(0.7)) cur = addNode(d, "Arm", cur, REV, r.pose(200), V3(0, 0, 1), -2, 2);
    int palm = addNode(d, "Palm", cur, FIX, r.p(0.5) ? M4(r.pose(100)) : M4(M4::Identity()), V3(0, 0, 1), 0, 0); h.base = palm;
    bool par = r.p(0.25); int K = par ? 2 : r.i(2, 5); double W = r.u(40, 70); if (r.p(0.9)) { model(palm, boxMesh(V3(W, W, 14)).moved(T(0, 0, -12))); h.stat.push_back(palm); }
    for (int f = 0; f < K; f++)
    {
        ActRef a; a.name = fmt("Finger %d", f); double phi = 2 * M_PI * f / K + (par ? 0 : r.u(-0.2, 0.2)); M4 at = R(V3(0, 0, 1), phi) * T(W / 2, 0, 0); int n = palm, L = par ? 1 : r.i(1, 3); double len = 0;
        for (int k = 0; k < L; k++)
        {
            M4 loc = k ? T(0, 0, len) : at; len = r.u(20, 45); bool pri = par || r.p(0.05);
            if (r.p(0.1)) { n = addNode(d, fmt("F%d_%d_x", f, k), n, FIX, loc, V3(0, 0, 1), 0, 0); loc = T(0, 0, 3); }
            n = addNode(d, fmt("F%d_%d", f, k), n, pri ? PRI : REV, loc, pri ? V3(-1, 0, 0) : V3(0, -1, 0), pri ? -10 : r.u(-1.2, -0.1), pri ? r.u(15, 40) : r.u(0.4, 2.0)); if (!pri && r.p(0.05)) { d.n[n].limitless = true; d.n[n].lo = F(-M_PI); d.n[n].hi = F(M_PI); }
            double w = r.u(5, 12); Mesh m = r.p(0.75) ? boxMesh(V3(w, w, len - 6)) : starMesh(r, w / 2, 0.2, 4, 5); for (auto& v : m.v) if (m.f.size() != 12) v(2) *= (len - 6) / w; M4 mp = T(0, 0, len / 2 + 1); if (r.p(0.3)) mp = mp * R(r.dir(), 0.2);
            if (r.p(0.92)) model(n, m.moved(toF(mp)));
            int mode = r.p(0.6) ? 3 : r.i(0, 3); a.node.push_back(n); a.mode.push_back(mode); double dir = r.pick({1.0, 1.0, 1.0, 0.5, 1.7, -1.0}); if (r.p(0.03)) dir = 0; a.dir.push_back(F(pri ? dir * 20 : dir));
        }
        if (r.p(0.15)) { int t = addNode(d, fmt("Tip%d", f), n, FIX, T(0, 0, len), V3(0, 0, 1), 0, 0); (void)t; }
        h.act.push_back(a);
    }
    h.tcp = addNode(d, "TCP", palm, FIX, T(0, 0, r.u(15, 60)), V3(0, 0, 1), 0, 0); h.gcp = r.p(0.5) ? h.tcp : addNode(d, "GCP", palm, FIX, T(0, 0, 30), V3(0, 0, 1), 0, 0);
    if (r.p(0.15)) { int x = addNode(d, "Cam", palm, FIX, T(0, 0, -60), V3(0, 0, 1), 0, 0); model(x, boxMesh(V3(20, 20, 20))); if (r.p(0.5)) h.stat.push_back(x); }
    h.mesh.resize(d.n.size()); h.has.resize(d.n.size());
    h.cc = r.p(0.5) ? CollisionChecker::getGlobalCollisionChecker() : CollisionCheckerPtr(new CollisionChecker());
    h.p = buildApi(d); for (size_t i = 0; i < d.n.size(); i++) { RobotNodePtr n = h.p->getRobotNode(d.n[i].name); if (d.n[i].limitless) n->setLimitless(true); if (h.has[i]) n->setCollisionModel(meshCol(h.mesh[i], h.p->getCollisionChecker())); }
    std::vector<EndEffectorActorPtr> av; for (auto& a : h.act) { std::vector<Act::ActorDefinition> def; for (size_t k = 0; k < a.node.size(); k++) { Act::ActorDefinition x; x.colMode = (Act::CollisionMode)a.mode[k]; x.robotNode = h.p->getRobotNode(d.n[a.node[k]].name); x.directionAndSpeed = (float)a.dir[k]; def.push_back(x); } av.push_back(EndEffectorActorPtr(new Act(a.name, def))); }
    std::vector<RobotNodePtr> sv; for (int s : h.stat) sv.push_back(h.p->getRobotNode(d.n[s].name));
    auto N = [&](int i) { return h.p->getRobotNode(d.n[i].name); };
    h.e.reset(new EndEffector("Hand", av, sv, N(h.base), N(h.tcp), h.gcp == h.tcp && r.p(0.5) ? RobotNodePtr() : N(h.gcp))); h.p->registerEndEffector(h.e);
    if (r.p(0.7)) { h.root = toF(r.pose(r.pick({100.0, 1000.0}))); h.p->setGlobalPose(f4(h.root)); }
    return h;
}
inline double tolOf(double ext) { return 2e-3 + 2e-5 * ext; }
// 1: surely colliding, 0: surely apart, -1: too close to tell
inline int hit(const Mesh& a, const Mesh& b, double ext) { PairRef x = pairRef(a, b); double t = tolOf(ext); if (x.depth > 2 * t) return 1; if (x.depth < 0 && x.dist > t) return 0; return -1; }
