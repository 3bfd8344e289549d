// C08: one robot shared by writers and readers, under ThreadSanitizer and a snapshot oracle.
#include "rob.h"
#include <VirtualRobot/RobotConfig.h>
#include <atomic>
#include <thread>
#include <chrono>
using namespace VirtualRobot; using namespace vh;
namespace {
struct World
{
    RobotDef d; RobotPtr rob; std::vector<RobotNodePtr> nd; std::vector<int> group, single;      // joints written only as a whole / one by one
    std::vector<std::vector<float>> conf; std::vector<std::vector<float>> sval; std::vector<M4> root; std::vector<Eigen::Matrix4f> rootf; RobotNodeSetPtr set, setNoRoot;
    bool same(const M4& a, const M4& b, double pt) { return mdiff(a.block<3, 3>(0, 0), b.block<3, 3>(0, 0)) < 3e-4 && mdiff(a.block<3, 1>(0, 3), b.block<3, 1>(0, 3)) < pt; }
    // judges one consistent view of the robot; vals: joint value per node (only joints), poses per node
    void judge(const std::vector<float>& vals, const std::vector<Eigen::Matrix4f>& poses, const Eigen::Matrix4f& rp, const std::string& k, bool rootFree)
    {
        int hit = -1; for (size_t c = 0; c < conf.size() && hit < 0; c++) { bool ok = true; for (size_t i = 0; i < group.size(); i++) ok &= std::fabs(vals[group[i]] - conf[c][i]) < 1e-5; if (ok) hit = c; }
        std::string got; for (int j : group) got += fmt("%g ", vals[j]); if (!group.empty()) check(hit >= 0, k + "/mixed-configuration", "joint values %sbelong to no single command", got.c_str());
        for (int j : single) { bool ok = false; for (float v : sval[j]) ok |= std::fabs(vals[j] - v) < 1e-5; check(ok, k + "/foreign-value", "joint %d holds %g, never commanded", j, vals[j]); }
        int rh = -1; if (!rootFree) { for (size_t c = 0; c < rootf.size() && rh < 0; c++) if (rp == rootf[c]) rh = c; check(rh >= 0, k + "/mixed-robot-pose", "the robot pose belongs to no single command"); }
        std::vector<double> q; for (size_t i = 0; i < nd.size(); i++) q.push_back(d.n[i].type == FIX ? 0 : vals[i]); M4 rd = rp.cast<double>(); auto g = d.fk(rd, q);
        for (size_t i = 0; i < nd.size(); i++) if (!checkPose(poses[i], g[i], 5e-4, 0.2 + 2e-5 * g[i].block<3, 1>(0, 3).norm(), k + "/torn-pose", fmt("node %zu, configuration %d, robot pose %d", i, hit, rh))) break;
        sig(hmix(hmix(77, hit), rh)); uint64_t h = hmix(hit + 3, rh + 5); for (int j : single) for (size_t v = 0; v < sval[j].size(); v++) if (std::fabs(vals[j] - sval[j][v]) < 1e-5) h = hmix(h, v); sig(hmix(h, S().caseIdx));
    }
};
}
static void c08(Rng& r)
{
    GenOpt o; o.prop = false; o.phys = false; o.models = r.p(0.15); o.minNodes = 3; o.maxNodes = 10; o.chain = r.p(0.5);
    auto wp = std::make_shared<World>(); World& w = *wp; w.d = genRobot(r, o); w.rob = build(w.d, r.p(0.5)); for (auto& n : w.d.n) w.nd.push_back(w.rob->getRobotNode(n.name));
    if (r.p(0.3)) w.rob->setThreadsafe(true);
    std::vector<int> js = w.d.joints(); r.shuffle(js); int ng = std::max(1, (int)js.size() - r.i(0, 2)); for (size_t i = 0; i < js.size(); i++) ((int)i < ng ? w.group : w.single).push_back(js[i]);
    int K = r.i(2, 6); w.sval.resize(w.nd.size());
    auto val = [&](int j) { auto& n = w.d.n[j]; return r.f(n.lo + 0.001 * (n.hi - n.lo), n.hi - 0.001 * (n.hi - n.lo)); };
    for (int k = 0; k < K; k++) { std::vector<float> c; for (int j : w.group) c.push_back(val(j)); w.conf.push_back(c); for (int j : w.single) w.sval[j].push_back(val(j)); M4 p = toF(r.pose(2000)); w.root.push_back(p); w.rootf.push_back(f4(p)); }
    std::vector<RobotNodePtr> gn; for (int j : w.group) gn.push_back(w.nd[j]);
    w.set = RobotNodeSet::createRobotNodeSet(w.rob, "grp", gn, w.rob->getRootNode(), w.nd.back(), true); w.setNoRoot = RobotNodeSet::createRobotNodeSet(w.rob, "grp2", gn, RobotNodePtr(), RobotNodePtr(), true);
    w.rob->setGlobalPose(w.rootf[0]); w.rob->setJointValues(gn, w.conf[0]); for (int j : w.single) w.nd[j]->setJointValue(w.sval[j][0]);
    int nw = r.i(1, 3), nr = r.i(1, 3); int ops = S().thorough ? 60 : 40; bool rootWriters = r.p(0.7), nodePlacing = r.p(0.15); if (nodePlacing) rootWriters = true;
    auto stop = std::make_shared<std::atomic<int>>(0); auto go = std::make_shared<std::atomic<bool>>(false); std::vector<std::thread> th; auto reads = std::make_shared<std::atomic<long>>(0), writes = std::make_shared<std::atomic<long>>(0); auto running = std::make_shared<std::atomic<int>>(nw + nr);
    static std::mutex jm;
    for (int t = 0; t < nw; t++)
    {
        uint64_t sd = r.next();
        th.emplace_back([wp, &w, sd, ops, rootWriters, nodePlacing, go, writes, running, stop]() {
            Rng q(sd); while (!go->load()) std::this_thread::yield();
            for (int k = 0; k < ops; k++)
            {
                int c = q.i(0, (int)w.conf.size() - 1); auto& v = w.conf[c]; int kind = q.i(0, 12);
                if (kind == 0) { std::map<std::string, float> m; for (size_t i = 0; i < w.group.size(); i++) m[w.d.n[w.group[i]].name] = v[i]; w.rob->setJointValues(m); }
                else if (kind == 1) { std::map<RobotNodePtr, float> m; for (size_t i = 0; i < w.group.size(); i++) m[w.nd[w.group[i]]] = v[i]; w.rob->setJointValues(m); }
                else if (kind == 2) { std::vector<RobotNodePtr> n; for (int j : w.group) n.push_back(w.nd[j]); w.rob->setJointValues(n, v); }
                else if (kind == 3) w.set->setJointValues(v);
                else if (kind == 4) { Eigen::VectorXf e = Eigen::Map<const Eigen::VectorXf>(v.data(), v.size()); if (q.p(0.5)) w.setNoRoot->setJointValues(e); else w.rob->setJointValues(w.set, e); }
                else if (kind == 5 || kind == 6) { RobotConfigPtr cf(new RobotConfig(w.rob, "c")); for (size_t i = 0; i < w.group.size(); i++) cf->setConfig(w.nd[w.group[i]], v[i]); if (kind == 5) w.rob->setJointValues(cf); else if (q.p(0.5)) w.set->setJointValues(cf); else cf->setJointValues(); }
                else if (kind <= 9 && rootWriters) { if (nodePlacing && q.p(0.5)) w.rob->setGlobalPoseForRobotNode(w.nd[q.i(0, (int)w.nd.size() - 1)], w.rootf[c]); else w.rob->setGlobalPose(w.rootf[c], true); }
                else if (kind <= 11 && !w.single.empty()) { int j = q.pick(w.single); if (q.p(0.5)) w.nd[j]->setJointValue(w.sval[j][c]); else w.rob->setJointValue(w.d.n[j].name, w.sval[j][c]); }
                else w.rob->applyJointValues();
                writes->fetch_add(1); if (q.p(0.2)) std::this_thread::yield(); if (q.p(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(q.i(1, 200)));
            }
            running->fetch_sub(1); stop->fetch_add(1);
        });
    }
    for (int t = 0; t < nr; t++)
    {
        uint64_t sd = r.next();
        th.emplace_back([wp, &w, sd, nw, nodePlacing, go, reads, running, stop]() {
            Rng q(sd); while (!go->load()) std::this_thread::yield(); int after = 0, n = 0;
            while ((stop->load() < nw || after++ < 2) && n++ < 400)
            {
                int kind = q.i(0, 9);
                if (kind < 4)
                {   // a consistent view, taken while holding the robot's lock
                    std::vector<float> vals(w.nd.size(), 0); std::vector<Eigen::Matrix4f> ps(w.nd.size()); Eigen::Matrix4f rp; std::map<std::string, float> cm; std::vector<float> sv; std::vector<Eigen::Matrix4f> rf(w.nd.size());
                    { ReadLockPtr l = w.rob->getReadLock(); int way = q.i(0, 2); for (size_t i = 0; i < w.nd.size(); i++) { if (w.d.n[i].type != FIX) vals[i] = w.nd[i]->getJointValue(); ps[i] = w.nd[i]->getGlobalPose(); if (way == 2 && q.p(0.3)) std::this_thread::yield(); } rp = w.rob->getGlobalPose(); if (way == 1) { cm = w.rob->getConfig()->getRobotNodeJointValueMap(); sv = w.set->getJointValues(); } }
                    std::lock_guard<std::mutex> g(jm); w.judge(vals, ps, rp, "snapshot", nodePlacing); for (auto& e : cm) for (size_t i = 0; i < w.nd.size(); i++) if (w.d.n[i].name == e.first && w.d.n[i].type != FIX) check(e.second == vals[i], "snapshot/config", "configuration differs from joint values"); for (size_t i = 0; i < sv.size(); i++) check(sv[i] == vals[w.group[i]], "snapshot/set-values", "set values differ from joint values");
                    reads->fetch_add(1);
                }
                else
                {
                    int i = q.i(0, (int)w.nd.size() - 1); Eigen::Matrix4f m = Eigen::Matrix4f::Identity(); float v = 0;
                    if (kind == 4) m = w.nd[i]->getGlobalPose(); else if (kind == 5) m = w.rob->getGlobalPose(); else if (kind == 6) v = w.nd[i]->getJointValue(); else if (kind == 7) m = w.nd[i]->getPoseInRootFrame(); else if (kind == 8) { auto x = w.set->getJointValues(); v = x.empty() ? 0 : x[0]; } else { RobotConfigPtr c = w.rob->getConfig(); (void)c; v = w.nd[i]->getPositionInRootFrame()(0); }
                    std::lock_guard<std::mutex> g(jm); check(std::isfinite(v), "single-read/value", "not finite"); M3 R = m.block<3, 3>(0, 0).cast<double>(); check(mdiff(R * R.transpose(), M3::Identity()) < 1e-3, "single-read/torn-rotation", "rotation part of a pose is no rotation");
                    reads->fetch_add(1);
                }
                if (q.p(0.2)) std::this_thread::yield();
            }
            running->fetch_sub(1);
        });
    }
    go->store(true); auto t0 = std::chrono::steady_clock::now(); long lastp = -1; auto lastT = t0;
    while (running->load() > 0) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); long p = reads->load() + writes->load(); auto now = std::chrono::steady_clock::now(); if (p != lastp) { lastp = p; lastT = now; } if (now - lastT > std::chrono::seconds(60)) { viol("deadlock", fmt("%d threads made no progress for 60 s", running->load())); fflush(S().log); _exit(0); } }
    for (auto& t : th) t.join();
    {   // after all writers finished
        std::vector<float> vals(w.nd.size(), 0); std::vector<Eigen::Matrix4f> ps(w.nd.size()); for (size_t i = 0; i < w.nd.size(); i++) { if (w.d.n[i].type != FIX) vals[i] = w.nd[i]->getJointValue(); ps[i] = w.nd[i]->getGlobalPose(); } w.judge(vals, ps, w.rob->getGlobalPose(), "final", nodePlacing);
    }
    count("reads", reads->load()); count("writes", writes->load()); count(nodePlacing ? "placing-by-node" : rootWriters ? "pose-writers" : "joint-writers"); sample(fmt("%zu nodes, %d writers, %d readers", w.nd.size(), nw, nr));
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C08", c08, 2500, 40000}}); }
