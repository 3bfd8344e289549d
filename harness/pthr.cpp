// C22: planning and post-processing threads under ThreadSanitizer, with monitors on the planning world's constraint hook.
#include "plan.h"
#include <MotionPlanning/Planner/PlanningThread.h>
#include <MotionPlanning/PostProcessing/PathProcessingThread.h>
#include <atomic>
#include <thread>
#include <chrono>
using namespace VirtualRobot; using namespace Saba; using namespace vh;
namespace {
using Clock = std::chrono::steady_clock;
struct Mon { std::atomic<long> work{0}; std::atomic<bool> quiet{false}; std::atomic<long> late{0}; std::atomic<int> delay{0}; std::atomic<int> inside{0}, maxInside{0}; std::atomic<bool> excl{false}; };
std::shared_ptr<std::atomic<bool>> armed; // watch dog of the running blocking call
// runs a blocking call of the library; reports it when it does not come back
template <class Fn> void bounded(const char* what, Fn fn, int sec = 60)
{
    auto done = std::make_shared<std::atomic<bool>>(false); std::string w = what;
    std::thread dog([done, w, sec]() { auto t0 = Clock::now(); while (!done->load()) { std::this_thread::sleep_for(std::chrono::milliseconds(2)); if (Clock::now() - t0 > std::chrono::seconds(sec)) { viol(w + "/hang", fmt("the call did not return within %d s", sec)); fflush(S().log); _exit(0); } } });
    fn(); done->store(true); dog.join();
}
void nap(Rng& r, int us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(r.i(0, us))); else std::this_thread::yield(); }
struct Job { std::shared_ptr<PWorld> w; std::shared_ptr<Mon> mon; VX s, g; boost::shared_ptr<Rrt> pl; boost::shared_ptr<PlanningThread> th; bool hard = false, stopped = false, started = false; int kind = 0; std::string key; };
void hookUp(PWorld& p, std::shared_ptr<Mon> m, bool shared)
{
    // the constraint is evaluated by whoever checks configurations: it sees all planning activity
    p.con->hook = [m, shared]() { m->work++; if (m->quiet.load()) m->late++; if (!shared) { int n = ++m->inside, o = m->maxInside.load(); while (n > o && !m->maxInside.compare_exchange_weak(o, n)) {} } int d = m->delay.load(); if (d > 0 && (m->work.load() % 7) == 0) std::this_thread::sleep_for(std::chrono::microseconds(d)); if (!shared) --m->inside; };
}
bool endpoints(Rng& r, PWorld& p, bool slab, VX& s, VX& g)
{
    if (!p.validQ(r, s) || !p.validQ(r, g)) return false; if (!slab) return true; int c = p.con->slabDim; if (c < 0) return false;
    for (int k = 0; k < 200 && (s(c) >= p.con->slabLo || p.valid(s) != 1); k++) p.validQ(r, s); for (int k = 0; k < 200 && (g(c) <= p.con->slabHi || p.valid(g) != 1); k++) p.validQ(r, g);
    return s(c) < p.con->slabLo && g(c) > p.con->slabHi;
}
// after the thread has been waited for: no activity, state consistent, result valid
void settled(Job& j, Rng& r, bool waited)
{
    check(!j.th->isRunning(), j.key + "/still-running", "isRunning() after the thread has been %s", waited ? "stopped" : "seen finished");
    if (waited) { j.mon->quiet.store(true); long a = j.mon->work.load(); nap(r, 300); long b = j.mon->work.load(); check(a == b && j.mon->late.load() == 0, j.key + "/works-after-stop", "the planner checked %ld configurations after stop() returned", b - a + j.mon->late.load()); j.mon->late.store(0); j.mon->quiet.store(false); }
    // the result belongs to the caller now
    if (r.p(0.8))
    {
        CSpacePathPtr s = j.pl->getSolution(); if (j.hard) check(!s, j.key + "/solved-impossible", "a path through a forbidden slab"); if (s) { judgePath(*j.w, s, &j.s, &j.g, j.key, std::max(j.w->smp * 1.06, j.w->smp + j.w->dcd * 1.02)); count("solved"); } else if (!j.stopped && !j.hard) count("unsolved");
        sig(hmix(j.pl->getNrOfCycles(), S().caseIdx)); j.w->rob->getUpdateVisualizationStatus();
        VXf q = vf(j.w->sampleQ(r)); j.w->rob->setJointValues(j.w->set, q);
    }
}
}
static void planners(Rng& r)
{
    int n = r.i(1, 3); std::vector<Job> js(n);
    for (auto& j : js)
    {
        j.hard = r.p(0.5); WorldOpt o; o.slab = j.hard; o.balls = j.hard ? 0 : r.i(0, 1); o.fine = false; o.maxConfigs = r.p(0.2) ? r.i(10, 200) : 20000; bool ok = false;
        for (int k = 0; k < 20 && !ok; k++) { j.w = genWorld(r, o); ok = endpoints(r, *j.w, j.hard, j.s, j.g); if (ok && !j.hard && j.w->con->ball.empty()) j.w->cs->addConstraintCheck(j.w->con); } if (!ok) return;
        j.mon = std::make_shared<Mon>(); j.kind = r.i(0, 1); j.key = j.kind ? "thread-birrt" : "thread-rrt"; if (j.kind) j.pl.reset(new BiRrt(j.w->cs, Rrt::eConnect, r.p(0.5) ? Rrt::eConnect : Rrt::eExtend)); else j.pl.reset(new Rrt(j.w->cs, r.p(0.5) ? Rrt::eConnect : Rrt::eExtend, 0.2f));
        if (j.hard) j.w->cs->reset(); j.pl->setMaxCycles(j.hard ? 100000000 : 400); j.pl->setStart(vf(j.s)); j.pl->setGoal(vf(j.g)); hookUp(*j.w, j.mon, false); if (r.p(0.4)) j.mon->delay.store(r.i(1, 200)); j.th.reset(new PlanningThread(j.pl)); if (r.p(0.3)) j.w->cs->exclusiveRobotAccess(true);
    }
    at("planners %d", n); int ops = r.i(3, 14);
    for (int k = 0; k < ops; k++)
    {
        Job& j = js[r.i(0, n - 1)]; int op = r.i(0, 9); at("planners %d op %d:%d on %s hard %d", n, k, op, j.key.c_str(), j.hard);
        if (op <= 3)
        {
            bool run = j.th->isRunning(); if (!run && j.started && r.p(0.6)) { j.pl->reset(); VX a, b; if (endpoints(r, *j.w, j.hard, a, b)) { j.s = a; j.g = b; } check(j.pl->setStart(vf(j.s)) && j.pl->setGoal(vf(j.g)), j.key + "/refused-valid", "valid start or goal refused"); count("new-query"); }
            else if (!run && j.started && j.hard) { j.pl->reset(); j.pl->setStart(vf(j.s)); j.pl->setGoal(vf(j.g)); }
            bounded("start", [&]() { j.th->start(); }); j.started = true; j.stopped = false; if (!run) count("started"); else count("started-twice");
        }
        else if (op == 4) { bool a = j.th->isRunning(); if (a) count("seen-running"); if (j.hard && j.started && !j.stopped) { /* an impossible query runs until the nodes are exhausted or it is stopped */ } if (!a && j.started) settled(j, r, false); }
        else if (op == 5) { j.th->interrupt(false); if (j.started) j.stopped = true; count("interrupted"); }
        else if (op <= 7) { if (r.p(0.5)) nap(r, 2000); j.stopped |= j.started; bounded("stop", [&]() { if (r.p(0.5)) j.th->stop(); else j.th->interrupt(true); }); count("stopped"); settled(j, r, true); if (r.p(0.2)) j.th->stop(); }
        else if (op == 8) { if (r.p(0.5)) nap(r, 1000); bounded("destroy", [&]() { j.th.reset(); }); count("destroyed"); j.mon->quiet.store(true); long a = j.mon->work.load(); nap(r, 200); check(j.mon->work.load() == a, j.key + "/works-after-destruction", "the planner works on after its thread object is gone"); j.mon->quiet.store(false); j.mon->late.store(0); j.stopped = true; j.th.reset(new PlanningThread(j.pl)); j.started = false; j.pl->reset(); j.pl->setStart(vf(j.s)); j.pl->setGoal(vf(j.g)); }
        else nap(r, 3000);
        if (r.p(0.3)) nap(r, 500);
    }
    for (auto& j : js)
    {
        if (!j.hard && j.started && r.p(0.7)) { bounded("wait", [&]() { while (j.th->isRunning()) std::this_thread::sleep_for(std::chrono::microseconds(200)); }, 120); settled(j, r, false); count("finished"); if (r.p(0.5)) { bounded("stop", [&]() { j.th->stop(); }); settled(j, r, true); } }
        else if (r.p(0.5)) { bounded("stop", [&]() { j.th->stop(); }); settled(j, r, true); }
        check(j.mon->maxInside.load() <= 1, j.key + "/two-workers", "%d threads worked on one planner at a time", j.mon->maxInside.load()); count("checks", j.mon->work.load());
        bounded("destroy", [&]() { j.th.reset(); }); j.pl.reset();
    }
}
// several planners and queries on one robot with exclusive access
static void sharedRobot(Rng& r)
{
    WorldOpt o; o.balls = r.i(0, 1); o.fine = false; o.maxConfigs = 5000; auto w = genWorld(r, o); PWorld& p = *w; VX s, g; if (!endpoints(r, p, false, s, g)) return;
    auto mon = std::make_shared<Mon>(); p.con->hook = nullptr; int n = r.i(2, 3); std::vector<Job> js(n); p.rob->setUpdateVisualization(false);
    for (auto& j : js)
    {   // every planner has its own configuration space, all use the same robot
        j.w = w; j.mon = mon; if (!endpoints(r, p, false, j.s, j.g)) { j.s = s; j.g = g; } CSpaceSampledPtr c(new CSpaceSampled(p.rob, p.cdm, p.set, 5000)); VXf a(p.dim()), b(p.dim()); for (int i = 0; i < p.dim(); i++) { a(i) = p.lo[i]; b(i) = p.hi[i]; } c->setBoundaries(a, b); bool bl = false; for (bool x : p.wrap) bl |= x; if (!bl) c->checkForBorderlessDimensions(false); if (p.useW) { VXf wv(p.dim()); for (int i = 0; i < p.dim(); i++) wv(i) = p.w[i]; c->setMetricWeights(wv); } c->setSamplingSize(p.smp); c->setSamplingSizeDCD(p.dcd); c->exclusiveRobotAccess(true);
        if (!p.con->ball.empty()) { auto k = boost::make_shared<Con>(p.dim()); k->ball = p.con->ball; k->wrap = p.con->wrap; c->addConstraintCheck(k); }
        if (r.p(0.6)) j.pl.reset(new BiRrt(c)); else j.pl.reset(new Rrt(c, Rrt::eConnect, 0.2f)); j.pl->setMaxCycles(60); j.key = "shared"; check(j.pl->setStart(vf(j.s)) && j.pl->setGoal(vf(j.g)), "shared/refused-valid", "valid start or goal refused"); j.th.reset(new PlanningThread(j.pl));
    }
    std::vector<std::pair<VX, double>> dref; if (!p.wall.empty()) for (int k = 0; k < 12; k++) { VX q = p.sampleQ(r); if (p.gap(q) > 0.05) dref.push_back({q, p.cs->calculateObstacleDistance(vf(q))}); }
    at("shared robot, %d planners", n); for (auto& j : js) j.th->start();
    // meanwhile other configurations are judged on the same robot
    p.cs->exclusiveRobotAccess(true); int k = 0; bounded("shared-wait", [&]() { for (;; k++) { bool any = false; for (auto& j : js) any |= j.th->isRunning(); if (!any || (k > 30 && r.p(0.1))) break; VX q = p.sampleQ(r); double gp = p.gap(q); if (std::fabs(gp) > 0.05) check(p.cs->isCollisionFree(vf(q)) == (gp > 0), "shared/collision", "gap %g judged wrongly while planners are running", gp); if (!dref.empty() && r.p(0.6)) { auto& x = r.pick(dref); checkNear(p.cs->calculateObstacleDistance(vf(x.first)), x.second, 1e-3 + 1e-5 * x.second, "shared/distance", "distance to the obstacles while planners are running"); count("shared-distance"); } if (r.p(0.1)) { CSpacePathPtr path = p.cs->createPath(vf(s), vf(g)); auto ws = path->createWorkspacePath(p.rob->getRobotNode(p.d.n.back().name)); for (unsigned i = 0; i < path->getNrOfPoints() && i < ws.size(); i++) { std::vector<double> v(p.d.n.size(), 0); VX x = vd(path->getPoint(i)); for (int z = 0; z < p.dim(); z++) v[p.js[z]] = x(z); if (!checkPose(ws[i], p.d.fk(p.root, v).back(), 5e-4, 0.3, "shared/workspace", "workspace path while planners are running")) break; } count("shared-workspace"); } nap(r, 300); } }, 120);
    count("shared-queries", k); for (auto& j : js) { bounded("stop", [&]() { j.th->stop(); }); CSpacePathPtr q = j.pl->getSolution(); if (q) { judgePath(p, q, &j.s, &j.g, "shared", std::max(p.smp * 1.06, p.smp + p.dcd * 1.02)); count("shared-solved"); } j.th.reset(); } for (auto& j : js) j.pl.reset();
}
static void processors(Rng& r)
{
    WorldOpt o; o.balls = r.i(0, 1); o.fine = false; auto w = genWorld(r, o); PWorld& p = *w; VX s, g; if (!endpoints(r, p, false, s, g)) return; if (p.con->ball.empty()) p.cs->addConstraintCheck(p.con);
    // an original path made of straight valid pieces
    std::vector<VX> q; q.push_back(s); for (int k = 0; k < 40 && q.size() < 6; k++) { VX x = p.mix(q.back(), p.sampleQ(r), r.u(0.1, 1)); for (int i = 0; i < p.dim(); i++) x(i) = F(x(i)); if (p.inBounds(x, 0) && !p.ambiguous(q.back(), x) && p.cs->isPathValid(vf(q.back()), vf(x))) q.push_back(x); }
    if (q.size() < 2) { count("no-path"); return; } CSpacePathPtr path = p.cs->createPath(vf(q[0]), vf(q[1])); for (size_t i = 2; i < q.size(); i++) { CSpacePathPtr t = p.cs->createPath(vf(q[i - 1]), vf(q[i])); for (unsigned k = 1; k < t->getNrOfPoints(); k++) path->addPoint(t->getPoint(k)); }
    double L0 = path->getLength(); VX a = q[0], b = q.back(); std::vector<VXf> orig = path->getData(); auto mon = std::make_shared<Mon>(); hookUp(p, mon, false); if (r.p(0.5)) mon->delay.store(r.i(1, 100));
    PathProcessorPtr pp(new ShortcutProcessor(path, p.cs, false)); boost::shared_ptr<PathProcessingThread> th(new PathProcessingThread(pp)); bool started = false, quit = false; int steps = 0; at("processor, %u points", path->getNrOfPoints()); std::string base = S().desc;
    auto result = [&](bool waited) {
        check(!th->isRunning(), "process/still-running", "isRunning() after the end"); if (waited) { long x = mon->work.load(); nap(r, 200); check(mon->work.load() == x, "process/works-after-stop", "the processor works after stop() returned"); }
        CSpacePathPtr res = th->getProcessedPath(); if (!started) { check(!res, "process/result", "a result without a run"); return; }
        if (!check((bool)res, "process/result", "no result after the end of processing (stopped %d)", quit)) return; judgePath(p, res, &a, &b, "process", -1); check(res->getLength() <= L0 * 1.0001 + 1e-4, "process/longer", "length %g, before %g", res->getLength(), L0); check(path->getData() == orig, "process/original", "the original path was changed"); count("processed"); sig(hmix(hm(5, vd(res->getPoint(res->getNrOfPoints() / 2))), res->getNrOfPoints()));
    };
    int ops = r.i(2, 10);
    for (int k = 0; k < ops; k++)
    {
        int op = r.i(0, 7); S().desc = base + fmt(" op %d:%d", k, op);
        if (op <= 2) { int ns = r.p(0.4) ? 100000000 : r.i(1, 60); bool was = th->isRunning(); bounded("process-start", [&]() { th->start(ns); }); if (was) steps = 100000000; else { steps = ns; started = true; quit = false; count("process-started"); } }
        else if (op == 3) { CSpacePathPtr x = th->getProcessedPath(); bool run = th->isRunning(); if (run) check(!x, "process/early-result", "a result while processing"); if (!started) check(!x, "process/early-result", "a result before the first run"); if (run) count("process-running"); }
        else if (op == 4) { th->interrupt(false); quit = true; }
        else if (op <= 6) { if (r.p(0.5)) nap(r, 2000); quit = true; bounded("process-stop", [&]() { th->stop(); }); result(true); count("process-stopped"); }
        else { bounded("process-destroy", [&]() { th.reset(); }); long x = mon->work.load(); nap(r, 200); check(mon->work.load() == x, "process/works-after-destruction", "works on"); th.reset(new PathProcessingThread(pp)); started = false; count("process-destroyed"); }
    }
    if (started && steps < 1000 && !quit) { bounded("process-wait", [&]() { while (th->isRunning()) std::this_thread::sleep_for(std::chrono::microseconds(200)); }, 120); result(false); count("process-finished"); }
    check(mon->maxInside.load() <= 1, "process/two-workers", "%d threads at a time", mon->maxInside.load()); bounded("process-destroy", [&]() { th.reset(); });
}
static void c22(Rng& r) { int m = r.i(0, 9); if (m < 5) planners(r); else if (m < 7) sharedRobot(r); else processors(r); }
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C22", c22, 600, 8000}}); }
