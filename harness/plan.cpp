// C20 planners, C21 paths and their post-processing, C23 configuration space, metric and tree.
#include "plan.h"
#include <ctime>
#include <fstream>
using namespace VirtualRobot; using namespace Saba; using namespace vh;
static double cpuMs(clock_t a) { return 1000.0 * (clock() - a) / CLOCKS_PER_SEC; }
static void c20(Rng& r)
{
    WorldOpt o; int mode = r.i(0, 9); bool slab = mode == 0; bool open = mode == 1; if (open) { o.walls = 0; o.balls = 0; } o.slab = slab; if (slab) o.balls = 0; o.fine = r.p(0.5);
    int maxConfigs = r.p(0.1) ? r.i(20, 120) : 30000; o.maxConfigs = maxConfigs; auto wp = genWorld(r, o); PWorld& p = *wp; if (slab && p.con->slabDim < 0) slab = false;
    VX s, g; if (!p.validQ(r, s) || !p.validQ(r, g)) { count("no-free-configuration"); return; }
    if (slab) { for (int k = 0; k < 200 && (s(p.con->slabDim) >= p.con->slabLo || p.valid(s) != 1); k++) p.validQ(r, s); for (int k = 0; k < 200 && (g(p.con->slabDim) <= p.con->slabHi || p.valid(g) != 1); k++) p.validQ(r, g); if (!(s(p.con->slabDim) < p.con->slabLo && g(p.con->slabDim) > p.con->slabHi)) return; }
    Rrt::RrtMethod m[] = {Rrt::eExtend, Rrt::eConnect, Rrt::eConnectCompletePath}; Rrt::RrtMethod ma = m[r.i(0, 2)], mb = m[r.i(0, 2)]; bool bi = r.p(0.6); float step = r.p(0.3) ? (float)(p.smp * r.u(0.5, 3)) : -1.f; float pg = (float)r.u(0.05, 0.5);
    boost::shared_ptr<Rrt> pl; auto mk = [&]() { if (bi) pl.reset(new BiRrt(p.cs, ma, mb, step)); else pl.reset(new Rrt(p.cs, ma, pg, step)); };
    at("planner %s modes %d %d dim %d walls %zu balls %zu slab %d limitless-narrowed %d", bi ? "BiRrt" : "Rrt", ma, mb, p.dim(), p.wall.size(), p.con->ball.size(), slab, p.limitlessNarrowed); std::string base = S().desc;
    mk(); std::string K = bi ? "birrt" : "rrt"; int maxC = slab ? r.i(50, 200) : open ? 4000 : r.i(100, 600); pl->setMaxCycles(maxC); if (r.p(0.2)) pl->setProbabilityExtendToGoal((float)r.u(0.05, 0.9));
    double spacing = std::max(p.smp * 1.06, p.smp + p.dcd * 1.02);
    bool vis = r.p(0.5); p.rob->setUpdateVisualization(vis);
    auto invalidQ = [&](VX& q) { for (int k = 0; k < 300; k++) { q = p.sampleQ(r); if (p.valid(q) == -1) return true; } return false; };
    // start and goal are refused when they can not be part of a valid path
    if (r.p(0.4))
    {
        VX bad; bool have = false; if (r.p(0.5)) { bad = s; int i = r.i(0, p.dim() - 1); double e = r.u(0.02, 1) * (p.hi[i] - p.lo[i]); bad(i) = r.p(0.5) ? p.hi[i] + e : p.lo[i] - e; have = !p.wrap[i] && p.valid(bad) != 0; } else have = invalidQ(bad);
        if (have) { bool st = r.p(0.5); bool a = st ? pl->setStart(vf(bad)) : pl->setGoal(vf(bad)); check(!a, K + "/accepted-invalid", "an invalid %s configuration was accepted (in bounds %d, valid %d, constraint margin %g)", st ? "start" : "goal", p.inBounds(bad), p.valid(bad), p.con->margin(bad)); if (!a) { bool b = st ? pl->setGoal(vf(g)) : pl->setStart(vf(s)); check(b, K + "/refused-valid", "a valid configuration was refused"); check(!pl->isInitialized() && !pl->plan(true) && !pl->getSolution(), K + "/planned-uninitialized", "planning without a valid start and goal"); } count("refused"); if (r.p(0.3)) { pl->reset(); } }
    }
    bool eq = !slab && r.p(0.05); if (eq) g = s;
    int rounds = r.i(1, 4); bool setS = true, setG = true;
    for (int k = 0; k < rounds; k++)
    {
        S().desc = base + fmt(" round %d (set start %d goal %d)", k, setS, setG);
        if (setS && setG && r.p(0.5)) { check(pl->setGoal(vf(g)), K + "/refused-valid", "valid goal refused"); check(pl->setStart(vf(s)), K + "/refused-valid", "valid start refused"); }
        else { if (setS) check(pl->setStart(vf(s)), K + "/refused-valid", "valid start refused"); if (setG) check(pl->setGoal(vf(g)), K + "/refused-valid", "valid goal refused"); }
        check(pl->isInitialized(), K + "/initialized", "not initialized although start and goal are set"); check(pl->getStartConfig() == vf(s) && pl->getGoalConfig() == vf(g), K + "/stored", "stored start or goal differs");
        int how = slab || r.p(0.75) ? 0 : r.i(1, 2); long stopCall = 0; unsigned cyclesAt = 0; double limit = -1; bool stopped = false;
        if (how == 1 && !p.con->ball.empty()) { stopCall = p.con->calls + r.i(1, 60); p.con->hook = [&]() { if (p.con->calls == stopCall) { pl->stopExecution(); cyclesAt = pl->getNrOfCycles(); stopped = true; } }; }
        if (slab && r.p(0.5)) { limit = r.u(1, 60); pl->setPlanningTimeout((float)limit); pl->setMaxCycles(100000000); }
        clock_t t0 = clock(); bool res = false, exhausted = false;
        try { res = pl->plan(true); } catch (VirtualRobotException& e) { exhausted = true; if (!check(maxConfigs < 1000 && std::string(e.what()).find("maxNodes") != std::string::npos, K + "/exception", "%s", e.what())) return; count("exhausted"); }
        double used = cpuMs(t0); p.con->hook = nullptr;
        if (exhausted) { pl->setPlanningTimeout(std::numeric_limits<float>::max()); pl->setMaxCycles(maxC); pl->reset(); p.rob->setUpdateVisualization(vis); setS = setG = true; if (k + 1 < rounds) continue; break; }
        check(p.rob->getUpdateVisualizationStatus() == vis, K + "/visualization-status", "planning (result %d) changed the update flag of the robot's visualization from %d", res, vis);
        CSpacePathPtr sol = pl->getSolution();
        check(res == (bool)sol, K + "/solution-iff-success", "plan() returned %d but a solution %s", res, sol ? "is offered" : "is missing");
        if (limit >= 0) { check(used < limit + 500, K + "/timeout", "timeout %g ms, used %g ms of processor time", limit, used); pl->setPlanningTimeout(std::numeric_limits<float>::max()); pl->setMaxCycles(maxC); count("timeout"); }
        else check(pl->getNrOfCycles() <= (unsigned)maxC, K + "/cycles", "%u cycles, limit %d", pl->getNrOfCycles(), maxC);
        if (stopped) { check(pl->getNrOfCycles() <= cyclesAt + 1, K + "/stop-ignored", "stopped in cycle %u, went on to %u", cyclesAt, pl->getNrOfCycles()); count("stopped"); }
        if (slab) { check(!res, K + "/solved-impossible", "a path through a forbidden slab"); count("impossible"); }
        if (open && !stopped) { check(res, K + "/failed-open", "no path found in an empty world within %u cycles", pl->getNrOfCycles()); count("open"); }
        if (eq && k == 0 && !stopped) { check(res, K + "/failed-trivial", "start and goal are equal and valid, no path found"); count("trivial"); }
        if (sol) { judgePath(p, sol, &s, &g, K, eq ? -1 : spacing); if (res) { count("solved"); if (bi) count("solved-birrt"); if (p.limitlessNarrowed) count("solved-limitless-narrowed"); bool ok = p.cs->checkSolution(sol); double run = 0, w = 0; for (unsigned i = 0; i + 1 < sol->getNrOfPoints(); i++) w = std::max(w, p.badRun(vd(sol->getPoint(i)), vd(sol->getPoint(i + 1)), run, p.dcd / 8)); (void)ok; } }
        if (!res) count("failed");
        // the tree
        { std::vector<CSpaceTreePtr> ts{pl->getTree()}; if (auto b = boost::dynamic_pointer_cast<BiRrt>(pl)) ts.push_back(b->getTree2()); for (auto& t : ts) { auto ns = t->getNodes(); std::set<unsigned> ids; for (auto& n : ns) ids.insert(n->ID); check(ids.size() == ns.size(), K + "/tree-id", "node ids are not unique"); int roots = 0; for (auto& n : ns) { if (n->parentID < 0) roots++; else if (!check(ids.count(n->parentID), K + "/tree-parent", "parent %d of node %u is not in the tree", n->parentID, n->ID)) break; if (!check(p.valid(vd(n->configuration)) != -1 || ma == Rrt::eConnectCompletePath || mb == Rrt::eConnectCompletePath || p.smp > 0, K + "/tree-node", "invalid node")) break; } check(roots == 1, K + "/tree-roots", "%d roots", roots); } }
        // next round
        int ch = r.i(0, 4); setS = setG = false; VX q; eq = false;
        if (slab) { setS = ch <= 1; setG = ch == 1 || ch == 2; }
        else { if (ch == 0 && p.validQ(r, q)) { g = q; setG = true; } else if (ch == 1 && p.validQ(r, q)) { s = q; setS = true; } else if (ch == 2) { if (p.validQ(r, q)) s = q; if (p.validQ(r, q)) g = q; setS = setG = true; } }
        if (r.p(0.2)) { pl->reset(); setS = setG = true; check(!pl->isInitialized(), K + "/reset", "initialized after reset"); }
        else if (r.p(0.1)) { pl.reset(); mk(); pl->setMaxCycles(maxC); setS = setG = true; }
        if (r.p(0.15)) { vis = !vis; p.rob->setUpdateVisualization(vis); }
    }
}
// a polyline through valid configurations whose segments the configuration space accepts
static CSpacePathPtr polyline(Rng& r, PWorld& p, int n, const std::string& name = "path")
{
    CSpacePathPtr s(new CSpacePath(p.cs, name)); VX q; if (!p.validQ(r, q)) return CSpacePathPtr(); s->addPoint(vf(q)); VX c = q;
    for (int k = 0, tries = 0; k < n - 1 && tries < 60; tries++) { if (!p.validQ(r, q)) break; if (r.p(0.5)) q = [&]() { VX x = p.mix(c, q, r.u(0.02, 0.4)); for (int i = 0; i < p.dim(); i++) x(i) = F(x(i)); return x; }(); if (p.ambiguous(c, q) || !p.inBounds(q, 0) || !p.cs->isPathValid(vf(c), vf(q))) continue; if (r.p(0.5)) { CSpacePathPtr f = p.cs->createPath(vf(c), vf(q)); for (unsigned i = 1; i < f->getNrOfPoints(); i++) s->addPoint(f->getPoint(i)); } else s->addPoint(vf(q)); c = q; k++; }
    return s;
}
static double plen(const PWorld& p, const std::vector<VX>& q, size_t a, size_t b, bool w) { double L = 0; for (size_t i = a; i < b; i++) L += p.dist(q[i], q[i + 1], w); return L; }
static std::vector<VX> pts(CSpacePathPtr s) { std::vector<VX> q; for (unsigned i = 0; i < s->getNrOfPoints(); i++) q.push_back(vd(s->getPoint(i))); return q; }
static void c21(Rng& r)
{
    WorldOpt o; if (r.p(0.3)) o.walls = 0; auto wp = genWorld(r, o); PWorld& p = *wp; int n = r.pick({1, 2, 2, 3, 3, 4, 5, 7, 10}); CSpacePathPtr s = polyline(r, p, n); if (!s) { count("no-free-configuration"); return; }
    std::vector<VX> q = pts(s); size_t N = q.size(); at("path of %zu points, dim %d weights %d", N, p.dim(), p.useW); std::string base = S().desc;
    // lengths, times, positions
    double L = plen(p, q, 0, N - 1, true), Lu = plen(p, q, 0, N - 1, false); double tol = 1e-4 * (1 + L), tolu = 1e-4 * (1 + Lu);
    checkNear(s->getLength(), L, tol, "length/complete", "length with the weights of the space"); checkNear(s->getLength(true), L, tol, "length/weighted"); checkNear(s->getLength(false), Lu, tolu, "length/unweighted");
    for (int k = 0; k < 3; k++) { int a = r.i(0, N - 1), b = r.i(a, N - 1); checkNear(s->getLength(a, b), plen(p, q, a, b, true), tol, "length/part"); checkNear(s->getLength(a, b, false), plen(p, q, a, b, false), tolu, "length/part-unweighted"); }
    check(s->getCSpace() == p.cs && (int)s->getDimension() == p.dim(), "path/space", "space or dimension");
    if (L > 1e-4)
    {
        double prev = -1; for (size_t i = 0; i < N; i++) { double t = s->getTime(i), want = plen(p, q, 0, i, true) / L; checkNear(t, want, 1e-4, "time/point", fmt("time of point %zu of %zu", i, N)); check(t >= prev - 1e-6, "time/order", "times decrease"); prev = t; VXf x; int id = -5; s->interpolate(std::min(1.0f, s->getTime(i)), x, &id); double e = p.dist(vd(x), q[i]); check(e < 2e-3 * (1 + L), "time/interpolate", "position at the time of point %zu is %g away from it", i, e); }
        std::vector<double> ts{0, 1}; for (int k = 0; k < 12; k++) ts.push_back(F(r.u(0, 1))); ts.push_back(F(1e-6)); ts.push_back(F(1 - 1e-6)); for (size_t i = 0; i < N && i < 4; i++) ts.push_back(s->getTime(i));
        for (double t : ts)
        {
            t = std::min(1.0, std::max(0.0, t)); VXf x; int id = -5; s->interpolate((float)t, x, &id); double want = t * L, acc = 0; size_t k = 0; while (k + 2 < N && acc + p.dist(q[k], q[k + 1]) < want) { acc += p.dist(q[k], q[k + 1]); k++; }
            if (N < 2) continue; double seg = p.dist(q[k], q[k + 1]); VX ref = p.mix(q[k], q[k + 1], seg > 0 ? std::min(1.0, (want - acc) / seg) : 0);
            double e = p.dist(vd(x), ref, true), eu = 0; for (int i = 0; i < p.dim(); i++) eu = std::max(eu, std::fabs(p.delta(i, ref(i), x(i))) / (1 + std::fabs(ref(i)))); bool skip = p.ambiguous(q[k], q[k + 1]);
            if (!skip) check(e < 1e-3 * (1 + L), "interpolate/position", "at %.9g: %s, expected %s (segment %zu of %zu)", t, ms(vd(x)).c_str(), ms(ref).c_str(), k, N - 1);
            check(id >= 0 && id < (int)N, "interpolate/index", "at %.9g index %d of the last path point, the path has %zu points", t, id, N);
            if (id >= 0 && id < (int)N) { double at_ = plen(p, q, 0, id, true), nx = id + 1 < (int)N ? plen(p, q, 0, id + 1, true) : L; check(at_ <= want + 1e-3 * (1 + L) && nx >= want - 1e-3 * (1 + L), "interpolate/index", "at %.9g of length %g (%g) index %d, which lies at %g and is followed at %g", t, L, want, id, at_, nx); }
            count("interpolated"); sig(hm(7, x));
        }
    }
    { CSpacePathPtr c = s->clone(); auto cq = pts(c); check(cq.size() == N && c->getName() == s->getName(), "clone/points", "copy has %zu points", cq.size()); for (size_t i = 0; i < cq.size() && i < N; i++) if (!check(cq[i] == q[i], "clone/points", "point %zu differs", i)) break; c->addPoint(vf(q[0])); if (c->getNrOfPoints() > 2) c->erasePosition(1); check(pts(s) == q, "clone/shared", "changing the copy changed the original"); }
    if (r.p(0.3)) { std::vector<Eigen::Matrix4f> w = s->createWorkspacePath(); check(w.size() == N, "workspace/size", "%zu poses", w.size()); for (size_t i = 0; i < w.size(); i++) { std::vector<double> v(p.d.n.size(), 0); for (int k = 0; k < p.dim(); k++) v[p.js[k]] = clipRef(p.d.n[p.js[k]], q[i](k)); M4 g = p.d.fk(p.root, v).back(); if (!checkPose(w[i], g, 3e-4, 0.2, "workspace/pose", fmt("point %zu", i))) break; } if (r.p(0.3)) { p.cs->exclusiveRobotAccess(true); check(s->createWorkspacePath().size() == N, "workspace/locked", "size"); bool free = true; std::ignore = free; p.cs->isCollisionFree(vf(q[0])); p.cs->exclusiveRobotAccess(false); } count("workspace"); }
    // is the path reported valid
    { bool ok = p.cs->checkSolution(s); double run = 0, w = 0; bool amb = false; for (size_t i = 0; i + 1 < N; i++) { amb |= p.ambiguous(q[i], q[i + 1]); w = std::max(w, p.badRun(q[i], q[i + 1], run, p.dcd / 8)); } if (ok && !amb) check(w <= 1.2 * p.dcd + p.dcd / 8, "check-solution/accepted", "an invalid stretch of %g (DCD %g) was accepted", w, p.dcd); if (!ok && !amb) { double m = 1e30; for (size_t i = 0; i + 1 < N; i++) for (int k = 0; k <= 400; k++) { VX x = p.mix(q[i], q[i + 1], k / 400.0); m = std::min({m, p.gap(x) / 20, p.con->margin(x) / (0.02 + p.dist(q[i], q[i + 1], false) / 200)}); } if (N > 1) check(m < 1, "check-solution/refused", "a valid path was refused"); }
      VX bad; bool have = false; for (int k = 0; k < 200 && !have; k++) { bad = p.sampleQ(r); have = p.valid(bad) == -1; } if (have) { for (int where = 0; where < 3; where++) { CSpacePathPtr c(new CSpacePath(p.cs)); size_t pos = where == 0 ? 0 : where == 1 ? N : r.i(0, N); for (size_t i = 0; i <= N; i++) { if (i == pos) c->addPoint(vf(bad)); if (i < N) c->addPoint(vf(q[i])); } check(!p.cs->checkSolution(c), "check-solution/invalid-point", "a path with an invalid point at %zu of %zu was accepted", pos, N + 1); } CSpacePathPtr c(new CSpacePath(p.cs)); c->addPoint(vf(bad)); check(!p.cs->checkSolution(c), "check-solution/invalid-point", "a path of one invalid point was accepted"); count("invalid-point"); } }
    check(!p.cs->checkSolution(CSpacePathPtr()), "check-solution/null", "null accepted");
    // shortcuts
    double spacing = -1; size_t before = N;
    {
        ShortcutProcessorPtr sc(new ShortcutProcessor(s, p.cs, r.p(0.1))); int kind = r.i(0, 3); CSpacePathPtr c; S().desc = base + fmt(" shortcut kind %d", kind);
        if (kind == 0) c = sc->optimize(r.i(0, 60)); else if (kind == 1) c = sc->shortenSolutionRandom(r.i(0, 60), r.i(0, 12));
        else if (kind == 2) { sc->doPathPruning(); c = sc->getOptimizedPath(); if (c) check(c->getNrOfPoints() <= N, "pruning/points", "more points than before"); if (c) { auto cq = pts(c); bool more = false; for (size_t i = 0; i + 2 < cq.size(); i++) more |= !p.ambiguous(cq[i], cq[i + 2]) && p.cs->isPathValid(vf(cq[i]), vf(cq[i + 2])); check(!more, "pruning/incomplete", "a direct connection over one point is still possible"); } }
        else
        {
            for (int k = 0; k < 10; k++)
            {
                int a = -7, b = -7; bool ok = sc->selectCandidatesRandom(a, b, r.i(1, 10)); c = sc->getOptimizedPath(); size_t m = c ? c->getNrOfPoints() : 0; check(ok == (m > 2), "candidates/result", "candidates offered: %d, points %zu", ok, m); if (!ok) continue;
                check(a >= 0 && b < (int)m && b - a >= 2, "candidates/range", "candidates %d %d of %zu", a, b, m); if (!(a >= 0 && b < (int)m && b - a >= 2)) break;
                auto cq = pts(c); if (sc->validShortcut(a, b)) { double run = 0; bool amb = p.ambiguous(cq[a], cq[b]); if (!amb) check(p.badRun(cq[a], cq[b], run, p.dcd / 8) <= 1.2 * p.dcd, "shortcut/valid", "an invalid shortcut was declared valid"); int saved = sc->doShortcut(a, b); auto nq = pts(c = sc->getOptimizedPath()); check(saved == (int)m - (int)nq.size(), "shortcut/saved", "reports %d saved points, the path went from %zu to %zu", saved, m, nq.size()); for (int i = 0; i <= a; i++) check(nq[i] == cq[i], "shortcut/before", "point %d changed", i); for (int i = 0; i < (int)m - b; i++) check(nq[nq.size() - 1 - i] == cq[m - 1 - i], "shortcut/after", "point %d from the end changed", i); count("shortcut"); }
            }
            check(sc->doShortcut(-1, 0) == 0 && sc->doShortcut(0, 100000) == 0, "shortcut/range", "indices outside of the path");
        }
        if (check((bool)c, "shortcut/null", "no result")) { check(sc->getOptimizedPath() == c, "shortcut/result", "getOptimizedPath() differs"); judgePath(p, c, &q[0], &q[N - 1], "shortcut", spacing); auto cq = pts(c); bool amb = false; for (size_t i = 0; i + 1 < cq.size(); i++) amb |= p.ambiguous(cq[i], cq[i + 1]); double l = plen(p, cq, 0, cq.size() - 1, true); if (!amb) check(l <= L * 1.0002 + 1e-3, "shortcut/longer", "length %g before, %g after", L, l); if (l < 0.99 * L) count("shortened"); before = cq.size(); (void)before; }
        check(pts(s) == q, "shortcut/original", "the original path changed");
    }
    // elastic band
    if (N >= 2 && r.p(0.6))
    {
        bool lim = false; for (bool b : p.wrap) lim |= b; S().desc = base + " elastic band";
        std::vector<OBB> far; if (p.wall.empty() || r.p(0.5)) { far.push_back({T(20000, 0, 0), V3(50, 50, 50)}); } else far = p.wall; Walls w = makeWalls(far, p.cc); RobotNodePtr node; for (auto& nd : p.links->getAllRobotNodes()) node = nd; bool isFar = far[0].g(0, 3) > 10000;
        bool vis = r.p(0.5); p.rob->setUpdateVisualization(vis); boost::shared_ptr<ElasticBandProcessor> eb(new ElasticBandProcessor(s, p.cs, node, w.set)); VXf wt = VXf::Ones(p.dim()); if (r.p(0.4)) { for (int i = 0; i < p.dim(); i++) if (r.p(0.4)) wt(i) = 0; eb->setWeights(wt); }
        int steps = r.i(0, 15); CSpacePathPtr c = eb->optimize(steps); check(p.rob->getUpdateVisualizationStatus() == vis, "elastic/visualization-status", "changed from %d", vis);
        if (check((bool)c && c->getNrOfPoints() >= 2, "elastic/null", "no result"))
        {
            auto cq = pts(c); check(cq[0] == q[0] && cq.back() == q.back(), "elastic/ends", "start or goal moved"); check(cq.size() <= N, "elastic/points", "points added"); for (auto& x : cq) if (!check(x.allFinite(), "elastic/finite", "not finite")) break; check(pts(s) == q, "elastic/original", "the original path changed");
            if (cq.size() == N) for (size_t i = 0; i < N; i++) for (int k = 0; k < p.dim(); k++) if (wt(k) == 0 && !check(cq[i](k) == q[i](k), "elastic/disabled-dimension", "dimension %d with weight 0 moved at point %zu", k, i)) { i = N; break; }
            if (isFar)
            {   // only the neighbours act: an independent simulation
                std::vector<VX> x = q; double ssd = 2.0 * p.smp * p.smp; bool edge = false;
                for (int st = 0; st < steps; st++) { for (size_t i = 1; i + 1 < x.size(); i++) { VX f = ((x[i - 1] - x[i]) + (x[i + 1] - x[i])) * 0.5 * 0.5; double m = f.norm(); if (std::fabs(m - 20) < 1e-3) edge = true; if (m > 20) f *= 20 / m; for (int k = 0; k < p.dim(); k++) x[i](k) += f(k) * wt(k); } for (size_t i = 1; i + 2 < x.size(); i++) { double d = std::pow(p.dist(x[i - 1], x[i]), 2) + std::pow(p.dist(x[i], x[i + 1]), 2); if (std::fabs(d - ssd) < 1e-3 * ssd) edge = true; if (d < ssd) x.erase(x.begin() + i); } }
                if (!edge) { if (check(x.size() == cq.size(), "elastic/smoothing", "%zu points, expected %zu", cq.size(), x.size())) for (size_t i = 0; i < x.size(); i++) if (!check((x[i] - cq[i]).norm() < 2e-3 * (1 + x[i].norm()), "elastic/smoothing", "point %zu is %s, expected %s", i, ms(cq[i]).c_str(), ms(x[i]).c_str())) break; count("elastic-free"); }
                if (cq.size() >= 3) { size_t i = r.i(1, cq.size() - 2); Eigen::Vector3f fi(9e9f, 9e9f, 9e9f), fe; eb->getForces(i, fi, fe); VX f = ((cq[i - 1] - cq[i]) + (cq[i + 1] - cq[i])) * 0.25; if (f.norm() > 20) f *= 20 / f.norm(); V3 jf = V3::Zero(); double h = 1e-4; std::vector<double> v(p.d.n.size(), 0); for (int k = 0; k < p.dim(); k++) v[p.js[k]] = clipRef(p.d.n[p.js[k]], cq[i](k)); for (int k = 0; k < p.dim(); k++) { auto a = v, b = v; a[p.js[k]] -= h; b[p.js[k]] += h; jf += (p.d.fk(p.root, b).back().block<3, 1>(0, 3) - p.d.fk(p.root, a).back().block<3, 1>(0, 3)) / (2 * h) * f(k); } check((fi.cast<double>() - jf).norm() < 0.02 * (1 + jf.norm()), "elastic/internal-force", "point %zu of %zu: %s, expected %s", i, cq.size(), ms(fi).c_str(), ms(jf).c_str()); check(fe.norm() < 1e-6, "elastic/external-force", "obstacle out of range exerts a force"); count("elastic-force"); }
            }
            else count("elastic-obstacle");
        }
        p.rob->setUpdateVisualization(true); (void)lim;
    }
}
namespace {
struct MySampler : public Sampler { MySampler(unsigned d) : Sampler(d) {} long calls = 0; void sample(VXf& c, CSpacePtr s) override { calls++; getUniformlyRandomConfig(c, s); } };
}
static void c23(Rng& r)
{
    WorldOpt o; if (r.p(0.4)) o.walls = 0; o.maxConfigs = r.i(30, 400); auto wp = genWorld(r, o); PWorld& p = *wp; auto cs = p.cs; int D = p.dim(); at("space dim %d weights %d walls %zu balls %zu maxConfigs %d", D, p.useW, p.wall.size(), p.con->ball.size(), o.maxConfigs); std::string base = S().desc;
    check((int)cs->getDimension() == D && cs->getRobot() == p.rob && cs->getRobotNodeSet() == p.set, "space/members", "members"); for (int i = 0; i < D; i++) { checkNear(cs->getBoundaryMin(i), p.lo[i], 1e-5 * (1 + std::fabs(p.lo[i])), "space/min"); checkNear(cs->getBoundaryMax(i), p.hi[i], 1e-5 * (1 + std::fabs(p.hi[i])), "space/max"); checkNear(cs->getBoundaryDist(i), p.hi[i] - p.lo[i], 1e-4 * (1 + std::fabs(p.hi[i])), "space/dist"); }
    // metric and interpolation
    for (int k = 0; k < 12; k++)
    {
        VX a = p.sampleQ(r), b = r.p(0.15) ? a : p.sampleQ(r), c = p.sampleQ(r); double ab = cs->calcDist(vf(a), vf(b)), ba = cs->calcDist(vf(b), vf(a)), ref = p.dist(a, b), tol = 2e-5 * (1 + ref) + (p.ambiguous(a, b) ? 1e-3 : 0) ; double sc = 0; for (int i = 0; i < D; i++) sc = std::max(sc, 1e-6 * (std::fabs(a(i)) + std::fabs(b(i)) + 4) * (p.useW ? p.w[i] : 1)); tol += 4 * sc;
        checkNear(ab, ref, tol, "metric/distance", ms(a) + " " + ms(b)); checkNear(ba, ab, tol, "metric/symmetry"); checkNear(cs->calcDist2(vf(a), vf(b)), ref * ref, 2 * tol * (ref + tol) + 1e-9, "metric/squared"); checkNear(cs->calcDist(vf(a), vf(b), true), p.dist(a, b, false), 2e-5 * (1 + p.dist(a, b, false)) + 1e-3, "metric/unweighted"); check(ab <= cs->calcDist(vf(a), vf(c)) + cs->calcDist(vf(c), vf(b)) + 3 * tol, "metric/triangle", "triangle inequality"); check(cs->calcDist(vf(a), vf(a)) <= 4 * sc, "metric/identity", "distance to itself");
        double t = r.pick({0.0, 1.0, 0.5, F(r.u(0, 1))}); VX x = vd(cs->interpolate(vf(a), vf(b), (float)t)), want = p.mix(a, b, t); if (!p.ambiguous(a, b)) for (int i = 0; i < D; i++) { if (!check(std::fabs(p.delta(i, want(i), x(i))) < 3e-5 * (1 + std::fabs(a(i)) + std::fabs(b(i))), "interpolate/value", "dim %d from %g to %g at %g: %g, expected %g", i, a(i), b(i), t, x(i), want(i))) break; checkNear(cs->interpolate(vf(a), vf(b), i, (float)t), x(i), 1e-5 * (1 + std::fabs(x(i))), "interpolate/single"); check(x(i) >= p.lo[i] - 1e-4 * (1 + std::fabs(p.lo[i])) && x(i) <= p.hi[i] + 1e-4 * (1 + std::fabs(p.hi[i])), "interpolate/bounds", "dim %d leaves the boundaries: from %g to %g at %g gives %g", i, a(i), b(i), t, x(i)); }
        sig(hm(1, x));
    }
    // boundaries
    for (int k = 0; k < 6; k++) { VX a(D); bool in = true; for (int i = 0; i < D; i++) { double L = p.hi[i] - p.lo[i]; a(i) = F(p.lo[i] + r.u(-0.3, 1.3) * L); if (r.p(0.6)) a(i) = F(r.u(p.lo[i] + 1e-3 * L, p.hi[i] - 1e-3 * L)); double e = 1e-5 * (1 + std::fabs(p.lo[i]) + std::fabs(p.hi[i])); for (double l : {p.lo[i], p.hi[i]}) if (std::fabs(a(i) - l) < 2 * e) a(i) = F(0.5 * (p.lo[i] + p.hi[i])); if (a(i) < p.lo[i] || a(i) > p.hi[i]) in = false; } check(cs->isInBoundary(vf(a)) == in, "bounds/inside", "%s reported %d", ms(a).c_str(), !in); VXf x = vf(a); cs->respectBoundaries(x); for (int i = 0; i < D; i++) checkNear(x(i), std::min(std::max(a(i), p.lo[i]), p.hi[i]), 1e-5 * (1 + std::fabs(p.lo[i]) + std::fabs(p.hi[i])), "bounds/respect"); }
    // validity
    int nv = 0; for (int k = 0; k < 25; k++) { VX a = p.sampleQ(r); int v = p.valid(a); int cons = p.con->margin(a) > 1e-4 ? 1 : p.con->margin(a) < -1e-4 ? -1 : 0; double g = p.gap(a); if (v) { check(cs->isConfigValid(vf(a)) == (v == 1), "valid/configuration", "gap %g constraint margin %g", g, p.con->margin(a)); nv += v == -1; } if (std::fabs(g) > 0.05) { check(cs->isCollisionFree(vf(a)) == (g > 0), "valid/collision", "gap %g", g); if (g > 0.05 && !p.wall.empty() && k < 5) check(cs->calculateObstacleDistance(vf(a)) >= g - 0.05, "valid/obstacle-distance", "distance %g, separation %g", cs->calculateObstacleDistance(vf(a)), g); check(cs->isConfigValid(vf(a), true, true, false) == (g > 0), "valid/no-constraints", "gap %g", g); } if (cons && (p.con->ball.size() || p.con->slabDim >= 0)) { check(cs->isSatisfyingConstraints(vf(a)) == (cons > 0), "valid/constraint", "margin %g", p.con->margin(a)); check(cs->isConfigValid(vf(a), true, false, true) == (cons > 0), "valid/no-collision", "margin %g", p.con->margin(a)); } }
    count("invalid-configurations", nv);
    // random configurations
    { if (r.p(0.3)) { boost::shared_ptr<MySampler> b(new MySampler(D)); cs->setRandomSampler(b); VXf x(D); cs->getRandomConfig(x); check(b->calls == 1, "random/sampler", "sampler not used"); check(cs->isInBoundary(x), "random/sampler-bounds", "%s", ms(x).c_str()); count("sampler"); if (r.p(0.5)) cs->setRandomSampler(SamplerPtr()); }
      VX mn = VX::Constant(D, 1e30), mx = -mn; VXf x(D); for (int k = 0; k < 60; k++) { cs->getRandomConfig(x); for (int i = 0; i < D; i++) { double e = 1e-5 * (1 + std::fabs(p.lo[i]) + std::fabs(p.hi[i])); if (!check(x(i) >= p.lo[i] - e && x(i) <= p.hi[i] + e, "random/bounds", "dim %d value %g not in [%g,%g]", i, x(i), p.lo[i], p.hi[i])) break; mn(i) = std::min(mn(i), (double)x(i)); mx(i) = std::max(mx(i), (double)x(i)); } } for (int i = 0; i < D; i++) check(mx(i) - mn(i) > 0.5 * (p.hi[i] - p.lo[i]), "random/spread", "dim %d: 60 samples span [%g,%g] of [%g,%g]", i, mn(i), mx(i), p.lo[i], p.hi[i]);
      VX f; if (p.validQ(r, f, 30)) for (int k = 0; k < 10; k++) { cs->getRandomConfig(x, true); check(p.valid(vd(x)) != -1, "random/valid", "a random valid configuration is invalid"); } }
    // segments
    for (int k = 0; k < 8; k++)
    {
        VX a, b; if (!p.validQ(r, a, 50)) break; b = p.sampleQ(r); if (r.p(0.3)) b = p.mix(a, b, r.u(0.01, 0.2)); if (r.p(0.05)) b = a; for (int i = 0; i < D; i++) b(i) = F(b(i)); if (p.ambiguous(a, b) || !p.inBounds(b, 0)) continue; double L = p.dist(a, b), run = 0, worst = p.badRun(a, b, run, p.dcd / 16); bool ok = cs->isPathValid(vf(a), vf(b));
        S().desc = base + fmt(" segment length %g DCD %g sampling %g", L, p.dcd, p.smp);
        if (ok) { check(worst <= 1.1 * p.dcd, "segment/accepted", "an invalid stretch of %g was accepted", worst); check(p.valid(b) != -1, "segment/accepted-end", "the end is invalid"); count("segment-valid"); }
        else { double m = 1e30; int n = std::max(1, (int)(L / p.dcd * 20)); VX pv = a; for (int i = 0; i <= n; i++) { VX x = p.mix(a, b, (double)i / n); double mv = 0; auto b0 = p.boxes(pv), b1 = p.boxes(x); for (size_t z = 0; z < b0.size(); z++) mv = std::max(mv, (b1[z].g.block<3, 1>(0, 3) - b0[z].g.block<3, 1>(0, 3)).norm() + 220 * mdiff(b1[z].g.block<3, 3>(0, 0), b0[z].g.block<3, 3>(0, 0))); m = std::min({m, p.gap(x) - 2 * mv - 0.1, p.con->margin(x) - 2 * (x - pv).norm() - 1e-3}); pv = x; } check(m <= 0, "segment/refused", "a clearly valid segment was refused (margin %g)", m); count("segment-invalid"); }
        CSpacePathPtr c = cs->createPath(vf(a), vf(b)); auto cq = pts(c); check(!cq.empty() && cq[0] == a, "create-path/start", "start"); if (L > 1e-4) { check(cq.size() >= 2 && cq.back() == b, "create-path/goal", "goal"); double acc = 0; for (size_t i = 0; i + 1 < cq.size(); i++) { double l = p.dist(cq[i], cq[i + 1]); acc += l; check(l <= p.smp * 1.06 + 1e-4, "create-path/spacing", "points %g apart, sampling size %g", l, p.smp); } checkNear(acc, L, 2e-3 * (1 + L), "create-path/straight", "length"); for (auto& x : cq) check(std::fabs(p.dist(a, x) + p.dist(x, b) - L) < 2e-3 * (1 + L), "create-path/straight", "not on the line"); check(cq.size() <= L / p.smp + 4, "create-path/count", "%zu points", cq.size()); }
        float f = -1; CSpacePathPtr u = cs->createPathUntilInvalid(vf(a), vf(b), f); auto uq = pts(u); check(!uq.empty() && uq[0] == a && f >= 0 && f <= 1.00001, "until-invalid/start", "fraction %g", f);
        if (L > 1e-4 && !uq.empty())
        {
            double last = p.dist(a, uq.back()), run2 = 0; bool whole = uq.back() == b && uq.size() > 1; check((f == 1.0f) == whole, "until-invalid/complete", "fraction %.9g, goal %sreached", f, whole ? "" : "not "); check(f * L >= last - 2e-3 * (1 + L), "until-invalid/fraction", "fraction %g is shorter than the returned path (%g of %g)", f, last, L);
            for (auto& x : uq) { check(std::fabs(p.dist(a, x) + p.dist(x, b) - L) < 2e-3 * (1 + L), "until-invalid/straight", "not on the line"); check(p.valid(x) != -1, "until-invalid/invalid-point", "an invalid point was added"); } for (size_t i = 0; i + 1 < uq.size(); i++) check(p.dist(uq[i], uq[i + 1]) <= p.smp + 1.02 * p.dcd + 1e-4, "until-invalid/spacing", "points %g apart, sampling size %g DCD %g", p.dist(uq[i], uq[i + 1]), p.smp, p.dcd);
            double w2 = 0; for (size_t i = 0; i + 1 < uq.size(); i++) w2 = std::max(w2, p.badRun(uq[i], uq[i + 1], run2, p.dcd / 16)); check(w2 <= 1.1 * p.dcd, "until-invalid/stretch", "an invalid stretch of %g", w2); run2 = 0; check(p.badRun(a, p.mix(a, b, std::min(1.f, f)), run2, p.dcd / 16) <= 1.1 * p.dcd, "until-invalid/fraction", "the declared collision free part (%g) contains an invalid stretch", f);
            if (!whole) { double m = 1e30; VX pv = p.mix(a, b, f); for (int i = 0; i <= 40; i++) { double t = std::min(1.0, f + i / 40.0 * (p.smp + 1.06 * p.dcd) / L); VX x = p.mix(a, b, t); double mv = 0; auto b0 = p.boxes(pv), b1 = p.boxes(x); for (size_t z = 0; z < b0.size(); z++) mv = std::max(mv, (b1[z].g.block<3, 1>(0, 3) - b0[z].g.block<3, 1>(0, 3)).norm() + 220 * mdiff(b1[z].g.block<3, 3>(0, 0), b0[z].g.block<3, 3>(0, 0))); m = std::min({m, p.gap(x) - 2 * mv - 0.1, p.con->margin(x) - 2 * (x - pv).norm() - 1e-3}); pv = x; } check(m <= 0, "until-invalid/stopped-early", "the path stops at fraction %g of %g although the next sampling step is valid (margin %g)", f, L, m); count("until-invalid-partial"); } else count("until-invalid-complete");
        }
    }
    S().desc = base;
    // tree against a model
    {
        CSpaceTreePtr t(new CSpaceTree(cs)), t2; std::map<unsigned, std::pair<VX, int>> model; std::vector<unsigned> order; size_t other = 0; bool kids = r.p(0.4); t->setUpdateChildren(kids); if (r.p(0.3)) { t2.reset(new CSpaceTree(cs)); other = r.i(1, 5); for (size_t i = 0; i < other; i++) t2->appendNode(vf(p.sampleQ(r)), -1); }
        int lastRemoved = -1; (void)lastRemoved;
        for (int k = 0; k < 60; k++)
        {
            int op = r.i(0, 9); if (model.empty()) op = 0;
            if (op <= 3) { int par = model.empty() ? -1 : (int)r.pick(order); VX q = p.sampleQ(r); if (model.size() + other >= (size_t)o.maxConfigs) { bool th = false; try { t->appendNode(vf(q), par); } catch (VirtualRobotException&) { th = true; } check(th, "tree/exhausted", "more nodes than the space can hold"); count("exhausted"); break; } CSpaceNodePtr n = t->appendNode(vf(q), par); if (!check(n && !model.count(n->ID) && n->parentID == par && vd(n->configuration) == q && n->allocated, "tree/append", "appended node")) break; check(t->getLastAddedNode() == n, "tree/last", "last added node"); check(n->children.empty(), "tree/children", "a new node has children"); model[n->ID] = {q, par}; order.push_back(n->ID); if (t2) for (auto& m : t2->getNodes()) check(m->ID != n->ID, "tree/shared-node", "two trees hold the same node"); }
            else if (op == 4 && order.size() > 1) { std::vector<unsigned> leaf; for (auto& m : model) { bool l = true; for (auto& x : model) l &= x.second.second != (int)m.first; if (l) leaf.push_back(m.first); } unsigned id = r.pick(leaf); t->removeNode(t->getNode(id)); model.erase(id); order.erase(std::find(order.begin(), order.end(), id)); check(!t->hasNode(cs->getNode(id)), "tree/remove", "removed node still in the tree"); count("removed"); }
            else if (op == 5) { VX q = p.sampleQ(r); float dd = -1; CSpaceNodePtr n = t->getNearestNeighbor(vf(q), &dd); if (!check((bool)n && model.count(n->ID), "tree/nearest", "no neighbour")) break; double bw = 1e30, bu = 1e30; for (auto& m : model) { bw = std::min(bw, p.dist(q, m.second.first)); bu = std::min(bu, p.dist(q, m.second.first, false)); } double gw = p.dist(q, model[n->ID].first), gu = p.dist(q, model[n->ID].first, false); double tl = 1e-3 * (1 + std::max(bu, bw)); check((std::fabs(gw - bw) < tl && std::fabs(dd - bw) < tl) || (std::fabs(gu - bu) < tl && std::fabs(dd - bu) < tl), "tree/nearest", "reported distance %g; nearest weighted %g / unweighted %g, chosen node at %g / %g", dd, bw, bu, gw, gu); check(t->getNearestNeighborID(vf(q)) == n->ID, "tree/nearest", "id"); count("nearest"); }
            else if (op == 6) { unsigned a = r.pick(order), b = r.pick(order); std::vector<VX> want; int c = b; bool found = false; while (c >= 0) { want.push_back(model[c].first); if (c == (int)a) { found = true; break; } c = model[c].second; } std::reverse(want.begin(), want.end()); CSpacePathPtr f(new CSpacePath(cs)); bool ok = t->createPath(t->getNode(a), t->getNode(b), f); check(ok == found, "tree/path", "path found %d, expected %d", ok, found); if (ok && found) { check(pts(f) == want, "tree/path", "path of %u points, expected %zu", f->getNrOfPoints(), want.size()); count("tree-path"); } }
            else if (op == 7) { double l = 0, lu = 0; for (auto& m : model) if (m.second.second >= 0) { l += p.dist(m.second.first, model[m.second.second].first); lu += p.dist(m.second.first, model[m.second.second].first, false); } checkNear(t->getTreeLength(), l, 1e-3 * (1 + l), "tree/length"); checkNear(t->getTreeLength(false), lu, 1e-3 * (1 + lu), "tree/length-unweighted"); }
            else if (op == 8)
            {
                unsigned a = r.pick(order); VX q = p.sampleQ(r); if (r.p(0.6)) q = p.mix(model[a].first, q, r.u(0.01, 0.3)); for (int i = 0; i < D; i++) q(i) = F(q(i)); if (p.ambiguous(model[a].first, q) || p.dist(model[a].first, q) < 1e-3 || model.size() + other + 2 * p.dist(model[a].first, q) / std::min(p.smp, p.dcd) + 5 > o.maxConfigs) continue; bool until = r.p(0.5); int id = -9; size_t n0 = t->getNrOfNodes(); bool ok = until ? t->appendPathUntilCollision(t->getNode(a), vf(q), &id) : t->appendPath(t->getNode(a), vf(q), &id); auto ns = t->getNodes();
                if (!until) check(ok, "tree/append-path", "failed"); int par = a; for (size_t i = n0; i < ns.size(); i++) { if (!check(ns[i]->parentID == par && !model.count(ns[i]->ID), "tree/append-path", "chain of parents")) break; model[ns[i]->ID] = {vd(ns[i]->configuration), par}; order.push_back(ns[i]->ID); par = ns[i]->ID; } if (ns.size() > n0) { check(id == (int)ns.back()->ID, "tree/append-path", "last added id %d, expected %u", id, ns.back()->ID); } else check(id == -9, "tree/append-path", "nothing added, id %d", id); if (ok) check(p.dist(model[par].first, q) < 1e-4 * (1 + q.norm()), "tree/append-path", "complete path does not end at the goal"); if (until && ok) check(p.valid(q) != -1, "tree/append-path", "connected to an invalid configuration"); count("append-path");
            }
            else if (op == 9 && r.p(0.15)) { t->reset(); model.clear(); order.clear(); check(t->getNrOfNodes() == 0, "tree/reset", "nodes left"); count("tree-reset"); }
            if (!check(t->getNrOfNodes() == model.size(), "tree/size", "%u nodes, expected %zu", t->getNrOfNodes(), model.size())) break;
        }
        for (auto& m : model) { CSpaceNodePtr n = t->getNode(m.first); if (!check(n && n->ID == m.first && n->parentID == m.second.second && vd(n->configuration) == m.second.first && t->hasNode(n) && n->allocated && cs->getNode(m.first) == n, "tree/node", "node %u", m.first)) break; if (kids && n) { std::set<unsigned> want, got; for (auto& x : model) if (x.second.second == (int)m.first) want.insert(x.first); for (auto& c : n->children) if (c) got.insert(c->ID); bool sub = std::includes(got.begin(), got.end(), want.begin(), want.end()); check(sub, "tree/children", "children of node %u: %zu, expected %zu", m.first, got.size(), want.size()); } }
        { std::string fn = S().scratch + "/tree.txt"; if (check(t->saveAllNodes(fn.c_str()), "tree/save", "saving failed")) { std::ifstream f(fn); std::string l; std::vector<std::string> ls; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') ls.push_back(l); if (check(ls.size() == model.size() + 3 && ls[0] == p.set->getName() && atoi(ls[1].c_str()) == D && atoi(ls[2].c_str()) == (int)model.size(), "tree/save", "header or number of lines (%zu)", ls.size())) for (size_t i = 3; i < ls.size(); i++) { std::istringstream is(ls[i]); unsigned id; is >> id; VX q(D); for (int z = 0; z < D; z++) is >> q(z); int par = -99; is >> par; if (!check(model.count(id) && model[id].second == par && (model[id].first - q).norm() < 1e-4 * (1 + q.norm()), "tree/save", "line %s", ls[i].c_str())) break; } } }
        // conservation: every node not held by a tree can be allocated exactly once
        if (r.p(0.3)) { size_t held = model.size() + other; if (r.p(0.5)) { t->reset(); held = other; model.clear(); } size_t n = 0; std::set<unsigned> ids; for (auto& m : model) ids.insert(m.first); bool dup = false; try { for (;; n++) { CSpaceNodePtr x = cs->createNewNode(); dup |= !ids.insert(x->ID).second; } } catch (VirtualRobotException&) {} check(!dup, "pool/duplicate", "a node in use was handed out again"); check(n + held == (size_t)o.maxConfigs, "pool/conservation", "%zu free + %zu held nodes of %d", n, held, o.maxConfigs); cs->reset(); n = 0; try { for (;; n++) cs->createNewNode(); } catch (VirtualRobotException&) {} check(n == (size_t)o.maxConfigs, "pool/reset", "%zu of %d nodes after reset", n, o.maxConfigs); count("pool"); }
    }
    // a copy works on its own robot
    if (r.p(0.5))
    {
        CollisionCheckerPtr c2(new CollisionChecker()); RobotPtr r2 = p.rob->clone("P2", c2); Walls w2 = makeWalls(p.wall, c2); std::vector<std::string> ln; for (auto& n : p.links->getAllRobotNodes()) ln.push_back(n->getName()); CDManagerPtr m2 = makeCdm(r2, ln, w2, c2); CSpaceSampledPtr k2; try { k2 = boost::dynamic_pointer_cast<CSpaceSampled>(cs->clone(c2, r2, m2, r.p(0.5) ? 0 : 7)); } catch (std::exception& e) { check(false, "clone/exception", "%s", e.what()); return; }
        if (check((bool)k2, "clone/null", "no copy"))
        {
            VXf j0; p.set->getJointValues(j0); check(k2->getRobot() == r2 && k2->getRobotNodeSet() && k2->getRobotNodeSet()->getNode(0)->getRobot() == r2, "clone/robot", "the copy does not work on the new robot");
            for (int i = 0; i < D; i++) check(k2->getBoundaryMin(i) == cs->getBoundaryMin(i) && k2->getBoundaryMax(i) == cs->getBoundaryMax(i), "clone/boundary", "boundary %d", i); check(k2->getSamplingSize() == cs->getSamplingSize() && k2->getSamplingSizeDCD() == cs->getSamplingSizeDCD(), "clone/sampling", "sampling sizes");
            for (int k = 0; k < 15; k++) { VX a = p.sampleQ(r), b = p.sampleQ(r); double g = p.gap(a); if (std::fabs(g) > 0.05) check(k2->isCollisionFree(vf(a)) == (g > 0), "clone/collision", "gap %g", g); if (!p.ambiguous(a, b)) checkNear(k2->calcDist(vf(a), vf(b)), cs->calcDist(vf(a), vf(b)), 1e-4, "clone/metric"); }
            VXf j1; p.set->getJointValues(j1); check(j0 == j1, "clone/original-moved", "checking configurations in the copy moved the original robot"); CSpaceTreePtr t(new CSpaceTree(k2)); size_t n = 0; try { for (; n < (size_t)o.maxConfigs; n++) t->appendNode(vf(p.sampleQ(r)), -1); } catch (std::exception&) {} check(n == (size_t)o.maxConfigs, "clone/capacity", "the copy holds %zu of %d nodes", n, o.maxConfigs); count("cloned");
        }
    }
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C20", c20, 2400, 30000}, {"C21", c21, 3000, 40000}, {"C23", c23, 1600, 20000}}); }
