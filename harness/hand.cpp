// C25: end effectors: closing, opening, contacts, collision queries of actors, preshapes, configurations, copies.
#include "hand.h"
struct World
{
    const Hand& h; const std::vector<Thing>& t; double ext;
    Mesh node(int n, const std::vector<M4>& g) const { return h.mesh[n].moved(g[n]); }
    Mesh thing(int i) const { return t[i].m.moved(t[i].pose); }
    // state of actor a in configuration g; pairs[node][thing]
    int actorState(int a, const std::vector<M4>& g, std::map<std::pair<int, int>, int>* pairs, bool both = false) const
    {
        int s = 0; auto add = [&](int v) { if (v == 1) s = 1; else if (v < 0 && s == 0) s = -1; };
        const ActRef& A = h.act[a];
        for (size_t k = 0; k < A.node.size(); k++)
        {
            int n = A.node[k]; if (!h.has[n] || !A.mode[k]) continue; Mesh m = node(n, g);
            for (size_t i = 0; i < t.size(); i++) { int v = hit(m, thing(i), ext); if (pairs) (*pairs)[{n, (int)i}] = v; add(v); }
            if (A.mode[k] & 1) for (size_t b = 0; b < h.act.size(); b++) if ((int)b != a) for (size_t l = 0; l < h.act[b].node.size(); l++) if ((both ? h.act[b].mode[l] & 1 : h.act[b].mode[l]) && h.has[h.act[b].node[l]]) add(hit(m, node(h.act[b].node[l], g), ext));
            if (A.mode[k] & 2) for (int q : h.stat) if (h.has[q]) add(hit(m, node(q, g), ext));
        }
        return s;
    }
};
static void placeThings(Rng& r, Hand& h, std::vector<Thing>& ts)
{
    std::vector<double> q = h.q(); auto g = h.d.fk(h.root, q); int n = r.pick({0, 1, 1, 1, 1, 1, 2, 3});
    std::vector<double> qc = q; for (auto& a : h.act) for (size_t k = 0; k < a.node.size(); k++) { const NodeDef& d = h.d.n[a.node[k]]; double f = r.u(0.1, 0.9); qc[a.node[k]] = a.dir[k] > 0 ? q[a.node[k]] + f * (d.hi - q[a.node[k]]) : q[a.node[k]] + f * (d.lo - q[a.node[k]]); } auto gc = h.d.fk(h.root, qc); bool want = r.p(0.85);
    for (int i = 0; i < n; i++)
    {
        Thing t; double e = r.pick({6.0, 15.0, 25.0, 40.0}); t.m = r.p(0.6) ? starMesh(r, e, 0.3, r.i(3, 5), r.i(3, 6)) : genMesh(r, e);
        for (int k = 0; k < 20; k++) { M4 l = r.pose(0); V3 off = r.p(0.8) ? V3(r.u(-30, 30), r.u(-30, 30), r.u(0, 40)) : V3(r.dir() * 100); l.block<3, 1>(0, 3) = off; t.pose = toF(g[h.tcp] * l); Mesh w = t.m.moved(t.pose); bool bad = false; for (size_t j = 0; j < h.d.n.size(); j++) if (h.has[j]) bad |= hit(h.mesh[j].moved(g[j]), w, 1000) != 0; bool touch = !want; if (!bad && want) for (auto& a : h.act) for (int j : a.node) if (h.has[j]) touch |= hit(h.mesh[j].moved(gc[j]), w, 1000) == 1; if ((!bad && (touch || k > 15)) || r.p(0.01)) break; }
        t.o.reset(new Obstacle(fmt("Thing%d", i), VisualizationNodePtr(), meshCol(t.m, h.p->getCollisionChecker()))); t.o->setGlobalPose(f4(t.pose)); ts.push_back(t);
    }
}
static void randomConfig(Rng& r, Hand& h, bool open) { for (auto& n : h.d.n) if (n.type != FIX) { double v = open && r.p(0.7) ? n.lo + r.u(0, 0.2) * (n.hi - n.lo) : r.u(n.lo, n.hi); h.p->getRobotNode(n.name)->setJointValue((float)v); } }
static EndEffector::ContactInfoVector callClose(Rng& r, Hand& h, std::vector<Thing>& ts, float step, std::vector<Thing*>& used)
{
    used.clear(); bool open = r.p(0.2);
    if (ts.empty() || r.p(0.05)) { if (open) { h.e->openActors(SceneObjectSetPtr(), -step); return {}; } return h.e->closeActors(SceneObjectSetPtr(), step); }
    if (ts.size() == 1 && r.p(0.5) && !open) { used.push_back(&ts[0]); return h.e->closeActors(SceneObjectPtr(ts[0].o), step); }
    SceneObjectSetPtr s(new SceneObjectSet("obstacles", h.p->getCollisionChecker())); for (auto& t : ts) { s->addSceneObject(t.o); used.push_back(&t); }
    if (open) { h.e->openActors(s, -step); used.push_back(nullptr); return {}; } return h.e->closeActors(s, step);
}
static void closing(Rng& r)
{
    Hand h = genHand(r); std::vector<Thing> ts; randomConfig(r, h, true); placeThings(r, h, ts); double ext = h.root.block<3, 1>(0, 3).norm() + 600;
    for (int round = 0; round < 2; round++)
    {
        if (round && r.p(0.6)) randomConfig(r, h, r.p(0.5));
        std::vector<double> q0 = h.q(); float step = (float)(r.pick({0.02, 0.02, 0.05, 0.1, 0.01}) * (r.p(0.25) ? -1 : 1)); std::vector<Thing*> used;
        Eigen::Matrix4f rp = h.p->getGlobalPose(); at("hand of %zu nodes, %zu fingers, %zu things, step %g", h.d.n.size(), h.act.size(), ts.size(), step);
        EndEffector::ContactInfoVector cs = callClose(r, h, ts, step, used); bool noList = used.empty() || !used.back(); bool opened = !used.empty() && !used.back(); if (opened) used.pop_back();
        std::vector<Thing> ut; for (auto* t : used) ut.push_back(*t); World w{h, ut, ext}; std::vector<double> q = h.q(); auto g0 = h.d.fk(h.root, q0), g = h.d.fk(h.root, q);
        // --- what moved
        check(h.p->getGlobalPose() == rp, "close/robot-moved", "the robot changed its pose"); for (auto& t : ts) check(t.o->getGlobalPose() == f4(t.pose), "close/obstacle-moved", "an obstacle moved");
        std::map<int, std::pair<int, int>> actor; for (size_t a = 0; a < h.act.size(); a++) for (size_t k = 0; k < h.act[a].node.size(); k++) actor[h.act[a].node[k]] = {(int)a, (int)k};
        for (size_t i = 0; i < q.size(); i++)
        {
            auto it = actor.find((int)i); const NodeDef& n = h.d.n[i];
            if (it == actor.end()) { check(q[i] == q0[i], "close/other-joint", "%s moved by %g", n.name.c_str(), q[i] - q0[i]); continue; }
            double s = (double)step * h.act[it->second.first].dir[it->second.second]; check(q[i] >= n.lo && q[i] <= n.hi, "close/limits", "%s ends at %.9g outside of [%.9g, %.9g]", n.name.c_str(), q[i], n.lo, n.hi);
            if (s == 0) { check(q[i] == q0[i], "close/direction-0", "%s moved", n.name.c_str()); continue; }
            double k = (q[i] - q0[i]) / s; check(k > -0.02 && std::fabs(k - std::round(k)) < 0.02, "close/steps", "%s moved by %.6g steps", n.name.c_str(), k); if (k > 0.5) count("moved");
        }
        // --- where it stopped; contacts that have to be reported
        std::map<std::pair<int, int>, int> want; bool anyUnsure = false;
        for (size_t a = 0; a < h.act.size(); a++)
        {
            std::map<std::pair<int, int>, int> s0, s1; int before = w.actorState((int)a, g0, &s0, true), after = w.actorState((int)a, g, &s1, true);
            for (size_t k = 0; k < h.act[a].node.size(); k++)
            {
                int n = h.act[a].node[k]; const NodeDef& nd = h.d.n[n]; double v = (float)q[n] + step * (float)h.act[a].dir[k]; if (h.act[a].dir[k] == 0) continue;
                double m = 1e-5 * (1 + std::fabs(v)); if (v > nd.hi + m || v < nd.lo - m) { count("stopped-limit"); continue; }
                bool edge = v > nd.hi - m || v < nd.lo + m; std::vector<double> qn = q; qn[n] = (float)v; std::map<std::pair<int, int>, int> pr; int c = w.actorState((int)a, h.d.fk(h.root, qn), &pr);
                if (!edge) { check(c != 0, "close/stopped-early", "%s could still move by %.4g", nd.name.c_str(), step * h.act[a].dir[k]); if (c == 1) count("stopped-contact"); }
                for (auto& x : pr) { int& o = want.insert({x.first, 0}).first->second; int v2 = edge && x.second == 1 ? -1 : x.second; if (v2 == 1) o = 1; else if (v2 < 0 && o == 0) o = -1; if (v2 < 0) anyUnsure = true; }
            }
            if (before == 0) check(after != 1, "close/collision-left", "%s was free and now collides", h.act[a].name.c_str()); else if (before == 1) count("started-colliding");
        }
        ev(3);
        // --- contacts
        if (!noList)
        {
            std::set<std::pair<int, int>> got;
            for (auto& c : cs)
            {
                int n = -1, o = -1; for (size_t i = 0; i < h.d.n.size(); i++) if (c.robotNode && c.robotNode->getName() == h.d.n[i].name) n = (int)i; for (size_t i = 0; i < ut.size(); i++) if (ut[i].o == c.obstacle) o = (int)i;
                if (!check(n >= 0 && o >= 0 && c.robotNode == h.p->getRobotNode(h.d.n[n].name), "contact/bodies", "a contact of unknown bodies")) continue;
                check(got.insert({n, o}).second, "contact/double", "%s and thing %d are reported twice", h.d.n[n].name.c_str(), o); check(c.eef == h.e, "contact/eef", "wrong end effector");
                auto it = actor.find(n); if (!check(it != actor.end() && h.has[n] && h.act[it->second.first].mode[it->second.second] != 0, "contact/not-an-actor", "%s", h.d.n[n].name.c_str())) continue;
                const ActRef& A = h.act[it->second.first]; check(c.actor && c.actor->getName() == A.name, "contact/actor", "contact of %s belongs to %s", h.d.n[n].name.c_str(), c.actor ? c.actor->getName().c_str() : "none");
                auto wi = want.find({n, o}); check(wi != want.end() && wi->second != 0, "contact/phantom", "%s does not touch thing %d", h.d.n[n].name.c_str(), o);
                Mesh mn = w.node(n, g), mo = w.thing(o); PairRef pr = pairRef(mn, mo); double tol = tolOf(ext); V3 pf = c.contactPointFingerGlobal.cast<double>(), po = c.contactPointObstacleGlobal.cast<double>();
                if (pr.depth < 0 && pr.dist > tol)
                {
                    checkNear(c.distance, pr.dist, tol, "contact/distance"); check(pointMesh(pf, mn) <= tol, "contact/finger-point", "the point is %.4g away from the finger", pointMesh(pf, mn)); check(pointMesh(po, mo) <= tol, "contact/obstacle-point", "the point is %.4g away from the obstacle", pointMesh(po, mo)); checkNear((pf - po).norm(), pr.dist, 2 * tol, "contact/points-apart"); count("contacts");
                }
                M4 io = inv(ut[o].pose); V3 lf = io.block<3, 3>(0, 0) * pf + io.block<3, 1>(0, 3), lo = io.block<3, 3>(0, 0) * po + io.block<3, 1>(0, 3);
                checkMat(c.contactPointFingerLocal.cast<double>(), lf, tol, "contact/finger-local"); checkMat(c.contactPointObstacleLocal.cast<double>(), lo, tol, "contact/obstacle-local");
                // direction of the contact point while the actor goes on closing
                std::vector<double> qn = q; bool edge = false; for (size_t k = 0; k < A.node.size(); k++) { const NodeDef& nd = h.d.n[A.node[k]]; double v = (float)q[A.node[k]] + step * (float)A.dir[k]; if (std::fabs(v - nd.lo) < 1e-5 * (1 + std::fabs(v)) || std::fabs(v - nd.hi) < 1e-5 * (1 + std::fabs(v))) edge = true; if (v <= nd.hi && v >= nd.lo) qn[A.node[k]] = (float)v; }
                auto gn = h.d.fk(h.root, qn); M4 in = gn[n] * inv(g[n]); V3 mv = in.block<3, 3>(0, 0) * pf + in.block<3, 1>(0, 3) - pf; double l = mv.norm();
                if (!edge && l > 0.02) { checkMat(c.approachDirectionGlobal.cast<double>(), mv / l, 2e-3 + tol / l, "contact/approach"); count("approach"); }
            }
            for (auto& x : want) if (x.second == 1) check(got.count(x.first), "contact/missing", "%s touches thing %d but this is not reported", h.d.n[x.first.first].name.c_str(), x.first.second);
            ev(3); sig(hmix(got.size(), hm(17, g[h.act[0].node.back()])));
            // --- closing again changes nothing
            if (r.p(0.4)) { auto c2 = used.size() == 1 && used[0] ? h.e->closeActors(SceneObjectPtr(used[0]->o), step) : EndEffector::ContactInfoVector(); if (used.size() == 1) { check(h.q() == q, "close/again-moves", "closing a closed hand moves it"); check(c2.size() == cs.size(), "close/again-contacts", "%zu contacts, then %zu", cs.size(), c2.size()); for (size_t i = 0; i < c2.size() && i < cs.size(); i++) check(c2[i].robotNode == cs[i].robotNode && c2[i].distance == cs[i].distance && c2[i].contactPointFingerGlobal == cs[i].contactPointFingerGlobal, "close/again-different", "contact %zu differs", i); count("again"); } }
            // --- static parts
            for (auto& t : ut) if (r.p(0.5))
            {
                EndEffector::ContactInfoVector sc; float md = (float)r.pick({3.0, 10.0, 40.0, 100.0}); V3 ad = r.dir(); int k = h.e->addStaticPartContacts(t.o, sc, ad.cast<float>(), md); check(k == (int)sc.size(), "static/count", "%d of %zu", k, sc.size());
                for (int s : h.stat) { bool found = false; const EndEffector::ContactInfo* ci = nullptr; for (auto& c : sc) if (c.robotNode->getName() == h.d.n[s].name) { found = true; ci = &c; } double D = h.has[s] ? pairRef(w.node(s, g), t.m.moved(t.pose)).dist : 1e9; if (std::fabs(D - md) > tolOf(ext)) check(found == (D < md), "static/which", "%s is %g away, reported %d for %g", h.d.n[s].name.c_str(), D, (int)found, md); if (ci) { checkNear(ci->distance, D, tolOf(ext), "static/distance"); checkMat(ci->approachDirectionGlobal.cast<double>(), V3(-ad), 1e-5, "static/approach"); check(ci->obstacle == t.o && ci->eef == h.e, "static/bodies", "wrong bodies"); count("static-contacts"); } }
            }
        }
        count(opened ? "opened" : "closed");
    }
}
// collision queries of actors, single steps
static void queries(Rng& r)
{
    Hand h = genHand(r); std::vector<Thing> ts; randomConfig(r, h, r.p(0.3)); placeThings(r, h, ts); double ext = h.root.block<3, 1>(0, 3).norm() + 600; std::vector<EndEffectorActorPtr> av; h.e->getActors(av);
    if (!check(av.size() == h.act.size(), "actors/count", "%zu of %zu", av.size(), h.act.size())) return;
    for (int s = 0; s < 4; s++)
    {
        randomConfig(r, h, r.p(0.2)); std::vector<double> q = h.q(); auto g = h.d.fk(h.root, q); World w{h, ts, ext};
        for (size_t a = 0; a < av.size(); a++)
        {
            const ActRef& A = h.act[a]; at("actor %zu of %zu", a, av.size());
            auto pairState = [&](int mask, const Mesh& m) { int v = 0; for (size_t k = 0; k < A.node.size(); k++) if ((A.mode[k] & mask) && h.has[A.node[k]]) { int c = hit(w.node(A.node[k], g), m, ext); if (c == 1) return 1; if (c < 0) v = -1; } return v; };
            auto judge = [&](int v, bool got, const char* key) { if (v >= 0) { check((v == 1) == got, key, "reported %d, expected %d", (int)got, v); count(v ? "query-hit" : "query-free"); } };
            for (size_t i = 0; i < ts.size(); i++) { int mask = r.pick({1, 2, 3}); judge(pairState(mask, w.thing(i)), av[a]->isColliding(SceneObjectPtr(ts[i].o), (Act::CollisionMode)mask), "query/object"); EndEffector::ContactInfoVector ci; judge(pairState(mask, w.thing(i)), av[a]->isColliding(h.e, SceneObjectPtr(ts[i].o), ci, (Act::CollisionMode)mask), "query/object-contacts"); for (auto& c : ci) check(c.obstacle == ts[i].o && c.actor == av[a] && c.eef == h.e && av[a]->hasNode(c.robotNode), "query/contact-bodies", "wrong bodies"); }
            if (!ts.empty()) { SceneObjectSetPtr set(new SceneObjectSet("s", h.p->getCollisionChecker())); int v = 0; for (size_t i = 0; i < ts.size(); i++) { set->addSceneObject(ts[i].o); int c = pairState(3, w.thing(i)); if (c == 1) v = 1; else if (c < 0 && v == 0) v = -1; } judge(v, av[a]->isColliding(set), "query/set"); }
            int other = 0, full = 0; auto fold = [](int& s2, int v) { if (v == 1) s2 = 1; else if (v < 0 && s2 == 0) s2 = -1; };
            for (size_t b = 0; b < av.size(); b++) if (b != a) { int v = 0; for (size_t k = 0; k < A.node.size(); k++) if ((A.mode[k] & 1) && h.has[A.node[k]]) for (size_t l = 0; l < h.act[b].node.size(); l++) if (h.act[b].mode[l] && h.has[h.act[b].node[l]]) fold(v, hit(w.node(A.node[k], g), w.node(h.act[b].node[l], g), ext)); judge(v, av[a]->isColliding(av[b]), "query/actor"); fold(other, v); }
            full = other; for (int st : h.stat) if (h.has[st]) fold(full, pairState(2, w.node(st, g))); judge(full, av[a]->isColliding(h.e), "query/hand"); EndEffector::ContactInfoVector cv; judge(full, av[a]->isColliding(h.e, h.e, cv), "query/hand-contacts");
            // one step without collision checks
            float step = (float)r.u(-0.3, 0.3); std::vector<double> q1 = h.q(); bool done = av[a]->moveActor(step), moved = false, edge = false; std::vector<double> q2 = h.q();
            for (size_t i = 0; i < q1.size(); i++) { int k = -1; for (size_t j = 0; j < A.node.size(); j++) if (A.node[j] == (int)i) k = (int)j; double v = k < 0 ? q1[i] : (double)((float)q1[i] + step * (float)A.dir[k]); const NodeDef& n = h.d.n[i]; if (k >= 0) { double m = 1e-5 * (1 + std::fabs(v)); if (std::fabs(v - n.lo) < m || std::fabs(v - n.hi) < m) { edge = true; continue; } if (v > n.hi || v < n.lo) v = q1[i]; else moved = true; } checkNear(q2[i], v, 2e-5 * (1 + std::fabs(v)), "step/value"); }
            if (!edge) check(done == !moved, "step/finished", "reported %d", (int)done); g = h.d.fk(h.root, h.q()); ev(3);
        }
        sig(hm(5, g.back()));
    }
}
// preshapes, configurations, node queries, copies
static void state(Rng& r)
{
    Hand h = genHand(r); randomConfig(r, h, false); std::set<int> part; part.insert({h.base, h.tcp, h.gcp}); for (auto& a : h.act) part.insert(a.node.begin(), a.node.end()); part.insert(h.stat.begin(), h.stat.end());
    auto N = [&](int i) { return h.p->getRobotNode(h.d.n[i].name); };
    check(h.e->getBase() == N(h.base) && h.e->getTcp() == N(h.tcp) && h.e->getGCP() == N(h.gcp) && h.e->getBaseNodeName() == h.d.n[h.base].name && h.e->getTcpName() == h.d.n[h.tcp].name && h.e->getRobot() == h.p && h.e->getRobotType() == h.d.type && h.e->getName() == "Hand", "state/frames", "wrong frames"); check(h.p->getEndEffector("Hand") == h.e && h.p->hasEndEffector("Hand"), "state/registered", "not registered");
    auto allN = h.e->getAllNodes(); std::set<std::string> an; for (auto& n : allN) an.insert(n->getName()); check(an.size() == allN.size() && an.size() == part.size(), "state/all-nodes", "%zu nodes, %zu expected", allN.size(), part.size());
    for (size_t i = 0; i < h.d.n.size(); i++) { check(h.e->hasNode(N((int)i)) == (part.count((int)i) > 0) && an.count(h.d.n[i].name) == part.count((int)i), "state/has-node", "%s", h.d.n[i].name.c_str()); }
    // nodes that are sufficient
    { std::vector<RobotNodePtr> v; for (int i : part) v.push_back(N(i)); r.shuffle(v); check(h.e->nodesSufficient(v), "state/sufficient", "all nodes are not sufficient"); int k = r.i(0, (int)v.size() - 1); std::string miss = v[k]->getName(); v.erase(v.begin() + k); check(!h.e->nodesSufficient(v), "state/not-sufficient", "sufficient without %s", miss.c_str()); }
    // preshapes
    std::map<std::string, std::map<std::string, float>> ps;
    for (int k = 0; k < 6; k++)
    {
        std::string nm = fmt("P%d", r.i(0, 3));
        if (r.p(0.5)) { RobotConfigPtr c(new RobotConfig(h.p, nm)); std::map<std::string, float> m; for (int i : part) if (h.d.n[i].type != FIX && r.p(0.7)) { float v = (float)r.u(h.d.n[i].lo, h.d.n[i].hi); c->setConfig(h.d.n[i].name, v); m[h.d.n[i].name] = v; } h.e->registerPreshape(c); ps[nm] = m; }
        else
        {
            randomConfig(r, h, false); std::vector<double> q0 = h.q(); bool ok = h.e->setPreshape(nm); check(ok == (ps.count(nm) > 0) && h.e->hasPreshape(nm) == ok && (bool)h.e->getPreshape(nm) == ok, "preshape/known", "%s", nm.c_str()); std::vector<double> q = h.q();
            for (size_t i = 0; i < q.size(); i++) { double want = q0[i]; if (ok && ps[nm].count(h.d.n[i].name)) want = ps[nm][h.d.n[i].name]; check(q[i] == want, "preshape/value", "%s is %.9g instead of %.9g", h.d.n[i].name.c_str(), q[i], want); } if (ok) { count("preshape"); auto g = h.d.fk(h.root, q); for (size_t i = 0; i < g.size(); i++) checkPose(N((int)i)->getGlobalPose(), g[i], 1e-4, posTol(g[i]), "preshape/pose"); }
        }
    }
    auto names = h.e->getPreshapes(); std::set<std::string> sn(names.begin(), names.end()); check(sn.size() == names.size() && sn.size() == ps.size(), "preshape/names", "%zu names, %zu registered", names.size(), ps.size()); for (auto& x : ps) check(sn.count(x.first), "preshape/names", "%s is missing", x.first.c_str());
    // configuration
    RobotConfigPtr c = h.e->getConfiguration(); auto jv = c->getRobotNodeJointValueMap(); size_t nj = 0; for (int i : part) if (h.d.n[i].type != FIX) { nj++; check(jv.count(h.d.n[i].name) && jv[h.d.n[i].name] == (float)N(i)->getJointValue(), "config/value", "%s", h.d.n[i].name.c_str()); } check(jv.size() == nj, "config/size", "%zu of %zu", jv.size(), nj);
    { std::vector<double> q0 = h.q(); randomConfig(r, h, false); std::vector<double> q1 = h.q(); h.p->setJointValues(c); std::vector<double> q = h.q(); for (size_t i = 0; i < q.size(); i++) check(q[i] == (part.count((int)i) && h.d.n[i].type != FIX ? q0[i] : q1[i]), "config/restore", "%s", h.d.n[i].name.c_str()); }
    // models
    SceneObjectSetPtr so = h.e->createSceneObjectSet(h.p->getCollisionChecker()); std::set<int> wantS(h.stat.begin(), h.stat.end()); for (auto& a : h.act) wantS.insert(a.node.begin(), a.node.end()); for (size_t i = 0; i < h.d.n.size(); i++) check(so->hasSceneObject(N((int)i)) == (wantS.count((int)i) > 0), "objects/member", "%s", h.d.n[i].name.c_str()); check(so->getSize() == wantS.size(), "objects/size", "%u of %zu", so->getSize(), wantS.size());
    // --- copies: the whole robot, the hand alone
    std::vector<double> q = h.q(); auto g = h.d.fk(h.root, q); bool alone = r.p(0.6); RobotPtr k;
    bool below = true; for (int i : part) below &= h.d.below(i, h.base); if (!below) alone = false;
    at(alone ? "the hand alone" : "a copy of the robot"); if (alone) k = h.e->createEefRobot("NewType", "NewName"); else k = h.p->clone("Copy"); if (!check((bool)k && k->hasEndEffector("Hand"), "copy/no-hand", "the copy has no end effector")) return;
    EndEffectorPtr e2 = k->getEndEffector("Hand"); M4 rel = M4::Identity(); if (alone) { check(k->getType() == "NewType" && k->getName() == "NewName", "copy/names", "%s %s", k->getType().c_str(), k->getName().c_str()); check(k->getRootNode() && k->getRootNode()->getName() == h.d.n[h.base].name, "copy/root", "wrong root"); check(k->getGlobalPose() == Eigen::Matrix4f::Identity(), "copy/pose", "not at the origin"); rel = k->getRobotNode(h.d.n[h.base].name)->getGlobalPose().cast<double>() * inv(g[h.base]); }
    for (size_t i = 0; i < h.d.n.size(); i++) { bool in = !alone || h.d.below((int)i, h.base); check(k->hasRobotNode(h.d.n[i].name) == in, "copy/nodes", "%s", h.d.n[i].name.c_str()); if (in) { RobotNodePtr n = k->getRobotNode(h.d.n[i].name); check(n != N((int)i), "copy/shared", "%s is shared", h.d.n[i].name.c_str()); checkPose(n->getGlobalPose(), M4(rel * g[i]), 2e-4, 0.05 + posTol(g[i]), "copy/node-pose"); check((bool)n->getCollisionModel() == (bool)h.has[i], "copy/model", "%s", h.d.n[i].name.c_str()); } }
    check(e2->getRobot() == k && e2->getTcpName() == h.d.n[h.tcp].name && e2->getGCP()->getName() == h.d.n[h.gcp].name && e2->getBaseNodeName() == h.d.n[h.base].name && e2->getGCP()->getRobot() == k && e2->getTcp()->getRobot() == k, "copy/frames", "wrong frames");
    std::vector<EndEffectorActorPtr> a1, a2; h.e->getActors(a1); e2->getActors(a2); std::vector<RobotNodePtr> s1, s2; h.e->getStatics(s1); e2->getStatics(s2);
    if (check(a1.size() == a2.size() && s1.size() == s2.size(), "copy/parts", "%zu actors, %zu static parts", a2.size(), s2.size())) { for (size_t i = 0; i < s2.size(); i++) check(s2[i] && s2[i]->getRobot() == k && s2[i]->getName() == s1[i]->getName(), "copy/static", "static part %zu", i); for (size_t a = 0; a < a1.size(); a++) { auto d1 = a1[a]->getDefinition(), d2 = a2[a]->getDefinition(); check(a1[a]->getName() == a2[a]->getName() && d1.size() == d2.size(), "copy/actor", "actor %zu", a); for (size_t i = 0; i < d1.size() && i < d2.size(); i++) check(d2[i].robotNode && d2[i].robotNode->getRobot() == k && d2[i].robotNode->getName() == d1[i].robotNode->getName() && d2[i].colMode == d1[i].colMode && d2[i].directionAndSpeed == d1[i].directionAndSpeed, "copy/actor-node", "actor %zu node %zu", a, i); } }
    auto n2 = e2->getPreshapes(); check(std::set<std::string>(n2.begin(), n2.end()) == sn, "copy/preshapes", "%zu of %zu", n2.size(), sn.size()); for (auto& x : ps) if (e2->setPreshape(x.first)) for (auto& y : x.second) check((float)k->getRobotNode(y.first)->getJointValue() == y.second, "copy/preshape-value", "%s", y.first.c_str());
    check(h.q() == q, "copy/original-moved", "using the copy moved the original"); count(alone ? "alone" : "copied"); ev(8); sig(hm(9, g.back()));
}
static void handCase(Rng& r) { int k = r.i(0, 9); if (k < 6) closing(r); else if (k < 8) queries(r); else for (int i = 0; i < 3; i++) state(r); }
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C25", handCase, 320, 9000}}); }
