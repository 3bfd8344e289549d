// C09 pairwise collision and distance queries, C10 sets, robots and the collision manager
#include "mesh.h"
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
using namespace vh;
using namespace VirtualRobot;
static double tolOf(double ext) { return 2e-3 + 2e-5 * ext; }
struct Obj { Mesh local; CollisionModelPtr c; M4 pose; Mesh world() const { return local.moved(pose); } };
static M4 nearPose(Rng& r, double ext, double spread)
{
    M4 m = r.pose(0); V3 d = r.dir() * spread * r.u(0, 1); m.block<3, 1>(0, 3) = d; (void)ext; return toF(m);
}
// judge one pair of queries against the reference
static void judge(const std::string& k, const PairRef& ref, double tol, bool coll, double dist, const V3* P1, const V3* P2, const Mesh* A, const Mesh* B)
{
    bool sure = false;
    if (ref.depth > 2 * tol) { sure = true; check(coll, k + "/missed-collision", "surfaces cross by %.4g but no collision was reported", ref.depth); }
    else if (ref.depth < 0 && ref.dist > tol) { sure = true; check(!coll, k + "/phantom-collision", "surfaces are %.6g apart but a collision was reported", ref.dist); }
    if (!sure) { count("borderline"); return; }
    count(ref.depth > 0 ? "colliding" : "separate");
    if (dist > -1e8)
    {
        checkNear(dist, ref.dist, tol, k + "/distance");
        check((dist <= tol) == coll || ref.dist <= 2 * tol, k + "/distance-vs-collision", "distance %.6g, collision %d", dist, (int)coll);
        if (P1 && ref.depth < 0)
        {
            double a = pointMesh(*P1, *A), b = pointMesh(*P2, *B);
            check(a <= tol, k + "/point1-on-model1", "nearest point 1 is %.6g off its model (distance %.6g)", a, ref.dist);
            check(b <= tol, k + "/point2-on-model2", "nearest point 2 is %.6g off its model (distance %.6g)", b, ref.dist);
            checkNear((*P1 - *P2).norm(), dist, 2 * tol, k + "/points-vs-distance");
        }
    }
}
static void c09(Rng& r)
{
    CollisionCheckerPtr cc = r.p(0.5) ? CollisionChecker::getGlobalCollisionChecker() : CollisionCheckerPtr(new CollisionChecker());
    double e = r.pick({10.0, 100.0, 100.0, 700.0});
    Obj o[2];
    for (int k = 0; k < 2; k++)
    {
        double ek = k ? e * r.pick({0.05, 0.3, 1.0, 1.0}) : e;
        o[k].local = genMesh(r, ek);
        bool prim = r.p(0.1);
        if (prim) { V3 s(F(r.u(.2, 2) * ek), F(r.u(.2, 2) * ek), F(r.u(.2, 2) * ek)); o[k].local = boxMesh(s); o[k].c.reset(new CollisionModel(boxVis(s), "b", cc)); count("primitive"); }
        else o[k].c = meshCol(o[k].local, cc);
        TriMeshModelPtr t = o[k].c->getTriMeshModel();
        check(t && t->faces.size() == o[k].local.f.size(), "model/face-count", "collision model has %d faces, mesh has %d", t ? (int)t->faces.size() : -1, (int)o[k].local.f.size());
        o[k].pose = M4::Identity();
    }
    sample(fmt("two meshes of %d and %d triangles, extent %.0f", (int)o[0].local.f.size(), (int)o[1].local.f.size(), e));
    int N = 14;
    for (int step = 0; step < N; step++)
    {
        // history of moves: each step moves one or both models
        int w = r.i(0, 2);
        double base = r.pick({0.0, 0.0, 1e3, 1e4 * (e > 50)});
        V3 off = base * r.dir();
        for (int k = 0; k < 2; k++) if (w == 2 || w == k || step == 0)
        {
            int how = r.i(0, 9);
            M4 p = nearPose(r, e, how == 0 ? 0 : how < 6 ? e * 1.5 : e * 4);
            if (how == 9 && step) p = o[1 - k].pose;   // coincident frames
            else if (w == 2 || step == 0) p.block<3, 1>(0, 3) += off; else p.block<3, 1>(0, 3) += o[1 - k].pose.block<3, 1>(0, 3);
            o[k].pose = toF(p); o[k].c->setGlobalPose(f4(o[k].pose));
        }
        int op = r.i(0, 11);
        if (op == 0) { int k = r.i(0, 1); bool deep = r.p(0.5); CollisionModelPtr c2 = o[k].c->clone(cc, 1.0f, deep); if (r.p(0.5)) { CollisionModelPtr old = o[k].c; o[k].c = c2; old->setGlobalPose(f4(toF(r.pose(e)))); } else c2->setGlobalPose(f4(toF(r.pose(e)))); count("clone"); }
        if (op == 1) { int k = r.i(0, 1); float s = r.f(0.3, 2.5); o[k].c = o[k].c->clone(cc, s, true); for (auto& v : o[k].local.v) v *= s; count("scaled-clone"); }
        if (op == 2) { int k = r.i(0, 1); o[k].c->setUpdateVisualization(r.p(0.5)); }
        Mesh A = o[0].world(), B = o[1].world();
        PairRef ref = pairRef(A, B);
        double ext = std::max(std::max(o[0].local.ext(), o[1].local.ext()), (o[0].pose.block<3, 1>(0, 3) - o[1].pose.block<3, 1>(0, 3)).norm()), tol = tolOf(ext) + 4e-7 * (o[0].pose.block<3, 1>(0, 3).norm() + o[1].pose.block<3, 1>(0, 3).norm());
        sig(hm(hm(7, o[0].pose), o[1].pose));
        Eigen::Vector3f p1, p2; int i1 = 0, i2 = 0;
        at(fmt("step %d ref dist %.6g depth %.6g poses [%s] [%s]", step, ref.dist, ref.depth, ms(o[0].pose).c_str(), ms(o[1].pose).c_str()));
        bool c12 = cc->checkCollision(o[0].c, o[1].c), c21 = cc->checkCollision(o[1].c, o[0].c);
        float d12 = cc->calculateDistance(o[0].c, o[1].c, p1, p2, &i1, &i2);
        V3 q1 = p1.cast<double>(), q2 = p2.cast<double>();
        judge("pair", ref, tol, c12, d12, &q1, &q2, &A, &B);
        float d21 = cc->calculateDistance(o[1].c, o[0].c, p1, p2, &i1, &i2); q1 = p1.cast<double>(); q2 = p2.cast<double>();
        judge("swapped", ref, tol, c21, d21, &q1, &q2, &B, &A);
        { bool c2 = cc->checkCollision(o[0].c, o[1].c); float d2 = cc->calculateDistance(o[0].c, o[1].c); check(c2 == c12 && std::fabs(d2 - d12) <= tol, "pair/repeatable", "the same query gave another answer: collision %d then %d, distance %.9g then %.9g", (int)c12, (int)c2, d12, d2); }
        std::vector<CollisionModelPtr> v1{o[0].c}; check(cc->checkCollision(v1, o[1].c) == c12, "pair/vector-overload", "overloads disagree");
        // point queries
        for (int k = 0; k < 2; k++)
        {
            const Mesh& W = k ? B : A; const auto& t = W.f[r.i(0, W.f.size() - 1)];
            double tl = r.pick({0.0, 0.01, 0.1, 0.5, 2.0}) * e; double off2 = r.pick({0.0, 0.3, 0.9, 1.1, 3.0}) * (tl + 0.02 * e);
            V3 p = W.v[t[0]] * 0.5 + W.v[t[1]] * 0.3 + W.v[t[2]] * 0.2 + r.dir() * off2; for (int i = 0; i < 3; i++) p(i) = F(p(i));
            double d = pointMesh(p, W); bool got = cc->checkCollision(o[k].c, p.cast<float>().eval(), (float)tl);
            if (std::fabs(d - tl) > tol + 1e-4) { check(got == (d < tl), d <= tol ? "point/touching-tolerance" : "point/tolerance", "point at distance %.6g, tolerance %.6g, reported %d, point %s, scale %.4g, faces %d", d, tl, (int)got, ms(p).c_str(), e, (int)W.f.size()); count(d < tl ? "point-near" : "point-far"); }
        }
        // plane contacts
        {
            int k = r.i(0, 1); const Mesh& W = k ? B : A; V3 n = r.dir(); for (int i = 0; i < 3; i++) n(i) = F(n(i)); V3 pp = W.v[r.i(0, W.v.size() - 1)] + n * r.u(-0.3, 0.3) * e; for (int i = 0; i < 3; i++) pp(i) = F(pp(i)); double md = r.pick({0.01, 0.1, 0.5}) * e;
            std::vector<MathTools::ContactPoint> con; MathTools::Plane pl(pp.cast<float>(), n.cast<float>()); cc->getContacts(pl, o[k].c, con, (float)md);
            std::set<int> used; for (auto& t : W.f) for (int i : t) used.insert(i);
            for (int i : used) { double d = n.dot(W.v[i] - pp); if (std::fabs(d) < md - tol) { double best = INFINITY; for (auto& c : con) best = std::min(best, (c.p.cast<double>() - W.v[i]).norm()); check(best <= tol, "plane-contacts/missing", "vertex %.6g from the plane (limit %.6g) is not a contact", d, md); count("plane-contact"); } }
            for (auto& c : con) { double d = n.dot(c.p.cast<double>() - pp), best = INFINITY; for (int i : used) best = std::min(best, (c.p.cast<double>() - W.v[i]).norm()); check(best <= tol, "plane-contacts/not-a-vertex", "contact is not a vertex"); check(d <= md + tol, "plane-contacts/too-far", "contact %.6g above the plane, limit %.6g", d, md); checkMat(c.n, n, 1e-5, "plane-contacts/normal"); }
        }
        // common rigid motion changes nothing
        if (r.p(0.3))
        {
            M4 g = r.pose(e * 3); M4 a = toF(g * o[0].pose), b = toF(g * o[1].pose); o[0].c->setGlobalPose(f4(a)); o[1].c->setGlobalPose(f4(b));
            Mesh A2 = o[0].local.moved(a), B2 = o[1].local.moved(b); bool c = cc->checkCollision(o[0].c, o[1].c); float d = cc->calculateDistance(o[0].c, o[1].c, p1, p2, &i1, &i2); q1 = p1.cast<double>(); q2 = p2.cast<double>();
            double t2 = tol * 3 + 1e-5 * e; judge("moved", ref, t2, c, d, &q1, &q2, &A2, &B2);
            o[0].pose = a; o[1].pose = b;
        }
    }
}
struct Item { std::string name; std::vector<Mesh> parts; SceneObjectPtr so; RobotPtr rob; std::function<std::vector<Mesh>()> world; };
static PairRef multiRef(const std::vector<Mesh>& a, const std::vector<Mesh>& b)
{
    PairRef r; for (auto& x : a) for (auto& y : b) { PairRef p = pairRef(x, y); r.dist = std::min(r.dist, p.dist); r.depth = std::max(r.depth, p.depth); } if (r.depth >= 0) r.dist = 0; return r;
}
static double pts(const V3& p, const std::vector<Mesh>& w) { double d = INFINITY; for (auto& m : w) d = std::min(d, pointMesh(p, m)); return d; }
// ambiguous references (touching within tolerance) settle nothing
static bool clearRef(const PairRef& r, double tol) { return r.depth > 2 * tol || (r.depth < 0 && r.dist > tol); }
static void judgeM(const std::string& k, const PairRef& ref, double tol, int coll, const float* dist, const V3* P1, const V3* P2, const std::vector<Mesh>* A, const std::vector<Mesh>* B)
{
    if (!clearRef(ref, tol)) { count("borderline"); return; }
    bool c = ref.depth > 0; count(c ? "colliding" : "separate");
    if (coll >= 0) check((coll != 0) == c, k + (c ? "/missed-collision" : "/phantom-collision"), "reported %d, reference depth %.6g distance %.6g", coll, ref.depth, ref.dist);
    if (dist) checkNear(*dist, ref.dist, tol, k + "/distance");
    if (P1 && !c)
    {
        check(pts(*P1, *A) <= tol, k + "/point1", "nearest point 1 is %.6g off the first object", pts(*P1, *A)); check(pts(*P2, *B) <= tol, k + "/point2", "nearest point 2 is %.6g off the second object", pts(*P2, *B));
        checkNear((*P1 - *P2).norm(), ref.dist, 2 * tol, k + "/points-vs-distance");
    }
}
static void c10(Rng& r)
{
    CollisionCheckerPtr cc = CollisionChecker::getGlobalCollisionChecker();
    double e = 100; double area = r.pick({250.0, 400.0, 800.0});
    std::vector<std::shared_ptr<Item>> items; std::vector<M4> poses(40, M4::Identity());
    int nObj = r.i(3, 7), nRob = r.i(0, 2);
    for (int i = 0; i < nObj; i++)
    {
        auto it = std::make_shared<Item>(); it->name = fmt("o%d", i);
        Mesh m = r.p(0.5) ? boxMesh(V3(e * r.u(.2, 1), e * r.u(.2, 1), e * r.u(.2, 1))) : starMesh(r, e * r.u(.2, .6), 0.3, 3, 4);
        for (auto& v : m.v) for (int k = 0; k < 3; k++) v(k) = F(v(k));
        SceneObjectPtr so; if (r.p(0.5)) so.reset(new SceneObject(it->name, VisualizationNodePtr(), meshCol(m, cc), SceneObject::Physics(), cc)); else so.reset(new Obstacle(it->name, meshVis(m), meshCol(m, cc), SceneObject::Physics(), cc));
        it->so = so; it->parts = {m}; Item* raw = it.get(); it->world = [raw]() { return std::vector<Mesh>{raw->parts[0].moved(raw->so->getGlobalPose().cast<double>())}; };
        items.push_back(it);
    }
    for (int i = 0; i < nRob; i++)
    {
        auto it = std::make_shared<Item>(); it->name = fmt("r%d", i);
        GenOpt go; go.models = true; go.prop = false; go.reach = 150; go.maxNodes = 5; go.sensors = false; go.limitless = false;
        auto d = std::make_shared<RobotDef>(genRobot(r, go)); d->n[0].col = true;
        RobotPtr rob = build(*d, r.p(0.5)); it->rob = rob; it->so = rob;
        it->world = [d, rob]() { std::vector<double> q; for (auto& n : d->n) q.push_back(n.type == FIX ? 0.0 : rob->getRobotNode(n.name)->getJointValue()); auto g = d->fk(rob->getGlobalPose().cast<double>(), q); std::vector<Mesh> o; for (size_t k = 0; k < d->n.size(); k++) if (d->n[k].col) o.push_back(boxMesh(d->n[k].box).moved(g[k])); return o; };
        items.push_back(it);
    }
    // sets of objects (robots enter a set through their nodes)
    struct Set { SceneObjectSetPtr s; std::vector<std::vector<SceneObjectPtr>> dummy; std::vector<std::function<std::vector<Mesh>()>> members; bool hasModel = false; };
    std::vector<Set> sets; std::vector<int> order; for (size_t i = 0; i < items.size(); i++) order.push_back(i); r.shuffle(order);
    size_t pos = 0;
    while (pos < order.size())
    {
        Set s; s.s.reset(new SceneObjectSet(fmt("s%d", (int)sets.size()), cc)); int n = r.i(1, 3);
        for (int k = 0; k < n && pos < order.size(); k++, pos++)
        {
            auto it = items[order[pos]];
            if (it->rob) { bool ok = s.s->addSceneObjects(it->rob->getRobotNodes()); check(ok, "set/add-robot", "nodes not added"); check(!s.s->addSceneObject(it->rob->getRobotNodes()[0]), "set/duplicate", "duplicate accepted"); }
            else { check(s.s->addSceneObject(it->so), "set/add", "object not added"); check(!s.s->addSceneObject(it->so), "set/duplicate", "duplicate accepted"); }
            s.members.push_back(it->world);
        }
        if (r.p(0.2)) { SceneObjectPtr tmp(new SceneObject("tmp", VisualizationNodePtr(), CollisionModelPtr(), SceneObject::Physics(), cc)); s.s->addSceneObject(tmp); if (r.p(0.5)) { check(s.s->removeSceneObject(tmp) && !s.s->hasSceneObject(tmp), "set/remove", "object not removed"); } }
        sets.push_back(s);
    }
    bool hollow = r.p(0.3); if (hollow) { for (int k = r.i(1, 2); k > 0; k--) { Set s; s.s.reset(new SceneObjectSet(fmt("empty%d", k), cc)); sets.insert(sets.begin() + r.i(0, (int)sets.size()), s); } count("empty-set"); }
    auto setWorld = [](const Set& s) { std::vector<Mesh> o; for (auto& f : s.members) for (auto& m : f()) o.push_back(m); return o; };
    // the manager: random additions, mirrored by a set of unordered pairs
    CDManager man(cc); std::set<std::pair<int, int>> pairs; std::set<int> in; std::map<int, int> wrapped;   // item added alone -> pseudo set
    struct Entry { std::function<std::vector<Mesh>()> w; SceneObjectSetPtr s; }; std::vector<Entry> ent;
    auto entryOf = [&](int set) { for (size_t i = 0; i < ent.size(); i++) if (ent[i].s == sets[set].s) return (int)i; Set s = sets[set]; ent.push_back({[s, setWorld]() { return setWorld(s); }, s.s}); return (int)ent.size() - 1; };
    for (int k = 0; k < r.i(1, 8); k++)
    {
        int op = r.i(0, 3);
        if (op <= 1) { int s = r.i(0, sets.size() - 1); int x = entryOf(s); for (int y : in) if (y != x) pairs.insert({std::min(x, y), std::max(x, y)}); in.insert(x); at("CDManager::addCollisionModel(set)"); man.addCollisionModel(sets[s].s); }
        else if (sets.size() >= 2) { int a = r.i(0, sets.size() - 1), b = r.i(0, sets.size() - 1); if (a == b) continue; int x = entryOf(a), y = entryOf(b); pairs.insert({std::min(x, y), std::max(x, y)}); in.insert(x); in.insert(y); at("CDManager::addCollisionModelPair"); man.addCollisionModelPair(sets[a].s, sets[b].s); }
    }
    check(man.getSceneObjectSets().size() == in.size(), "manager/sets", "manager holds %d sets, %d were added", (int)man.getSceneObjectSets().size(), (int)in.size());
    for (auto& s : sets) { bool want = false; for (int x : in) want |= ent[x].s == s.s; check(man.hasSceneObjectSet(s.s) == want, "manager/has-set", "membership"); }
    CDManager man2(cc); SceneObjectPtr single; int nSingle = 0;   // objects added one by one: all pairs
    std::vector<std::function<std::vector<Mesh>()>> singles; for (auto& it : items) if (!it->rob && r.p(0.7)) { at("CDManager::addCollisionModel(object)"); man2.addCollisionModel(it->so); check(man2.hasSceneObject(it->so), "manager/has-object", "object not found"); singles.push_back(it->world); nSingle++; }
    sample(fmt("%d objects, %d robots, %d sets, %d manager pairs", nObj, nRob, (int)sets.size(), (int)pairs.size()));
    for (int step = 0; step < 8; step++)
    {
        for (auto& it : items) if (step == 0 || r.p(0.5))
        {
            M4 p = r.pose(area / 2); if (it->rob) { it->rob->setGlobalPose(f4(toF(p))); std::map<std::string, float> q; for (auto n : it->rob->getRobotNodes()) if (n->isTranslationalJoint() || n->isRotationalJoint()) q[n->getName()] = r.f(n->getJointLimitLo(), n->getJointLimitHi()); it->rob->setJointValues(q); }
            else it->so->setGlobalPose(f4(toF(p)));
        }
        double tol = 0.05; uint64_t hs = 3;
        std::vector<std::vector<Mesh>> w; for (auto& it : items) { w.push_back(it->world()); for (auto& m : w.back()) hs = hm(hs, m.v[0]); } sig(hs);
        Eigen::Vector3f p1, p2; int i1, i2;
        // object against object through the convenience interface
        for (int k = 0; k < 4; k++)
        {
            int a = r.i(0, items.size() - 1), b = r.i(0, items.size() - 1); if (a == b) continue; PairRef ref = multiRef(w[a], w[b]);
            at(fmt("object %s against %s", items[a]->name.c_str(), items[b]->name.c_str()));
            float d = cc->calculateDistance(items[a]->so, items[b]->so), d2 = cc->calculateDistance(items[a]->so, items[b]->so, p1, p2, &i1, &i2); V3 q1 = p1.cast<double>(), q2 = p2.cast<double>();
            judgeM("object", ref, tol, cc->checkCollision(items[a]->so, items[b]->so), &d, &q1, &q2, &w[a], &w[b]); checkNear(d2, d, 1e-6, "object/distance-overloads");
        }
        // object against set, set against set
        for (int k = 0; k < 3; k++)
        {
            int a = r.i(0, items.size() - 1), b = r.i(0, sets.size() - 1); std::vector<Mesh> ws = setWorld(sets[b]); bool member = false; for (auto so : sets[b].s->getSceneObjects()) { member |= so == items[a]->so; if (items[a]->rob) for (auto n : items[a]->rob->getRobotNodes()) member |= so == n; }
            if (ws.empty()) { if (!member) check(!cc->checkCollision(items[a]->so, sets[b].s), "object-empty-set/phantom-collision", "an empty set collides"); continue; }
            if (!member) { PairRef ref = multiRef(w[a], ws); at("object against set"); float d = cc->calculateDistance(items[a]->so, sets[b].s, p1, p2, &i1, &i2); V3 q1 = p1.cast<double>(), q2 = p2.cast<double>(); judgeM("object-set", ref, tol, cc->checkCollision(items[a]->so, sets[b].s), &d, &q1, &q2, &w[a], &ws); }
            int c = r.i(0, sets.size() - 1); if (c == b) continue; std::vector<Mesh> wc = setWorld(sets[c]); if (wc.empty()) { check(!cc->checkCollision(sets[b].s, sets[c].s), "set-empty-set/phantom-collision", "an empty set collides"); continue; } PairRef ref = multiRef(ws, wc); at("set against set");
            float d = cc->calculateDistance(sets[b].s, sets[c].s, p1, p2, &i1, &i2); V3 q1 = p1.cast<double>(), q2 = p2.cast<double>(); judgeM("set-set", ref, tol, cc->checkCollision(sets[b].s, sets[c].s), &d, &q1, &q2, &ws, &wc);
            V3 pt = V3(r.u(-area, area), r.u(-area, area), r.u(-area, area)) / 2; for (int i = 0; i < 3; i++) pt(i) = F(pt(i)); double pd = pts(pt, ws), tl = r.u(0, area / 2); if (std::fabs(pd - tl) > tol) check(cc->checkCollision(sets[b].s, pt.cast<float>().eval(), (float)tl) == (pd < tl), "set-point/tolerance", "point at %.6g, tolerance %.6g", pd, tl);
        }
        // manager
        PairRef all; bool amb = false; for (auto& p : pairs) { PairRef q = multiRef(ent[p.first].w(), ent[p.second].w()); amb |= !clearRef(q, tol); all.dist = std::min(all.dist, q.dist); all.depth = std::max(all.depth, q.depth); }
        if (hollow && !pairs.empty() && !amb) { at("manager with empty sets"); judgeM("manager-hollow", all, tol, man.isInCollision(), nullptr, nullptr, nullptr, nullptr, nullptr); count("manager-hollow"); }
        else if (!pairs.empty() && !amb)
        {
            at("manager, all pairs"); float d = man.getDistance(); float d2 = man.getDistance(p1, p2, i1, i2); std::vector<Mesh> u; for (auto& it : w) for (auto& m : it) u.push_back(m);
            V3 q1 = p1.cast<double>(), q2 = p2.cast<double>(); judgeM("manager", all, tol, man.isInCollision(), &d, &q1, &q2, &u, &u); checkNear(d2, d, 1e-6, "manager/distance-overloads"); count("manager");
        }
        for (size_t s = 0; s < sets.size(); s++)
        {
            PairRef q; bool am = false, any = false; std::vector<Mesh> ws = setWorld(sets[s]), rest; for (int x : in) if (ent[x].s != sets[s].s) { any = true; auto wx = ent[x].w(); PairRef t = multiRef(ws, wx); am |= !clearRef(t, tol); q.dist = std::min(q.dist, t.dist); q.depth = std::max(q.depth, t.depth); for (auto& m : wx) rest.push_back(m); }
            if (!any || am) continue; if (hollow) { if (!ws.empty()) judgeM("manager-hollow-set", q, tol, man.isInCollision(sets[s].s), nullptr, nullptr, nullptr, nullptr, nullptr); else check(!man.isInCollision(sets[s].s), "manager-hollow-set/empty", "an empty set collides"); continue; } at(man.hasSceneObjectSet(sets[s].s) ? "manager against a managed set" : "manager against another set");
            float d = man.getDistance(sets[s].s), d2 = man.getDistance(sets[s].s, p1, p2, i1, i2); V3 q1 = p1.cast<double>(), q2 = p2.cast<double>(); judgeM("manager-set", q, tol, man.isInCollision(sets[s].s), &d, nullptr, nullptr, nullptr, nullptr); judgeM("manager-set-points", q, tol, -1, &d2, &q1, &q2, &ws, &rest);
        }
        if (nSingle >= 2) { PairRef q; bool am = false; for (size_t a = 0; a < singles.size(); a++) for (size_t b = a + 1; b < singles.size(); b++) { PairRef t = multiRef(singles[a](), singles[b]()); am |= !clearRef(t, tol); q.dist = std::min(q.dist, t.dist); q.depth = std::max(q.depth, t.depth); } if (!am) { at("manager of single objects"); float d = man2.getDistance(); judgeM("manager-singles", q, tol, man2.isInCollision(), &d, nullptr, nullptr, nullptr, nullptr); } }
    }
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C09", c09, 4000, 60000}, {"C10", c10, 800, 40000}}); }
