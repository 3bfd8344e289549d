// C26: the dynamics world: what is in it, how bodies and models correspond, motion, contacts, robots.
#include "rob.h"
#include "mesh.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Primitive.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <SimDynamics/DynamicsWorld.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletObject.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.h>
using namespace vh; using namespace VirtualRobot; using namespace SimDynamics;
using Phys = SceneObject::Physics; using V3f = Eigen::Vector3f; using M4f = Eigen::Matrix4f;
static V3 mul(const M4& m, const V3& p) { return m.block<3, 3>(0, 0) * p + m.block<3, 1>(0, 3); }
static M4 ofBt(const btTransform& t) { M4 m = M4::Identity(); for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) m(a, b) = t.getBasis()[a][b]; m(a, 3) = t.getOrigin()[a] * 1000.0 / BulletObject::ScaleFactor; } return m; }
static V3 ofBt(const btVector3& v) { return V3(v.x(), v.y(), v.z()); }
static void checkV(const V3& got, const V3& want, double tol, const std::string& key, const char* what = "")
{ double e = (got - want).norm(); check(std::isfinite(e) && e <= tol, key, "%s: got (%.6g %.6g %.6g), expected (%.6g %.6g %.6g), off by %.4g > %.3g", what, got(0), got(1), got(2), want(0), want(1), want(2), e, tol); }

struct World
{
    DynamicsWorldPtr w; BulletEnginePtr e; BulletEngineConfigPtr c; V3 g; double local = 0; double time = 0;
    World(Rng& r, const V3& gravity, bool damp = true)
    {
        DynamicsWorld::Close(); c.reset(new BulletEngineConfig()); g = gravity; for (int k = 0; k < 3; k++) g(k) = F(g(k)); c->gravity = g.cast<float>();
        if (!damp) { c->bulletObjectDampingLinear = 0; c->bulletObjectDampingAngular = 0; }
        w = DynamicsWorld::Init(c); e = boost::dynamic_pointer_cast<BulletEngine>(w->getEngine());
    }
    ~World() { e.reset(); w.reset(); DynamicsWorld::Close(); }
    void step(double dt, int sub, double fixed)
    {
        e->stepSimulation(dt, sub, fixed); time += dt;
        btScalar l = (btScalar)local + (btScalar)dt; btScalar f = (btScalar)fixed; if (l >= f) { int n = int(l / f); l -= n * f; } local = l;
        checkNear(e->getSimTime(), time, 1e-9 + 1e-9 * time, "world/time");
    }
};
// what is expected of a body
struct Shape { SceneObjectPtr so; V3 com = V3::Zero(); bool exactBox = false; V3 lo, hi; double mass = 1; int sim = 3; double ext = 100; };
static Phys::SimulationType simOf(int k) { return k == 1 ? Phys::eStatic : k == 2 ? Phys::eKinematic : k == 3 ? Phys::eDynamic : Phys::eUnknown; }
static void grow(V3& lo, V3& hi, const M4& t, const V3& c, const M3& R, const V3& half) { V3 e = (t.block<3, 3>(0, 0) * R).cwiseAbs() * half, m = mul(t, c); lo = lo.cwiseMin(m - e); hi = hi.cwiseMax(m + e); }
static Shape genShape(Rng& r, int id, int sim, double e = 100)
{
    Shape s; s.sim = sim; s.ext = e; Phys p; p.massKg = r.p(0.1) ? 0.f : r.f(0.1f, 10.f); s.mass = p.massKg; p.simType = simOf(sim);
    bool custom = r.p(0.5); if (custom) { p.comLocation = Phys::eCustom; s.com = V3(F(r.u(-e, e) * 0.3), F(r.u(-e, e) * 0.3), F(r.u(-e, e) * 0.3)); p.localCoM = s.com.cast<float>(); } else p.comLocation = Phys::eVisuBBoxCenter;
    int k = r.i(0, 7); VisualizationNodePtr v; CollisionModelPtr c; std::string n = fmt("o%d", id); s.lo = V3::Constant(INFINITY); s.hi = -s.lo;
    if (k < 4)
    {
        std::vector<Primitive::PrimitivePtr> ps; M4 cur = M4::Identity(); int N = r.p(0.5) ? 1 : r.i(2, 3);
        for (int i = 0; i < N; i++)
        {
            Primitive::PrimitivePtr q; int t = r.i(0, 2); V3 d(F(r.u(0.2, 1) * e), F(r.u(0.2, 1) * e), F(r.u(0.2, 1) * e)); M4 tr = r.p(0.4) ? M4(M4::Identity()) : toF(r.pose(e)); V3 half;
            if (t == 0) { q.reset(new Primitive::Box(d(0), d(1), d(2))); half = d / 2; } else if (t == 1) { q.reset(new Primitive::Sphere(d(0))); half = V3::Constant(d(0)); } else { q.reset(new Primitive::Cylinder(d(0), d(1))); half = V3(d(0), d(1) / 2, d(0)); }
            q->transform = f4(tr); cur = cur * tr; ps.push_back(q);
            if (t == 0) grow(s.lo, s.hi, cur, V3::Zero(), M3::Identity(), half);
            else { M3 A = cur.block<3, 3>(0, 0); V3 m = cur.block<3, 1>(0, 3), x; if (t == 1) x = half; else for (int a = 0; a < 3; a++) x(a) = std::fabs(A(a, 1)) * half(1) + half(0) * std::sqrt(std::max(0.0, 1 - A(a, 1) * A(a, 1))); s.lo = s.lo.cwiseMin(m - x); s.hi = s.hi.cwiseMax(m + x); }
        }
        v = VisualizationFactory::first(nullptr)->getVisualizationFromPrimitives(ps); c.reset(new CollisionModel(v->clone(true), n + "_c", CollisionCheckerPtr()));
        s.exactBox = true; count("primitives");
        if (!c->getVisualization() || c->getVisualization()->primitives.empty()) { s.exactBox = false; count("primitives-lost"); }
    }
    else if (k < 7)
    {
        Mesh m = boxMesh(V3(e * r.u(0.2, 2), e * r.u(0.2, 2), e * r.u(0.2, 2))); bool box = r.p(0.6); if (!box) m = starMesh(r, e, 0.2, 4, 5); V3 sh(r.u(-e, e) * 0.3, r.u(-e, e) * 0.3, r.u(-e, e) * 0.3); for (auto& q : m.v) { for (int a = 0; a < 3; a++) q(a) = F(q(a) + sh(a)); s.lo = s.lo.cwiseMin(q); s.hi = s.hi.cwiseMax(q); }
        v = meshVis(m); c = meshCol(m); s.exactBox = box; count("meshes");
    }
    else { if (r.p(0.5)) v = boxVis(V3(e, e, e)); count("no-model"); }
    s.so.reset(new Obstacle(n, v, c, p)); if (!s.so) return s;
    if (!custom) { V3 m = s.so->getCoMLocal().cast<double>(); s.com = m; }   // checked by C12
    return s;
}
struct Body { Shape s; DynamicsObjectPtr d; BulletObjectPtr b; bool in = false; M4 pose; bool moved = false; };
static boost::shared_ptr<btRigidBody> rb(const Body& b) { return b.b->getRigidBody(); }
static M4 bodyModel(const Body& b) { return ofBt(rb(b)->getWorldTransform()) * T(-b.s.com(0), -b.s.com(1), -b.s.com(2)); }
static M4 modelPose(const Body& b) { return b.s.so->getGlobalPose().cast<double>(); }
static double sc(const M4& m) { return 1e-3 + 4e-6 * m.block<3, 1>(0, 3).norm(); }
static Body make(Rng& r, World& w, int id, int sim, double e = 100, double reach = 1000)
{
    Body b; b.s = genShape(r, id, sim, e); b.pose = toF(r.pose(reach)); b.s.so->setGlobalPose(f4(b.pose));
    b.d = w.w->CreateDynamicsObject(b.s.so); b.b = boost::dynamic_pointer_cast<BulletObject>(b.d);
    checkPose(modelPose(b), b.pose, 1e-5, sc(b.pose), "create/model-moved"); checkPose(bodyModel(b), b.pose, 1e-5, sc(b.pose) + 1e-5 * e, "create/body-pose");
    checkV(b.b->getComGlobal().block<3, 1>(0, 3).cast<double>(), mul(b.pose, b.s.com), sc(b.pose) + 1e-5 * e, "create/com");
    bool dyn = sim == 3 || sim == 0; double im = rb(b)->getInvMass(), m = b.s.mass > 0 ? b.s.mass : 1; checkNear(im, dyn ? 1 / (m * BulletObject::MassFactor) : 0, 1e-5 * (1 / (m * BulletObject::MassFactor)), "create/mass");
    check(b.d->getName() == b.s.so->getName() && b.d->getSceneObject() == b.s.so && b.d->getSimType() == simOf(sim), "create/info", "name or type differ");
    if (b.s.exactBox)
    {
        auto cs = rb(b)->getCollisionShape(); btVector3 lo(1e9, 1e9, 1e9), hi = -lo;   // supporting points: the boxes the engine computes include a margin
        auto ext = [&](btCollisionShape* sh, const btTransform& t) { auto x = dynamic_cast<btConvexShape*>(sh); if (!x) return; for (int a = 0; a < 3; a++) { btVector3 d(0, 0, 0); d[a] = 1; hi[a] = std::max(hi[a], (t * x->localGetSupportingVertex(d * t.getBasis()))[a]); lo[a] = std::min(lo[a], (t * x->localGetSupportingVertex(-d * t.getBasis()))[a]); } };
        if (cs->isCompound()) { auto c = (btCompoundShape*)cs; for (int i = 0; i < c->getNumChildShapes(); i++) ext(c->getChildShape(i), c->getChildTransform(i)); } else ext(cs, btTransform::getIdentity());
        double k = 1000.0 / BulletObject::ScaleFactor; V3 l = ofBt(lo) * k + b.s.com, h = ofBt(hi) * k + b.s.com;
        double tol = 0.02 * e + 1; at("shape %d child shapes", cs->isCompound() ? ((btCompoundShape*)cs)->getNumChildShapes() : 0); for (int a = 0; a < 3; a++) check(std::fabs(l(a) - b.s.lo(a)) <= tol && std::fabs(h(a) - b.s.hi(a)) <= tol, "create/shape", "extent along axis %d is %.5g..%.5g, the model's %.5g..%.5g", a, l(a), h(a), b.s.lo(a), b.s.hi(a)); count("shapes");
    }
    return b;
}
static void verify(World& w, std::vector<Body>& bs, int extra = 0)
{
    std::set<DynamicsObjectPtr> want; int in = 0; for (auto& b : bs) if (b.in) { want.insert(b.d); in++; }
    auto o = w.e->getObjects(); std::set<DynamicsObjectPtr> got(o.begin(), o.end()); size_t hit = 0; for (auto& x : want) hit += got.count(x);
    check(hit == want.size() && (int)o.size() == in + extra && got.size() == o.size(), "world/objects", "%zu objects listed (%zu of mine), %d added and not removed", o.size(), hit, in + extra);
    check(w.e->getBulletWorld()->getNumCollisionObjects() == in + extra, "world/bodies", "%d bodies simulated, %d objects added", w.e->getBulletWorld()->getNumCollisionObjects(), in + extra);
    for (auto& b : bs)
    {
        auto f = w.e->getObject(b.s.so->getName()); check(b.in ? f == b.d : f == nullptr, "world/lookup", "%s: %s", b.s.so->getName().c_str(), b.in ? "not found" : "found although removed");
        check((bool)rb(b)->isInWorld() == b.in, "world/in", "body %sin the world", b.in ? "not " : "");
    }
}
// correspondence of body and model after a step, given how the engine interpolates between fixed steps
static void verifyPose(World& w, Body& b, double fixed, const M4& before, bool stepped)
{
    M4 m = modelPose(b), y = bodyModel(b); double tol = sc(y) + 2e-5 * b.s.ext;
    check(m.allFinite() && y.allFinite(), "pose/finite", "pose is not finite"); if (!m.allFinite() || !y.allFinite()) return;
    M3 q = m.block<3, 3>(0, 0); check((q * q.transpose() - M3::Identity()).cwiseAbs().maxCoeff() < 1e-4 && q.determinant() > 0, "pose/rigid", "rotation off by %.3g", (q * q.transpose() - M3::Identity()).cwiseAbs().maxCoeff());
    bool dyn = b.s.sim == 3 || b.s.sim == 0;
    if (!b.in || !dyn) { checkPose(m, b.pose, 1e-5, tol, b.s.sim == 1 ? "static/moved" : b.s.sim == 2 ? "kinematic/moved" : "outside/moved"); checkPose(y, b.pose, 2e-5, tol, "still/body-moved"); count("unmoved"); return; }
    V3 v = ofBt(rb(b)->getInterpolationLinearVelocity()) * 1000.0 / BulletObject::ScaleFactor, om = ofBt(rb(b)->getInterpolationAngularVelocity());
    if (!rb(b)->isActive()) { double d = (mul(m, b.s.com) - mul(y, b.s.com)).norm(); check(d <= tol + 1.05 * fixed * 1000, "pose/asleep", "model %.4g mm from its sleeping body", d); count("asleep"); return; }
    double h = w.local - fixed; M4 com = T(b.s.com(0), b.s.com(1), b.s.com(2)), yc = y * com; double a = om.norm(); if (a * std::fabs(h) > 0.75) a = 0;   // beyond the engine's clamp
    M4 e = yc; e.block<3, 1>(0, 3) += v * h; if (a > 0) e.block<3, 3>(0, 0) = Eigen::AngleAxisd(a * h, om.normalized()).toRotationMatrix() * yc.block<3, 3>(0, 0); else if (om.norm() > 0) { count("fast-spin"); return; }
    e = e * inv(com); double sp = v.norm() * fixed; tol += 1e-4 * sp;
    checkPose(m, e, 2e-4, tol + 3e-4 * b.s.com.norm(), "pose/model-body"); count("synced"); ev(2);
}
static void history(Rng& r)
{
    int gk = r.i(0, 2); World w(r, gk == 0 ? V3(0, 0, -9.81) : gk == 1 ? V3(V3::Zero()) : V3(r.dir() * r.u(0, 20)), r.p(0.7)); std::vector<Body> bs; int floor = 0, id = 0; double fixed = r.pick({1.0 / 60, 0.01, 0.002});
    int ops = r.i(15, 40); bool used = false; std::set<std::pair<int, int>> off; std::set<int> offAll;
    for (int i = 0; i < ops; i++)
    {
        int k = r.i(0, 15); at("op %d kind %d objects %zu", i, k, bs.size());
        if (k <= 2 || bs.empty()) { if (bs.size() < 8) { bs.push_back(make(r, w, id++, r.i(0, 3))); Body& b = bs.back(); if (r.p(0.8)) { check(w.w->addObject(b.d), "add/result", "refused"); b.in = true; count("added"); } } }
        else if (k == 3) { Body& b = bs[r.i(0, (int)bs.size() - 1)]; bool was = b.in; w.w->addObject(b.d); b.in = true; count(was ? "added-twice" : "added"); }
        else if (k == 4) { Body& b = bs[r.i(0, (int)bs.size() - 1)]; bool was = b.in; check(w.w->removeObject(b.d) == was, "remove/result", "removing %s object", was ? "a present" : "an absent"); if (was) { b.pose = modelPose(b); if (b.s.sim == 3 || b.s.sim == 0) { b.s.so->setGlobalPose(f4(b.pose)); b.d->setPose(f4(b.pose)); b.pose = toF(b.pose); } } b.in = false; count("removed"); }
        else if (k == 5 && r.p(0.3) && bs.size() > 1) { int j = r.i(0, (int)bs.size() - 1); if (bs[j].in) w.w->removeObject(bs[j].d); bs.erase(bs.begin() + j); off.clear(); offAll.clear(); for (auto& b : bs) w.e->resetCollisions(b.d.get()); count("destroyed"); }
        else if (k == 6 || k == 7)
        {
            Body& b = bs[r.i(0, (int)bs.size() - 1)]; if (b.s.sim == 1) continue; M4 p = toF(r.pose(1500)); bool pos = r.p(0.3);
            if (pos) { M4 q = modelPose(b); V3 t = p.block<3, 1>(0, 3); p = q; p.block<3, 1>(0, 3) = t; b.d->setPosition(t.cast<float>()); } else b.d->setPose(f4(p));
            double tol = sc(p) + 1e-4 * b.s.ext; checkPose(modelPose(b), p, 1e-4, tol, pos ? "position/model" : "set-pose/model"); checkPose(bodyModel(b), p, 1e-4, tol, pos ? "position/body" : "set-pose/body"); b.pose = modelPose(b); count(pos ? "positioned" : "posed");
        }
        else if (k == 8 || k == 9)
        {
            Body& b = bs[r.i(0, (int)bs.size() - 1)]; if (b.s.sim == 1 || b.s.sim == 2) continue; V3 v(F(r.u(-2000, 2000)), F(r.u(-2000, 2000)), F(r.u(-2000, 2000))), o(F(r.u(-3, 3)), F(r.u(-3, 3)), F(r.u(-3, 3)));
            if (r.p(0.5)) { V3 was = b.d->getAngularVelocity().cast<double>(); b.d->setLinearVelocity(v.cast<float>()); checkV(b.d->getLinearVelocity().cast<double>(), v, 1e-3, "velocity/linear"); checkV(b.d->getAngularVelocity().cast<double>(), was, 1e-9, "velocity/other"); }
            else { b.d->setAngularVelocity(o.cast<float>()); checkV(b.d->getAngularVelocity().cast<double>(), o, 1e-5, "velocity/angular"); }
            count("velocities");
        }
        else if (k == 10) { if (!floor && r.p(0.5)) { w.w->createFloorPlane(); floor = 1; auto f = w.e->getObject("Floor"); check(f && f->getSimType() == Phys::eStatic, "floor/there", "no static floor"); count("floors"); } }
        else if (k == 11 && bs.size() > 1)
        {
            int a = r.i(0, (int)bs.size() - 1), b = r.i(0, (int)bs.size() - 1); if (a == b) continue; auto p = std::minmax(a, b); auto x = bs[a].d.get(), y = bs[b].d.get();
            switch (r.i(0, 4)) { case 0: case 1: w.e->disableCollision(x, y); off.insert({p.first, p.second}); break; case 2: w.e->enableCollision(x, y); off.erase({p.first, p.second}); break; case 3: if (r.p(0.5)) { w.e->disableCollision(x); offAll.insert(a); } else { w.e->enableCollision(x); offAll.erase(a); } break; default: w.e->resetCollisions(x); offAll.erase(a); for (auto it = off.begin(); it != off.end();) if (it->first == a || it->second == a) it = off.erase(it); else ++it; }
            count("collision-switches");
        }
        else
        {
            int n = r.i(1, 4); double dt = r.pick({fixed, fixed, fixed / 2, 2.5 * fixed});
            for (int s = 0; s < n; s++)
            {
                std::vector<M4> before; for (auto& b : bs) before.push_back(modelPose(b)); w.step(dt, 10, fixed); used = true; count("steps");
                for (size_t j = 0; j < bs.size(); j++) { at("op %d step %d object %zu sim %d com %.3g %.3g %.3g dt/fixed %.3g", i, s, j, bs[j].s.sim, bs[j].s.com(0), bs[j].s.com(1), bs[j].s.com(2), dt / fixed); verifyPose(w, bs[j], fixed, before[j], true); }
                std::set<std::string> names; std::map<std::string, int> idx; for (size_t j = 0; j < bs.size(); j++) if (bs[j].in) { names.insert(bs[j].s.so->getName()); idx[bs[j].s.so->getName()] = j; } if (floor) names.insert("Floor");
                for (auto& c : w.e->getContacts())
                {
                    check(names.count(c.objectAName) && names.count(c.objectBName) && c.objectAName != c.objectBName, "contact/names", "'%s' and '%s'", c.objectAName.c_str(), c.objectBName.c_str()); check(c.posGlobalA.allFinite() && c.posGlobalB.allFinite() && std::isfinite(c.distance) && std::fabs(c.normalGlobalB.norm() - 1) < 1e-3, "contact/finite", "bad contact"); count("contacts");
                    if (idx.count(c.objectAName) && idx.count(c.objectBName)) { auto p = std::minmax(idx[c.objectAName], idx[c.objectBName]); check(!off.count({p.first, p.second}) && !offAll.count(p.first) && !offAll.count(p.second), "contact/disabled", "contact of a pair whose collisions are disabled"); double gap = (c.posGlobalA - c.posGlobalB).norm(); checkNear(gap, std::fabs(c.distance) * 1000 / BulletObject::ScaleFactor, 1 + 0.01 * gap, "contact/distance"); }
                }
            }
        }
        for (size_t a = 0; a < bs.size(); a++) for (size_t b = a + 1; b < bs.size(); b++) { bool en = !off.count({(int)a, (int)b}) && !offAll.count(a) && !offAll.count(b); check(w.e->checkCollisionEnabled(bs[a].d.get(), bs[b].d.get()) == en && w.e->checkCollisionEnabled(bs[b].d.get(), bs[a].d.get()) == en, "collision/enabled", "objects %zu and %zu", a, b); }
        verify(w, bs, floor); ev(3); sig(hm(11, bs.empty() ? M4(M4::Identity()) : modelPose(bs[0])));
    }
    count("histories");
}
// free flight against the engine's own integration scheme (semi-implicit Euler with exponential damping)
static void flight(Rng& r)
{
    bool damp = r.p(0.5); V3 g = r.p(0.5) ? V3(0, 0, -9.81) : V3(r.dir() * r.u(1, 20)); World w(r, g, damp); Body b = make(r, w, 0, r.p(0.5) ? 3 : 0, r.pick({20.0, 100.0, 400.0})); w.w->addObject(b.d); b.in = true;
    Body other; bool cut = r.p(0.4); if (cut) { other = make(r, w, 1, r.i(1, 3)); M4 p = b.pose; if (other.s.sim == 1) cut = false; else { other.d->setPose(f4(p)); w.w->addObject(other.d); if (r.p(0.5)) w.e->disableCollision(b.d.get(), other.d.get()); else w.e->disableCollision(b.d.get()); } }
    if (r.p(0.3)) { w.c->gravity = V3f(F(g(0) / 2), F(g(1)), F(g(2) + 1)); w.e->updateConfig(w.c); b.d->activate(); w.g = w.c->gravity.cast<double>(); rb(b)->setDeactivationTime(0); count("gravity-changed"); }
    V3 v0 = V3::Zero(); if (r.p(0.6)) { v0 = V3(F(r.u(-3000, 3000)), F(r.u(-3000, 3000)), F(r.u(-3000, 3000))); b.d->setLinearVelocity(v0.cast<float>()); } V3 om0 = V3::Zero(); if (r.p(0.6)) { om0 = V3(F(r.u(-2, 2)), F(r.u(-2, 2)), F(r.u(-2, 2))); b.d->setAngularVelocity(om0.cast<float>()); }
    V3 x = mul(b.pose, b.s.com), v = v0, x2 = x, v2 = v0; double fixed = r.pick({1.0 / 60, 0.005}); double d = damp ? 0.05 : 0; int N = r.i(5, 100); bool push = r.p(0.3); V3 fo(F(r.u(-50, 50)), F(r.u(-50, 50)), F(r.u(-50, 50))); V3 dv = V3::Zero(); double lag = 0, far = 0;
    for (int i = 0; i < N; i++)
    {
        if (push && i == 2) { double m = b.s.mass > 0 ? b.s.mass : 1; b.d->applyForce(fo.cast<float>()); dv = fo / (m * BulletObject::MassFactor) * fixed * 1000 / BulletObject::ScaleFactor; count("pushed"); }
        w.step(fixed, 1, fixed); v += w.g * 1000 * fixed + dv; v2 += w.g * 1000 * fixed + dv; double kick = dv.norm(); v2 *= std::pow(1 - d, fixed); x2 += v2 * fixed; dv.setZero(); v *= 1 - d * fixed; lag += 1.1 * d * fixed * (w.g.norm() * 1000 * fixed + kick); far += lag * fixed; double slack = (v - v2).norm(); x += v * fixed;   // the damping formula and whether it comes before gravity depend on the version of the engine
        at("flight step %d fixed %.4g damp %.3g", i, fixed, d);
        V3 got = mul(ofBt(rb(b)->getWorldTransform()), V3::Zero()); checkV(got, x, 0.05 + 2e-4 * (x - got).norm() + 1e-4 * v.norm() * fixed * (i + 1) + 1e-5 * x.norm() + 1.1 * (x - x2).norm() + far, "flight/position"); checkV(b.d->getLinearVelocity().cast<double>(), v, 0.05 + 1e-4 * v.norm() + 1.1 * slack + lag, "flight/velocity");
        if (om0.norm() == 0 && !push) checkPose(modelPose(b).block<3, 3>(0, 0).eval().norm() > 0 ? (M4)modelPose(b) : M4(M4::Identity()), [&] { M4 e = modelPose(b); e.block<3, 3>(0, 0) = b.pose.block<3, 3>(0, 0); return e; }(), 1e-3, 1e9, "flight/rotates");
        if (!damp && om0.norm() == 0) checkV(b.d->getAngularVelocity().cast<double>(), V3::Zero(), 1e-6, "flight/spin");
    }
    count("flights"); if (cut) count("flights-through"); ev(N); sig(hm(12, modelPose(b)));
}
// a box dropped onto the floor comes to rest on it and stays
static void rest(Rng& r)
{
    World w(r, V3(0, 0, -9.81)); w.w->createFloorPlane(); double size = r.pick({50.0, 100.0, 300.0}); V3 s(F(size * r.u(0.6, 1.4)), F(size * r.u(0.6, 1.4)), F(size * r.u(0.4, 1))); Phys p; p.massKg = r.f(0.2f, 20); p.simType = Phys::eDynamic; p.comLocation = Phys::eVisuBBoxCenter;
    Mesh m = boxMesh(s); for (auto& q : m.v) for (int k = 0; k < 3; k++) q(k) = F(q(k)); ObstaclePtr o; int kind = r.i(0, 1); std::vector<Primitive::PrimitivePtr> ps; ps.push_back(Primitive::PrimitivePtr(new Primitive::Box(s(0), s(1), s(2))));
    VisualizationNodePtr v = kind ? meshVis(m) : VisualizationFactory::first(nullptr)->getVisualizationFromPrimitives(ps); o.reset(new Obstacle("box", v, CollisionModelPtr(new CollisionModel(v->clone(true), "c", CollisionCheckerPtr())), p));
    double yaw = r.u(-3, 3), gap = r.u(0, 30), z = s(2) / 2 + gap; M4 g = toF(M4(T(F(r.u(-2000, 2000)), F(r.u(-2000, 2000)), z) * R(V3::UnitZ(), yaw))); o->setGlobalPose(f4(g)); auto d = w.w->CreateDynamicsObject(o); w.w->addObject(d);
    for (int i = 0; i < 120; i++) w.step(1.0 / 60, 1, 1.0 / 60);
    M4 a = o->getGlobalPose().cast<double>(); double tol = 3 + 0.02 * size + 0.05 * gap;
    at("box %.4g x %.4g x %.4g from %.3g mm, kind %d", s(0), s(1), s(2), gap, kind);
    check(std::fabs(a(2, 3) - s(2) / 2) <= tol, "rest/height", "center at %.4g above the floor, half height %.4g", a(2, 3), s(2) / 2); check(std::hypot(a(0, 3) - g(0, 3), a(1, 3) - g(1, 3)) <= tol, "rest/slides", "moved sideways by %.4g", std::hypot(a(0, 3) - g(0, 3), a(1, 3) - g(1, 3))); check(a(2, 2) > std::cos(0.08), "rest/tilts", "tilted by %.3g", std::acos(a(2, 2)));
    bool fl = false; double far = 0; M4 b = a;   // the engine drops and renews its cached contacts every now and then: small hops
    for (int i = 0; i < 30; i++) { for (auto& c : w.e->getContacts()) fl |= (c.objectAName == "Floor" && c.objectBName == "box") || (c.objectAName == "box" && c.objectBName == "Floor"); w.step(1.0 / 60, 1, 1.0 / 60); b = o->getGlobalPose().cast<double>(); far = std::max(far, (b - a).cwiseAbs().maxCoeff()); }
    check(fl, "rest/contact", "no contact with the floor reported"); check(far < 6, "rest/stays", "still moving: %.3g", far); count("rested"); sig(hm(13, b)); ev(6);
}
// two bodies in free space: what one gains the other loses; a static or kinematic wall keeps its pose
static void impact(Rng& r)
{
    World w(r, V3::Zero(), false); std::vector<Body> bs; for (int i = 0; i < 2; i++) { for (int t = 0; t < 30; t++) { Body b = make(r, w, i * 100 + t, i == 0 ? 3 : r.i(1, 3), 100, 300); if (b.s.so->getCollisionModel() && b.s.mass > 0) { bs.push_back(b); break; } } } if (bs.size() < 2) return;
    M4 p = toF(r.pose(200)); p.block<3, 1>(0, 3) = bs[1].pose.block<3, 1>(0, 3) + r.dir() * 700; bs[0].d->setPose(f4(p)); for (auto& b : bs) { w.w->addObject(b.d); b.in = true; b.pose = modelPose(b); }
    V3 dir = mul(bs[1].pose, bs[1].s.com) - mul(bs[0].pose, bs[0].s.com); V3 v = dir.normalized() * r.u(800, 1500); bs[0].d->setLinearVelocity(v.cast<float>()); bool dyn = bs[1].s.sim == 3; if (dyn && r.p(0.5)) bs[1].d->setLinearVelocity((V3f)(-v * 0.3).cast<float>());
    auto mom = [&] { V3 m = V3::Zero(); for (auto& b : bs) if (b.s.sim == 3) m += b.s.mass * b.d->getLinearVelocity().cast<double>(); return m; }; auto kin = [&] { double e = 0; for (auto& b : bs) if (b.s.sim == 3) e += b.s.mass * b.d->getLinearVelocity().cast<double>().squaredNorm(); return e; };
    V3 m0 = mom(); double e0 = kin(); bool touched = false; int n = 0; for (int i = 0; i < 90; i++) { w.step(1.0 / 120, 1, 1.0 / 120); if (!w.e->getContacts().empty()) { touched = true; } n++; if (dyn) { checkV(mom(), m0, 1e-3 * m0.norm() + 0.5, "impact/momentum"); check(kin() <= e0 * 1.02 + 1, "impact/energy", "energy of the linear motion grew from %.5g to %.5g", e0, kin()); } else verifyPose(w, bs[1], 1.0 / 120, bs[1].pose, true); }
    count(touched ? "impacts" : "missed"); sig(hm(14, modelPose(bs[0]))); ev(n);
}
// simulated robots: joint values, poses and bodies agree; joints reach their targets and stay in their limits; momenta; attached objects
static void robots(Rng& r)
{
    bool grav = r.p(0.5); World w(r, grav ? V3(0, 0, -9.81) : V3(V3::Zero()), r.p(0.5)); RobotDef d; int N = r.i(1, 4); bool pris = r.p(0.5); NodeDef root; root.name = "root"; root.col = root.vis = true; root.box = V3(80, 80, 80); root.phys = true; root.mass = 5; root.sim = 1; d.n.push_back(root);
    int prev = 0; std::vector<int> joints, bodies; bodies.push_back(0);
    for (int i = 0; i < N; i++)
    {
        NodeDef j; j.name = fmt("j%d", i); j.parent = prev; j.type = pris && r.p(0.5) ? PRI : REV; M3 q = r.p(0.4) ? M3(M3::Identity()) : r.rot(); j.local = M4::Identity(); j.local.block<3, 3>(0, 0) = q; j.local.block<3, 1>(0, 3) = V3(r.u(-30, 30), r.u(-30, 30), r.u(130, 200)); j.local = toF(j.local);
        j.axis = r.p(0.5) ? V3(V3::Unit(r.i(0, 2))) : r.dir(); for (int k = 0; k < 3; k++) j.axis(k) = F(j.axis(k)); j.lo = j.type == REV ? -r.u(0.4, 2) : -r.u(20, 80); j.hi = j.type == REV ? r.u(0.4, 2) : r.u(20, 80); if (r.p(0.25)) j.offset = F(j.type == REV ? r.u(-0.7, 0.7) : r.u(-40, 40));
        auto body = [&](NodeDef& b) { b.col = b.vis = true; b.box = V3(r.u(40, 80), r.u(40, 80), r.u(40, 80)); b.phys = true; b.mass = F(r.u(0.5, 3)); b.sim = 3; if (r.p(0.5)) b.com = V3(F(r.u(-15, 15)), F(r.u(-15, 15)), F(r.u(-15, 15))); };
        bool own = r.p(0.5); if (own) body(j); d.n.push_back(j); joints.push_back(d.n.size() - 1); prev = d.n.size() - 1;
        if (!own) { NodeDef b; b.name = fmt("b%d", i); b.parent = prev; b.local = toF(M4(T(r.u(-20, 20), r.u(-20, 20), r.u(0, 60)) * (r.p(0.5) ? M4(M4::Identity()) : R(r.dir(), r.u(-3, 3))))); body(b); d.n.push_back(b); prev = d.n.size() - 1; }
        bodies.push_back(prev); if (r.p(0.3)) { NodeDef f; f.name = fmt("f%d", i); f.parent = prev; f.local = toF(r.pose(50)); d.n.push_back(f); }
    }
    RobotPtr rob = buildApi(d); M4 base = toF(r.pose(1000)); rob->setGlobalPose(f4(base)); auto dr = w.w->CreateDynamicsRobot(rob); auto br = boost::dynamic_pointer_cast<BulletRobot>(dr); dr->enableSelfCollisions(false);
    auto node = [&](int i) { return rob->getRobotNode(d.n[i].name); }; auto obj = [&](int i) { return boost::dynamic_pointer_cast<BulletObject>(dr->getDynamicsRobotNode(node(i))); }; auto bw = w.e->getBulletWorld();
    bool maxv = r.p(0.4); if (maxv) for (int j : joints) node(j)->setMaxVelocity(d.n[j].type == REV ? 1.5f : 0.2f);
    check(w.w->addRobot(dr), "robot/add", "refused"); auto bookkeeping = [&](bool in, int extra, int links, const char* key) { check(w.e->getBulletWorld()->getNumCollisionObjects() == (in ? (int)bodies.size() : 0) + extra && bw->getNumConstraints() == (in ? N : 0) + links && (w.w->getRobots().size() == (in ? 1u : 0u)) && (w.e->getRobot(rob) == (in ? dr : DynamicsRobotPtr())), key, "%d bodies, %d joints, %zu robots simulated", bw->getNumCollisionObjects(), bw->getNumConstraints(), w.w->getRobots().size()); };
    bookkeeping(true, 0, 0, "robot/added"); if (r.p(0.2)) { w.w->addRobot(dr); bookkeeping(true, 0, 0, "robot/added-twice"); count("robots-twice"); }
    if (r.p(0.2)) { auto other = w.w->CreateDynamicsRobot(rob); check(!w.w->addRobot(other), "robot/second-wrapper", "accepted"); bookkeeping(true, 0, 0, "robot/second-wrapper"); count("second-wrappers"); }
    double fixed = 0.01; auto q = [&] { std::vector<double> v(d.n.size(), 0.0); for (int j : joints) v[j] = br->getJointAngle(node(j)); return v; };
    double soft = 0.06; auto verifyBot = [&](bool quick, const char* when) {
        std::vector<double> v = q(); for (int j : joints) { bool rev = d.n[j].type == REV; double tol = rev ? 1e-4 : 1e-2, a = clipRef(d.n[j], v[j]); checkNear(node(j)->getJointValue(), a, tol + 1e-4 * std::fabs(a), "robot/joint-model"); check(v[j] >= d.n[j].lo - (rev ? soft : 100 * soft) && v[j] <= d.n[j].hi + (rev ? soft : 100 * soft), "robot/limits", "%s at %.5g outside [%.5g, %.5g]", d.n[j].name.c_str(), v[j], d.n[j].lo, d.n[j].hi); }
        for (int b : bodies) { M4 m = node(b)->getGlobalPose().cast<double>(), y = ofBt(obj(b)->getRigidBody()->getWorldTransform()) * T(-d.n[b].com(0), -d.n[b].com(1), -d.n[b].com(2)); V3 vel = ofBt(obj(b)->getRigidBody()->getLinearVelocity()); double sp = vel.norm() * 1000 / BulletObject::ScaleFactor, om = ofBt(obj(b)->getRigidBody()->getAngularVelocity()).norm(); checkPose(m, y, 1e-4 + 1.1 * om * fixed, 0.05 + 1.1 * fixed * (sp + 30 * om), "robot/model-body"); }
        M4 rp = node(0)->getGlobalPose().cast<double>(); checkPose(rp, base, 1e-5, 0.05, "robot/root");
        if (soft < 0.1) for (size_t i = 0; i < d.n.size(); i++) if (!d.n[i].col && d.n[i].type == FIX) { M4 e = node(d.n[i].parent)->getGlobalPose().cast<double>() * d.n[i].local; V3 om = ofBt(obj(d.n[i].parent)->getRigidBody()->getAngularVelocity()), ve = ofBt(obj(d.n[i].parent)->getRigidBody()->getLinearVelocity()); checkPose(node(i)->getGlobalPose().cast<double>(), e, 0.02 + 2.2 * fixed * om.norm(), 0.5 + 2.2 * fixed * (ve.norm() * 1000 / BulletObject::ScaleFactor + 100 * om.norm()) + 5, "robot/passive"); }
        if (quick) return; auto g = d.fk(base, v);   // joints hold the bodies together
        for (int b : bodies) { M4 y = ofBt(obj(b)->getRigidBody()->getWorldTransform()) * T(-d.n[b].com(0), -d.n[b].com(1), -d.n[b].com(2)); checkPose(y, g[b], 0.03 * N, 6.0 * N, fmt("robot/chain-%s", when)); }
        count("chains"); };
    verifyBot(false, "start");
    auto run = [&](int n, const char* when, bool ends = true) { for (int i = 0; i < n; i++) { w.step(fixed, 1, fixed); at("%s step %d of robot with %d joints, gravity %d", when, i, N, grav); verifyBot(true, when); } if (ends) verifyBot(false, when); };
    std::vector<double> tgt(d.n.size(), 0.0); run(20, "hold"); for (int j : joints) checkNear(br->getJointAngle(node(j)), 0, d.n[j].type == REV ? 0.03 : 3, "robot/hold");
    for (int round = 0; round < r.i(1, 2); round++)
    {
        for (int j : joints) if (r.p(0.8)) { tgt[j] = F(r.u(d.n[j].lo, d.n[j].hi) * 0.95); if (r.p(0.5)) dr->actuateNode(node(j), tgt[j]); else dr->actuateNode(d.n[j].name, tgt[j]); checkNear(dr->getNodeTarget(node(j)), tgt[j], 1e-6, "robot/target"); check(dr->isNodeActuated(node(j)), "robot/actuated", "not actuated"); }
        run(maxv ? 350 : 250, "track"); for (int j : joints) { checkNear(br->getJointAngle(node(j)), tgt[j], d.n[j].type == REV ? 0.02 : 2, "robot/track"); } count("tracked", joints.size()); ev(joints.size());
    }
    // sums over a set of bodies
    {
        auto toward = [&](int j) { return std::fabs(d.n[j].lo - tgt[j]) > std::fabs(d.n[j].hi - tgt[j]) ? d.n[j].lo : d.n[j].hi; }; for (int j : joints) dr->actuateNode(node(j), toward(j) * 0.95); for (int i = 0; i < 8; i++) w.step(fixed, 1, fixed);
        std::vector<RobotNodePtr> ns; std::vector<int> idx; for (int b : bodies) if (b == bodies.back() || r.p(0.7)) { ns.push_back(node(b)); idx.push_back(b); } auto set = RobotNodeSet::createRobotNodeSet(rob, "bodies", ns, RobotNodePtr(), RobotNodePtr());
        double M = 0; V3 c = V3::Zero(), cv = V3::Zero(), L = V3::Zero(); double size = 0, cmax = 0, slip = 0; for (int b : idx) { cmax = std::max(cmax, ofBt(obj(b)->getRigidBody()->getLinearVelocity()).norm() * 1000 / BulletObject::ScaleFactor); M += d.n[b].mass; c += d.n[b].mass * ofBt(obj(b)->getRigidBody()->getWorldTransform()).block<3, 1>(0, 3); cv += d.n[b].mass * ofBt(obj(b)->getRigidBody()->getLinearVelocity()) * 1000 / BulletObject::ScaleFactor; } V3 P = cv / 1000; c /= M; cv /= M;
        V3 Lc = V3::Zero(); for (int b : idx)
        {
            auto body = obj(b)->getRigidBody(); V3 x = ofBt(body->getWorldTransform()).block<3, 1>(0, 3) / 1000, v = ofBt(body->getLinearVelocity()) / BulletObject::ScaleFactor, om = ofBt(body->getAngularVelocity()); V3 spin = V3::Zero();
            if (d.n[b].sim == 3) { M3 A = ofBt(body->getWorldTransform()).block<3, 3>(0, 0); auto l = body->getInvInertiaDiagLocal(); V3 I(1 / l.x(), 1 / l.y(), 1 / l.z()); spin = A * (I.asDiagonal() * (A.transpose() * om)) / (BulletObject::MassFactor * BulletObject::ScaleFactor * BulletObject::ScaleFactor); }
            L += x.cross(d.n[b].mass * v) + spin; Lc += (x - c / 1000).cross(d.n[b].mass * (v - cv / 1000)) + spin; size += std::fabs(d.n[b].mass) * x.norm() * v.norm() + spin.norm(); slip += 1.1 * fixed * cmax / 1000 * d.n[b].mass * v.norm();   // reported positions are those of the last synchronisation
        }
        at("momenta of %zu bodies", idx.size()); checkV(dr->getComGlobal(set).cast<double>(), c, 0.05 + 1e-5 * c.norm() + 1.1 * fixed * cmax, "sum/com"); checkV(dr->getComVelocityGlobal(set).cast<double>(), cv, 1e-2 + 1e-4 * cv.norm(), "sum/com-velocity"); checkV(dr->getLinearMomentumGlobal(set).cast<double>(), P, 1e-5 + 1e-4 * P.norm(), "sum/linear");
        if (std::all_of(idx.begin(), idx.end(), [&](int b) { return d.n[b].sim == 3; })) { checkV(dr->getAngularMomentumGlobal(set).cast<double>(), L, 1e-6 + 1e-3 * size + slip, "sum/angular"); checkV(dr->getAngularMomentumLocal(set).cast<double>(), Lc, 1e-6 + 1e-3 * size + 2 * slip, "sum/angular-local"); count("momenta"); }
        for (int j : joints) if (j == joints[0] && d.n[j].type == REV) { int b = bodies[1]; V3 om = ofBt(obj(b)->getRigidBody()->getAngularVelocity()); V3 ax = (node(j)->getGlobalPose().cast<double>().block<3, 3>(0, 0) * d.n[j].axis).normalized(); checkNear(br->getJointSpeed(node(j)), om.dot(ax), 1e-3 + 0.02 * om.norm(), "robot/speed"); }
    }
    // an object attached to a body keeps its place relative to it, a detached one is on its own
    if (r.p(0.5))
    {
        for (int i = 0; i < 120; i++) w.step(fixed, 1, fixed);   // attached at rest: while it moves, the model lags behind the body
        int b = bodies[r.i(0, (int)bodies.size() - 1)]; Phys p; p.massKg = F(r.u(0.2, 1)); p.simType = Phys::eDynamic; ObstaclePtr o(new Obstacle("thing", boxVis(V3(40, 40, 40)), CollisionModelPtr(new CollisionModel(boxVis(V3(40, 40, 40)), "tc", CollisionCheckerPtr())), p)); M4 rel = toF(r.pose(60)), at0 = toF(M4(ofBt(obj(b)->getRigidBody()->getWorldTransform()) * rel)); o->setGlobalPose(f4(at0)); auto od = w.w->CreateDynamicsObject(o); auto ob = boost::dynamic_pointer_cast<BulletObject>(od); w.w->addObject(od); for (int x : bodies) if (x != b) w.e->disableCollision(od.get(), obj(x).get());
        check(w.e->attachObjectToRobot(dr, d.n[b].name, od), "attach/result", "refused"); bookkeeping(true, 1, 1, "attach/added"); check(!w.e->checkCollisionEnabled(od.get(), obj(b).get()), "attach/collisions", "attached object still collides with its node");
        auto relNow = [&] { return M4(inv(ofBt(obj(b)->getRigidBody()->getWorldTransform())) * ofBt(ob->getRigidBody()->getWorldTransform())); }; M4 r0 = relNow(); for (int j : joints) dr->actuateNode(node(j), tgt[j]); for (int i = 0; i < 150; i++) w.step(fixed, 1, fixed);
        at("attached to %s", d.n[b].name.c_str()); checkPose(relNow(), r0, 0.15, 8, "attach/keeps"); count("attached");
        check(w.e->detachObjectFromRobot(dr, od), "detach/result", "refused"); bookkeeping(true, 1, 0, "detach/removed"); od->setLinearVelocity(V3f::Zero()); od->setAngularVelocity(V3f::Zero()); V3 x0 = ofBt(ob->getRigidBody()->getWorldTransform()).block<3, 1>(0, 3); w.e->disableCollision(od.get()); ob->getRigidBody()->activate(); for (int i = 0; i < 30; i++) w.step(fixed, 1, fixed); V3 x1 = ofBt(ob->getRigidBody()->getWorldTransform()).block<3, 1>(0, 3); V3 fall(0, 0, grav ? -9.81 * 0.5 * 0.3 * 0.31 * 1000 : 0); checkV(x1 - x0, fall, 0.5 + 0.02 * fall.norm(), "detach/falls"); w.w->removeObject(od); bookkeeping(true, 0, 0, "detach/object-removed");
    }
    // velocity targets, switched off actuation, moving the robot
    int kind = r.i(0, 2);
    if (kind == 0) { int j = joints[r.i(0, (int)joints.size() - 1)]; if (r.p(0.3)) { dr->disableNodeActuation(node(j)); check(!dr->isNodeActuated(node(j)), "robot/not-actuated", "still actuated"); dr->actuateNodeVel(node(j), 0); for (int i = 0; i < 5; i++) w.step(fixed, 1, fixed); } double a = br->getJointAngle(node(j)); bool up = d.n[j].hi - a > a - d.n[j].lo; bool rev = d.n[j].type == REV; double room = (up ? d.n[j].hi - a : a - d.n[j].lo), v = (up ? 1 : -1) * room * 0.8; dr->actuateNodeVel(node(j), v); for (int i = 0; i < 80; i++) w.step(fixed, 1, fixed); double got = br->getJointAngle(node(j)) - a; at("velocity %.4g from %.4g", v, a); check(got * v > 0 && std::fabs(got) > 0.25 * std::fabs(v) && std::fabs(got) < 1.3 * std::fabs(v) + (rev ? 0.05 : 5), "robot/velocity", "moved %.4g", got); count("velocity-mode"); }
    else if (kind == 1) { dr->disableActuation(); for (int j : joints) check(!dr->isNodeActuated(node(j)), "robot/not-actuated", "still actuated"); soft = 0.4; run(40, "limp", false); count("limp"); }
    else { base = toF(r.pose(1000)); std::vector<double> before = q(); dr->setGlobalPose(f4(base)); std::vector<double> after = q(); for (int j : joints) checkNear(after[j], before[j], d.n[j].type == REV ? 0.08 : 8, "robot/moved-joints"); for (int b : bodies) { M4 m = node(b)->getGlobalPose().cast<double>(), y = ofBt(obj(b)->getRigidBody()->getWorldTransform()) * T(-d.n[b].com(0), -d.n[b].com(1), -d.n[b].com(2)); checkPose(m, y, 1e-4, 0.1, "robot/moved-body"); } count("moved"); }
    if (r.p(0.5)) { check(w.w->removeRobot(dr), "robot/remove", "refused"); bookkeeping(false, 0, 0, "robot/removed"); for (int i = 0; i < 5; i++) w.step(fixed, 1, fixed); check(!w.w->removeRobot(dr), "robot/remove-twice", "accepted"); if (r.p(0.5)) { check(w.w->addRobot(dr), "robot/add-again", "refused"); bookkeeping(true, 0, 0, "robot/added-again"); } }
    count("robots"); sig(hm(15, node(bodies.back())->getGlobalPose().cast<double>())); ev(5);
}
static void simCase(Rng& r) { int k = r.i(0, 11); if (k < 4) history(r); else if (k < 6) flight(r); else if (k < 8) rest(r); else if (k < 10) impact(r); else robots(r); DynamicsWorld::Close(); }
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C26", simCase, 1600, 20000}}); }
