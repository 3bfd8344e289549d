// C27: scenes, objects, grasp sets and configurations: registration histories against a model, files against what was saved.
#include "mesh.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Import/MeshImport/STLReader.h>
#include <VirtualRobot/XML/ObjectIO.h>
#include <VirtualRobot/XML/SceneIO.h>
using namespace vh; using namespace VirtualRobot;
using Phys = SceneObject::Physics;
static double ptol(const M4& m) { return 0.02 + 2e-5 * m.block<3, 1>(0, 3).norm(); }
static void cmpPose(const Eigen::Matrix4f& got, const M4& want, const std::string& key) { checkPose(got, want, 2e-4, ptol(want), key); }
// ---- grasps
struct GraspRef { std::string name, type, eef, creation, pre; float q; M4 pose; std::map<std::string, float> cfg; };
static GraspRef genGrasp(Rng& r, const std::string& type, const std::string& eef)
{
    static const char* names[] = {"Grasp 0", "Grasp 1", "Top", "Side", "g_7", "Grasp 10"};
    GraspRef g; g.name = names[r.i(0, 5)]; g.type = type; g.eef = eef; g.creation = r.pick({std::string(""), std::string("GraspPlanner"), std::string("by hand")}); g.q = r.pick({0.0f, 1.0f, r.f(0, 1), r.f(0, 1e-3), -1.0f}); g.pose = toF(r.pose(400)); if (r.p(0.5)) g.pre = "Preshape 1"; 
    if (r.p(0.5)) for (int k = 0; k < r.i(1, 4); k++) g.cfg[fmt("Finger %d", k)] = r.f(-3, 3); return g;
}
static GraspPtr make(const GraspRef& g) { GraspPtr p(new Grasp(g.name, g.type, g.eef, f4(g.pose), g.creation, g.q, g.pre)); if (!g.cfg.empty()) p->setConfiguration(g.cfg); return p; }
static void cmpGrasp(GraspPtr p, const GraspRef& g, const std::string& key, double rel = 2e-5)
{
    if (!check((bool)p, key + "/null", "%s", g.name.c_str())) return;
    check(p->getName() == g.name && p->getRobotType() == g.type && p->getEefName() == g.eef && p->getCreationMethod() == g.creation && p->getPreshapeName() == g.pre, key + "/attributes", "name '%s'/'%s' type '%s'/'%s' eef '%s'/'%s' creation '%s'/'%s' preshape '%s'/'%s'", p->getName().c_str(), g.name.c_str(), p->getRobotType().c_str(), g.type.c_str(), p->getEefName().c_str(), g.eef.c_str(), p->getCreationMethod().c_str(), g.creation.c_str(), p->getPreshapeName().c_str(), g.pre.c_str());
    checkNear(p->getQuality(), g.q, 1e-9 + rel * std::fabs(g.q), key + "/quality"); cmpPose(p->getTransformation(), g.pose, key + "/pose");
    auto c = p->getConfiguration(); bool same = c.size() == g.cfg.size(); for (auto& i : g.cfg) same = same && c.count(i.first) && std::fabs(c[i.first] - i.second) <= 1e-9 + rel * std::fabs(i.second);
    check(same, key + "/configuration", "%zu joint values instead of %zu, or other values", c.size(), g.cfg.size());
}
struct SetRef { std::string name, type, eef; std::vector<GraspRef> g; };
static void cmpSet(GraspSetPtr s, const SetRef& r, const std::string& key, double rel = 2e-5)
{
    if (!check((bool)s, key + "/null", "%s", r.name.c_str())) return;
    check(s->getName() == r.name && s->getRobotType() == r.type && s->getEndEffector() == r.eef, key + "/attributes", "'%s' '%s' '%s'", s->getName().c_str(), s->getRobotType().c_str(), s->getEndEffector().c_str());
    if (!check(s->getSize() == r.g.size() && s->getGrasps().size() == r.g.size(), key + "/size", "%u instead of %zu grasps", s->getSize(), r.g.size())) return;
    for (size_t i = 0; i < r.g.size(); i++) { cmpGrasp(s->getGrasp(i), r.g[i], key + "/grasp", rel); check(s->hasGrasp(r.g[i].name), key + "/by-name", "%s is missing", r.g[i].name.c_str()); for (size_t k = 0; k < r.g.size(); k++) if (r.g[k].name == r.g[i].name) { check(s->getGrasp(r.g[i].name) == s->getGrasp(k), key + "/first-of-name", "%s", r.g[i].name.c_str()); break; } }
    check(!s->getGrasp(r.g.size()) && !s->getGrasp("none") && !s->hasGrasp("none"), key + "/beyond", "a grasp that does not exist was returned");
    ev(4 + r.g.size() * 5);
}
static SetRef genSet(Rng& r, int i, const std::string& type, const std::string& eef) { SetRef s; s.name = fmt("Set %d", i); s.type = type; s.eef = eef; for (int k = 0; k < r.i(0, 5); k++) s.g.push_back(genGrasp(r, type, eef)); return s; }
static GraspSetPtr make(const SetRef& s) { GraspSetPtr g(new GraspSet(s.name, s.type, s.eef)); for (auto& i : s.g) g->addGrasp(make(i)); return g; }
static void grasps(Rng& r)
{
    SetRef s = genSet(r, 0, "TypeX", "Hand"); GraspSetPtr g = make(s); at("grasp set %zu", s.g.size()); cmpSet(g, s, "set");
    for (int step = 0; step < r.i(3, 12); step++)
    {
        int op = r.i(0, 7);
        if (op < 2) { GraspRef n = genGrasp(r, s.type, s.eef); GraspPtr p = make(n); check(!g->hasGrasp(p), "set/has-foreign", "set reports a grasp that was not added"); check(g->isCompatibleGrasp(p), "set/compatible", "compatible grasp"); g->addGrasp(p); check(g->hasGrasp(p), "set/has-added", "added grasp is not reported"); s.g.push_back(n); }
        else if (op == 2) { unsigned i = r.i(0, (int)s.g.size()); bool ok = g->removeGrasp(i); check(ok == (i < s.g.size()), "set/remove-index", "removeGrasp(%u) of %zu returned %d", i, s.g.size(), ok); if (i < s.g.size()) s.g.erase(s.g.begin() + i); count("removed"); }
        else if (op == 3 && !s.g.empty()) { unsigned i = r.i(0, (int)s.g.size() - 1); GraspPtr p = g->getGrasp(i); check(g->removeGrasp(p) && !g->hasGrasp(p), "set/remove", "grasp is still there"); check(!g->removeGrasp(p), "set/remove-twice", "removing a removed grasp succeeds"); s.g.erase(s.g.begin() + i); }
        else if (op == 4) { GraspSetPtr c = g->clone(); cmpSet(c, s, "set-clone"); for (unsigned i = 0; i < c->getSize(); i++) { check(c->getGrasp(i) != g->getGrasp(i), "set-clone/shared", "the copy shares a grasp"); c->getGrasp(i)->setQuality(-7); c->getGrasp(i)->setTransformation(f4(r.pose(10))); } c->removeAllGrasps(); cmpSet(g, s, "set-cloned-original"); count("set-clone"); }
        else if (op == 5) { SetRef o = genSet(r, 9, s.type, s.eef); GraspSetPtr q = make(o); bool part = !s.g.empty() && r.p(0.5); if (part) q->addGrasp(g->getGrasp(0)); g->includeGraspSet(q); for (auto& i : o.g) s.g.push_back(i); count("set-included"); }
        else if (op == 6) { std::string p = r.p(0.5) ? "" : "Other"; g->setPreshape(p); for (auto& i : s.g) i.pre = p; }
        else if (r.p(0.2)) { if (r.p(0.5)) g->clear(); else g->removeAllGrasps(); s.g.clear(); }
        cmpSet(g, s, "set");
        sig(hmix(771, s.g.size() * 31 + op));
    }
    for (unsigned i = 0; i < g->getSize(); i++)
    {
        GraspPtr p = g->getGrasp(i); M4 obj = toF(r.pose(2000)), tcp = obj * inv(s.g[i].pose);
        cmpPose(p->getTcpPoseGlobal(f4(obj)), tcp, "grasp/tcp-pose"); cmpPose(p->getObjectTargetPoseGlobal(f4(tcp)), obj, "grasp/object-pose");
        cmpPose(p->getObjectTargetPoseGlobal(p->getTcpPoseGlobal(f4(obj))), obj, "grasp/inverse"); cmpGrasp(p->clone(), s.g[i], "grasp-clone"); ev(3); count("grasp-poses");
    }
}
// ---- objects
struct ObjRef { std::string name; M4 pose = M4::Identity(); std::vector<SetRef> gs; Phys p; bool vis = false, col = false, colPrim = false, visPrim = false; int prims = 0; std::string file; };
static void writeStl(const std::string& fn, const Mesh& m)
{
    std::ofstream f(fn.c_str()); f << "solid m\n"; char b[200];
    for (auto& t : m.f) { f << "facet normal 0 0 0\nouter loop\n"; for (int k : t) { snprintf(b, sizeof b, "vertex %.9g %.9g %.9g\n", m.v[k](0) / 1000, m.v[k](1) / 1000, m.v[k](2) / 1000); f << b; } f << "endloop\nendfacet\n"; }
    f << "endsolid m\n";
}
static std::string prims(Rng& r)
{
    std::string x = "<Primitives>"; for (int k = 0; k < r.i(1, 3); k++)
    {
        bool m = r.p(0.3); double f = m ? 1000 : 1; int t = r.i(0, 2); std::string u = m ? " units='m'" : "";
        std::string tr = r.p(0.6) ? "<Transform>" + xmlMat(toF(r.pose(100))) + "</Transform>" : "";
        if (t == 0) x += fmt("<Box width='%s' height='%s' depth='%s'%s>", n9(r.u(1, 300) / f).c_str(), n9(r.u(1, 300) / f).c_str(), n9(r.u(1, 300) / f).c_str(), u.c_str()) + tr + "</Box>";
        if (t == 1) x += fmt("<Sphere radius='%s'%s>", n9(r.u(1, 300) / f).c_str(), u.c_str()) + tr + "</Sphere>";
        if (t == 2) x += fmt("<Cylinder radius='%s' height='%s'%s>", n9(r.u(1, 300) / f).c_str(), n9(r.u(1, 300) / f).c_str(), u.c_str()) + tr + "</Cylinder>";
    }
    return x + "</Primitives>";
}
static std::string objXml(Rng& r, ObjRef& o, bool man, const std::string& dir, int id)
{
    std::string x = fmt("<%s name='%s'>", man ? "ManipulationObject" : "Obstacle", o.name.c_str());
    int kv = r.i(0, 3);
    if (kv == 1 || kv == 2) { o.vis = true; std::string use; if (r.p(0.3)) { use = " useAsCollisionModel='true'"; o.col = true; } x += "<Visualization" + use + ">"; if (kv == 1) { writeStl(fmt("%s/o%d.stl", dir.c_str(), id), starMesh(r, r.u(5, 200), 0.3, 4, 5)); x += fmt("<File type='inventor'>o%d.stl</File>", id); } else x += prims(r); x += "</Visualization>"; }
    if (!o.col && r.p(0.6)) { o.col = true; x += "<CollisionModel>"; if (r.p(0.5)) { writeStl(fmt("%s/c%d.stl", dir.c_str(), id), starMesh(r, r.u(5, 200), 0.3, 4, 5)); x += fmt("<File type='inventor'>c%d.stl</File>", id); } else x += prims(r); x += "</CollisionModel>"; }
    if (r.p(0.5)) { NodeDef n; n.mass = F(r.u(0.1, 10)); n.com = V3(F(r.u(-9, 9)), 1, 2); n.inertia = M3::Identity() * F(r.u(0.1, 1)); n.sim = r.i(0, 3); x += physXml(n); }
    if (man) for (auto& s : o.gs) x += make(s)->getXMLString(1);
    if (r.p(0.6)) { o.pose = toF(r.pose(1500)); x += "<GlobalPose><Transform>" + xmlMat(o.pose) + "</Transform></GlobalPose>"; }
    return x + fmt("</%s>", man ? "ManipulationObject" : "Obstacle");
}
static void cmpModel(SceneObjectPtr a, SceneObjectPtr b, const std::string& key)
{
    check((bool)a->getVisualization() == (bool)b->getVisualization() && (bool)a->getCollisionModel() == (bool)b->getCollisionModel(), key + "/models", "visualization %d/%d collision %d/%d", (bool)a->getVisualization(), (bool)b->getVisualization(), (bool)a->getCollisionModel(), (bool)b->getCollisionModel());
    auto cmp = [&](VisualizationNodePtr u, VisualizationNodePtr v, const char* w)
    {
        if (!u || !v) return; TriMeshModelPtr t = u->getTriMeshModel(), s = v->getTriMeshModel(); if (!check(t && s && t->faces.size() == s->faces.size(), key + "/" + w + "-faces", "%zu/%zu", t ? t->faces.size() : 0, s ? s->faces.size() : 0) || t->faces.empty()) return;
        double e = 0, sc = 1; for (size_t i = 0; i < t->faces.size(); i++) { unsigned ia[3] = {t->faces[i].id1, t->faces[i].id2, t->faces[i].id3}, ib[3] = {s->faces[i].id1, s->faces[i].id2, s->faces[i].id3}; for (int k = 0; k < 3; k++) { e = std::max(e, (double)(t->vertices[ia[k]] - s->vertices[ib[k]]).norm()); sc = std::max(sc, (double)t->vertices[ia[k]].norm()); } }
        check(e <= 2e-5 * sc + 1e-2, key + "/" + w + "-geometry", "vertices differ by %g (size %g)", e, sc);
        check((u->getGlobalPose() - v->getGlobalPose()).cwiseAbs().maxCoeff() <= 0.05 + 4e-5 * u->getGlobalPose().block<3, 1>(0, 3).norm(), key + "/" + w + "-pose", "visualizations at different poses");
        ev(2); count("models-compared");
    };
    cmp(a->getVisualization(), b->getVisualization(), "visualization");
    if (a->getCollisionModel() && b->getCollisionModel()) cmp(a->getCollisionModel()->getVisualization(), b->getCollisionModel()->getVisualization(), "collision");
    Phys p = a->getPhysics(), q = b->getPhysics();
    check(std::fabs(p.massKg - q.massKg) <= 1e-5 * p.massKg && (p.localCoM - q.localCoM).norm() <= 1e-2 + 1e-4 * p.localCoM.norm() && (p.inertiaMatrix - q.inertiaMatrix).cwiseAbs().maxCoeff() <= 1e-5 * (1e-6 + p.inertiaMatrix.cwiseAbs().maxCoeff()) && p.simType == q.simType && p.comLocation == q.comLocation && std::fabs(p.friction - q.friction) < 1e-5, key + "/physics", "mass %g/%g com %g/%g inertia %g/%g", p.massKg, q.massKg, p.localCoM.norm(), q.localCoM.norm(), p.inertiaMatrix.norm(), q.inertiaMatrix.norm());
}
static void cmpObj(ObstaclePtr o, const ObjRef& w, const std::string& key)
{
    if (!check((bool)o, key + "/null", "%s", w.name.c_str())) return;
    check(o->getName() == w.name, key + "/name", "'%s' instead of '%s'", o->getName().c_str(), w.name.c_str()); cmpPose(o->getGlobalPose(), w.pose, key + "/pose");
    check((bool)o->getVisualization() == w.vis && (bool)o->getCollisionModel() == w.col, key + "/models", "%d/%d %d/%d", (bool)o->getVisualization(), w.vis, (bool)o->getCollisionModel(), w.col);
    if (o->getVisualization()) cmpPose(o->getVisualization()->getGlobalPose(), w.pose, key + "/visualization-pose");
    if (o->getCollisionModel()) cmpPose(o->getCollisionModel()->getGlobalPose(), w.pose, key + "/collision-pose");
    ManipulationObjectPtr m = boost::dynamic_pointer_cast<ManipulationObject>(o);
    if (m)
    {
        if (!check(m->getAllGraspSets().size() == w.gs.size(), key + "/grasp-sets", "%zu instead of %zu", m->getAllGraspSets().size(), w.gs.size())) return;
        for (size_t i = 0; i < w.gs.size(); i++) { cmpSet(m->getAllGraspSets()[i], w.gs[i], key + "/grasp-set"); check(m->hasGraspSet(w.gs[i].type, w.gs[i].eef) && m->hasGraspSet(m->getAllGraspSets()[i]), key + "/has-grasp-set", "%s", w.gs[i].name.c_str()); }
        for (auto& s : w.gs) { int first = -1, fn = -1; for (size_t k = 0; k < w.gs.size(); k++) { if (first < 0 && w.gs[k].type == s.type && w.gs[k].eef == s.eef) first = k; if (fn < 0 && w.gs[k].name == s.name) fn = k; } check(m->getGraspSet(s.type, s.eef) == m->getAllGraspSets()[first], key + "/get-by-eef", "%s", s.name.c_str()); check(m->getGraspSet(s.name) == m->getAllGraspSets()[fn], key + "/get-by-name", "%s", s.name.c_str()); }
        check(!m->getGraspSet("none") && !m->getGraspSet("TypeX", "none") && !m->hasGraspSet("none", "Hand"), key + "/no-grasp-set", "a grasp set that does not exist");
    }
    ev(6);
}
static ObjRef genObj(Rng& r, int i, bool man) { ObjRef o; o.name = fmt("%s %d", man ? "Thing" : "Wall", i); if (man) for (int k = 0; k < r.i(0, 3); k++) o.gs.push_back(genSet(r, k, r.p(0.7) ? "TypeX" : "TypeY", r.p(0.5) ? "Hand" : "Hand L")); return o; }
static void objects(Rng& r)
{
    std::string d = S().scratch; bool man = r.p(0.6); ObjRef w = genObj(r, r.i(0, 9), man); std::string x = objXml(r, w, man, d, 0); at("object %s", x.substr(0, 1200).c_str());
    { std::ofstream f((d + "/ob.xml").c_str()); f << x; }
    ObstaclePtr o, s; int how = r.i(0, 1);
    if (man) o = how ? ObjectIO::loadManipulationObject(d + "/ob.xml") : ObjectIO::createManipulationObjectFromString(x, d); else o = how ? ObjectIO::loadObstacle(d + "/ob.xml") : ObjectIO::createObstacleFromString(x, d);
    cmpObj(o, w, "loaded"); if (how) check(o->getFilename() == d + "/ob.xml", "loaded/filename", "'%s'", o->getFilename().c_str()); count(man ? "object-manipulation" : "object-obstacle"); sig(hm(5, f4(w.pose)));
    if (r.p(0.6)) { w.pose = toF(r.pose(1500)); o->setGlobalPose(f4(w.pose)); cmpObj(o, w, "moved"); }
    ManipulationObjectPtr m = boost::dynamic_pointer_cast<ManipulationObject>(o);
    if (m)
    {
        if (r.p(0.5)) { SetRef n = genSet(r, 7, "TypeX", "Hand"); m->addGraspSet(make(n)); w.gs.push_back(n); cmpObj(o, w, "grasp-set-added"); }
        if (r.p(0.4))
        {
            SetRef n = genSet(r, 8, r.p(0.8) ? "TypeX" : "TypeZ", "Hand"); int at_ = -1, cnt = 0; for (size_t k = 0; k < w.gs.size(); k++) if (w.gs[k].type == n.type && w.gs[k].eef == n.eef) at_ = k, cnt++;
            bool threw = false; try { m->includeGraspSet(make(n)); } catch (VirtualRobotException&) { threw = true; }
            check(threw == (at_ < 0), "include-grasp-set/refused", "grasps of an unknown end effector: %d", threw);
            if (at_ >= 0 && cnt == 1) { for (auto& g : n.g) w.gs[at_].g.push_back(g); cmpObj(o, w, "include-grasp-set"); count("include-grasp-set"); }
            else if (at_ >= 0) { size_t a = 0, b = n.g.size(); for (auto& k : m->getAllGraspSets()) a += k->getSize(); for (auto& k : w.gs) b += k.g.size(); check(a == b, "include-grasp-set/total", "%zu/%zu", a, b); return; }
        }
        ManipulationObjectPtr c = m->clone(w.name, CollisionCheckerPtr(), r.p(0.5)); cmpObj(c, w, "clone"); cmpModel(o, c, "clone"); c->setGlobalPose(f4(r.pose(100))); for (auto& k : c->getAllGraspSets()) k->removeAllGrasps(); cmpObj(o, w, "cloned-original");
    }
    else { ObstaclePtr c = o->clone(w.name); cmpObj(c, w, "clone"); cmpModel(o, c, "clone"); c->setGlobalPose(f4(r.pose(100))); cmpObj(o, w, "cloned-original"); }
    // save and reload, in another folder or the same
    std::string d2 = d; if (r.p(0.4)) { d2 = d + "/sub"; boost::filesystem::create_directories(d2); }
    if (m) { check(ObjectIO::saveManipulationObject(m, d2 + "/saved.xml"), "save", "saveManipulationObject failed"); s = ObjectIO::loadManipulationObject(d2 + "/saved.xml"); }
    else { std::ofstream f((d2 + "/saved.xml").c_str()); f << o->toXML(d2); f.close(); s = ObjectIO::loadObstacle(d2 + "/saved.xml"); }
    cmpObj(s, w, "saved"); cmpModel(o, s, "saved"); count("saved");
    if (o->getCollisionModel() && r.p(0.5))
    {
        // geometry as STL and back
        TriMeshModelPtr t = o->getCollisionModel()->getTriMeshModel(); if (t && !t->faces.empty())
        {
            check(ObjectIO::writeSTL(t, d + "/w.stl", "thing", 1.0f), "stl/write", "writeSTL failed"); TriMeshModelPtr u(new TriMeshModel()); STLReaderPtr rd(new STLReader()); rd->setScaling(1.0f); 
            if (check(rd->read(d + "/w.stl", u), "stl/read", "reading back failed"))
            {
                size_t solid = 0; for (auto& f : t->faces) { double ar = triArea(t->vertices[f.id1].cast<double>(), t->vertices[f.id2].cast<double>(), t->vertices[f.id3].cast<double>()); solid += ar > 1e-3; }
                check(u->faces.size() <= t->faces.size() && u->faces.size() >= solid, "stl/faces", "%zu of %zu (%zu not degenerate)", u->faces.size(), t->faces.size(), solid);
                Eigen::Vector3f a, b, c, e; t->getSize(a, b); if (solid == t->faces.size() && u->getSize(c, e)) check((a - c).norm() <= 1e-2 + 2e-5 * a.norm() && (b - e).norm() <= 1e-2 + 2e-5 * b.norm(), "stl/size", "extents differ");
                count("stl");
            }
        }
    }
}
// ---- scenes
struct CfgRef { std::string name, tcp; std::map<std::string, float> v; };
struct RobRef { std::string name; RobotDef d; M4 pose; std::vector<double> q; std::vector<CfgRef> cfg; RobotPtr rob; };
static std::string robXml(Rng& r, const RobotDef& d)
{
    std::string x = toXml(d); size_t p = x.rfind("</Robot>");
    return x.substr(0, p) + fmt("<Endeffector name='Hand' base='%s' tcp='%s' gcp='%s'></Endeffector>\n", d.n[0].name.c_str(), d.n.back().name.c_str(), d.n.back().name.c_str()) + x.substr(p);
}
static RobRef genRob(Rng& r, int i, const std::string& dir)
{
    RobRef o; GenOpt g; g.maxNodes = 6; g.prop = false; g.limitless = false; g.models = r.p(0.3); o.d = genRobot(r, g); o.d.name = o.name = fmt("Robot %d", i); o.d.type = fmt("Type %d", i); o.pose = M4::Identity(); o.q = initialQ(o.d);
    std::string fn = fmt("%s/rob%d.xml", dir.c_str(), i); std::ofstream(fn.c_str()) << robXml(r, o.d); o.rob = RobotIO::loadRobot(fn); return o;
}
static CfgRef genCfg(Rng& r, const RobRef& o, int i) { CfgRef c; c.name = fmt("Config %d", i); for (auto& n : o.d.n) if (n.type != FIX && r.p(0.7)) c.v[n.name] = r.f(n.lo, n.hi); if (r.p(0.5)) c.tcp = r.pick(o.d.n).name; return c; }
static RobotConfigPtr make(RobotPtr rob, const CfgRef& c) { std::vector<std::string> n; std::vector<float> v; for (auto& i : c.v) n.push_back(i.first), v.push_back(i.second); RobotConfigPtr p(new RobotConfig(rob, c.name, n, v)); if (!c.tcp.empty()) p->setTCP(c.tcp); return p; }
static void cmpCfg(RobotConfigPtr p, const CfgRef& c, const std::string& key)
{
    if (!check((bool)p, key + "/null", "%s", c.name.c_str())) return; auto m = p->getRobotNodeJointValueMap(); bool ok = p->getName() == c.name && m.size() == c.v.size(); for (auto& i : c.v) ok = ok && m.count(i.first) && std::fabs(m[i.first] - i.second) <= 1e-6 + 1e-5 * std::fabs(i.second);
    check(ok, key, "configuration '%s': %zu values instead of %zu, or other values", p->getName().c_str(), m.size(), c.v.size());
    check(p->hasTCP() == !c.tcp.empty() && (c.tcp.empty() || p->getTCP()->getName() == c.tcp), key + "/tcp", "'%s': has TCP %d, expected '%s'", c.name.c_str(), p->hasTCP(), c.tcp.c_str()); ev(2);
}
struct TrajRef { std::string name, rob, set; std::vector<std::vector<float>> p; };
struct SosRef { std::string name; std::vector<std::string> o; };
static void scenes(Rng& r)
{
    std::string d = S().scratch; ScenePtr sc(new Scene("The Scene")); std::vector<RobRef> rob; std::vector<ObjRef> man, obs; std::vector<ManipulationObjectPtr> manP; std::vector<ObstaclePtr> obsP; std::vector<TrajRef> tr; std::vector<TrajectoryPtr> trP; std::vector<SosRef> sos; std::vector<SceneObjectSetPtr> sosP; int ids = 0;
    auto checkAll = [&](const std::string& key)
    {
        check(sc->getName() == "The Scene", key + "/name", "%s", sc->getName().c_str());
        if (check(sc->getRobots().size() == rob.size() && sc->getManipulationObjects().size() == man.size() && sc->getObstacles().size() == obs.size() && sc->getTrajectories().size() == tr.size() && sc->getSceneObjectSets().size() == sos.size(), key + "/sizes", "robots %zu/%zu things %zu/%zu obstacles %zu/%zu trajectories %zu/%zu sets %zu/%zu", sc->getRobots().size(), rob.size(), sc->getManipulationObjects().size(), man.size(), sc->getObstacles().size(), obs.size(), sc->getTrajectories().size(), tr.size(), sc->getSceneObjectSets().size(), sos.size()))
        {
            for (size_t i = 0; i < rob.size(); i++) { check(sc->getRobots()[i] == rob[i].rob && sc->hasRobot(rob[i].rob) && sc->hasRobot(rob[i].name) && sc->getRobot(rob[i].name) == rob[i].rob, key + "/robot", "%s", rob[i].name.c_str()); auto c = sc->getRobotConfigs(rob[i].rob); if (check(c.size() == rob[i].cfg.size(), key + "/config-count", "%zu/%zu", c.size(), rob[i].cfg.size())) for (size_t k = 0; k < c.size(); k++) { cmpCfg(c[k], rob[i].cfg[k], key + "/config"); check(sc->hasRobotConfig(rob[i].rob, c[k]) && sc->hasRobotConfig(rob[i].rob, c[k]->getName()) && sc->getRobotConfig(rob[i].rob, c[k]->getName()) == c[k] && sc->getRobotConfig(rob[i].name, c[k]->getName()) == c[k], key + "/config-by-name", "%s", c[k]->getName().c_str()); }
                auto t = sc->getTrajectories(rob[i].name); size_t n = 0; for (auto& k : tr) n += k.rob == rob[i].name; check(t.size() == n, key + "/trajectories-of-robot", "%zu/%zu", t.size(), n); }
            for (size_t i = 0; i < man.size(); i++) check(sc->getManipulationObjects()[i] == manP[i] && sc->hasManipulationObject(manP[i]) && sc->hasManipulationObject(man[i].name) && sc->getManipulationObject(man[i].name) == manP[i] && !sc->hasObstacle(man[i].name), key + "/thing", "%s", man[i].name.c_str());
            for (size_t i = 0; i < obs.size(); i++) check(sc->getObstacles()[i] == obsP[i] && sc->hasObstacle(obsP[i]) && sc->hasObstacle(obs[i].name) && sc->getObstacle(obs[i].name) == obsP[i] && !sc->hasManipulationObject(obs[i].name), key + "/obstacle", "%s", obs[i].name.c_str());
            for (size_t i = 0; i < tr.size(); i++) check(sc->getTrajectories()[i] == trP[i] && sc->hasTrajectory(trP[i]) && sc->hasTrajectory(tr[i].name) && sc->getTrajectory(tr[i].name) == trP[i], key + "/trajectory", "%s", tr[i].name.c_str());
            for (size_t i = 0; i < sos.size(); i++) { check(sc->getSceneObjectSets()[i] == sosP[i] && sc->hasSceneObjectSet(sosP[i]) && sc->hasSceneObjectSet(sos[i].name) && sc->getSceneObjectSet(sos[i].name) == sosP[i], key + "/object-set", "%s", sos[i].name.c_str()); std::vector<std::string> n; for (auto& k : sosP[i]->getSceneObjects()) n.push_back(k->getName()); check(n == sos[i].o, key + "/object-set-members", "%zu/%zu", n.size(), sos[i].o.size()); }
        }
        check(!sc->hasRobot("none") && !sc->hasObstacle("none") && !sc->hasManipulationObject("none") && !sc->hasTrajectory("none") && !sc->hasSceneObjectSet("none") && !sc->getRobot("none") && !sc->getObstacle("none") && !sc->getTrajectory("none") && !sc->getManipulationObject("none") && !sc->getSceneObjectSet("none"), key + "/unknown", "an unknown name was found");
        ev(10);
    };
    int steps = r.i(4, 18);
    for (int s = 0; s < steps; s++)
    {
        int op = r.i(0, 13); at("scene step %d op %d", s, op);
        if (op == 0 && rob.size() < 3) { RobRef o = genRob(r, ids++, d); sc->registerRobot(o.rob); if (r.p(0.3)) sc->registerRobot(o.rob); rob.push_back(o); }
        else if (op == 1 || op == 2) { bool m = op == 1; ObjRef o = genObj(r, ids, m); std::string x = objXml(r, o, m, d, ids); o.file = fmt("%s/ob%d.xml", d.c_str(), ids++); std::ofstream(o.file.c_str()) << x; bool file = r.p(0.6);
            if (m) { ManipulationObjectPtr p = file ? ObjectIO::loadManipulationObject(o.file) : ObjectIO::createManipulationObjectFromString(x, d); sc->registerManipulationObject(p); if (r.p(0.3)) sc->registerManipulationObject(p); man.push_back(o); manP.push_back(p); }
            else { ObstaclePtr p = file ? ObjectIO::loadObstacle(o.file) : ObjectIO::createObstacleFromString(x, d); sc->registerObstacle(p); if (r.p(0.3)) sc->registerObstacle(p); obs.push_back(o); obsP.push_back(p); } }
        else if ((op == 3 || op == 4) && !rob.empty()) { RobRef& o = rob[r.i(0, (int)rob.size() - 1)]; CfgRef c = genCfg(r, o, ids++); RobotConfigPtr p = make(o.rob, c); sc->registerRobotConfig(o.rob, p); if (r.p(0.3)) sc->registerRobotConfig(o.rob, p); o.cfg.push_back(c); count("configs"); }
        else if (op == 5 && !rob.empty()) { RobRef& o = rob[r.i(0, (int)rob.size() - 1)]; if (!o.cfg.empty()) { int k = r.i(0, (int)o.cfg.size() - 1); if (r.p(0.5)) sc->deRegisterRobotConfig(o.rob, o.cfg[k].name); else sc->deRegisterRobotConfig(o.rob, sc->getRobotConfig(o.rob, o.cfg[k].name)); o.cfg.erase(o.cfg.begin() + k); count("deregistered"); } }
        else if (op == 6 && !rob.empty()) { RobRef& o = rob[r.i(0, (int)rob.size() - 1)]; TrajRef t; t.name = fmt("Traj %d", ids++); t.rob = o.name; t.set = o.d.sets[0].name; RobotNodeSetPtr rns = o.rob->getRobotNodeSet(t.set); TrajectoryPtr p(new Trajectory(rns, t.name)); for (int k = 0; k < r.i(1, 5); k++) { Eigen::VectorXf v(rns->getSize()); std::vector<float> w; for (unsigned j = 0; j < rns->getSize(); j++) v(j) = r.f(-1, 1), w.push_back(v(j)); p->addPoint(v); t.p.push_back(w); } sc->registerTrajectory(p); if (r.p(0.3)) sc->registerTrajectory(p); tr.push_back(t); trP.push_back(p); }
        else if (op == 7 && (!man.empty() || !obs.empty())) { SosRef t; t.name = fmt("Objects %d", ids++); SceneObjectSetPtr p(new SceneObjectSet(t.name)); std::vector<ObstaclePtr> all(manP.begin(), manP.end()); all.insert(all.end(), obsP.begin(), obsP.end()); r.shuffle(all); for (auto& k : all) if (r.p(0.7)) { p->addSceneObject(k); t.o.push_back(k->getName()); } sc->registerSceneObjectSet(p); if (r.p(0.3)) sc->registerSceneObjectSet(p); sos.push_back(t); sosP.push_back(p); }
        else if (op == 8 && !rob.empty() && r.p(0.4)) { int k = r.i(0, (int)rob.size() - 1); if (r.p(0.5)) sc->deRegisterRobot(rob[k].rob); else sc->deRegisterRobot(rob[k].name); std::string n = rob[k].name; rob.erase(rob.begin() + k); for (size_t i = tr.size(); i-- > 0;) if (tr[i].rob == n) { if (r.p(0.5)) sc->deRegisterTrajectory(trP[i]); else sc->deRegisterTrajectory(tr[i].name); tr.erase(tr.begin() + i); trP.erase(trP.begin() + i); } count("deregistered"); }
        else if (op == 9 && !man.empty() && r.p(0.5)) { int k = r.i(0, (int)man.size() - 1); std::string n = man[k].name; if (r.p(0.5)) sc->deRegisterManipulationObject(manP[k]); else sc->deRegisterManipulationObject(n); man.erase(man.begin() + k); auto ob = manP[k]; manP.erase(manP.begin() + k); for (size_t i = 0; i < sos.size(); i++) for (size_t j = 0; j < sos[i].o.size(); j++) if (sos[i].o[j] == n) { sosP[i]->removeSceneObject(ob); sos[i].o.erase(sos[i].o.begin() + j); break; } count("deregistered"); }
        else if (op == 10 && !obs.empty() && r.p(0.5)) { int k = r.i(0, (int)obs.size() - 1); std::string n = obs[k].name; if (r.p(0.5)) sc->deRegisterObstacle(obsP[k]); else sc->deRegisterObstacle(n); obs.erase(obs.begin() + k); auto ob = obsP[k]; obsP.erase(obsP.begin() + k); for (size_t i = 0; i < sos.size(); i++) for (size_t j = 0; j < sos[i].o.size(); j++) if (sos[i].o[j] == n) { sosP[i]->removeSceneObject(ob); sos[i].o.erase(sos[i].o.begin() + j); break; } count("deregistered"); }
        else if (op == 11 && !sos.empty()) { int k = r.i(0, (int)sos.size() - 1); if (r.p(0.5)) sc->deRegisterSceneObjectSet(sosP[k]); else sc->deRegisterSceneObjectSet(sos[k].name); sos.erase(sos.begin() + k); sosP.erase(sosP.begin() + k); count("deregistered"); }
        else if (op == 12 && !rob.empty()) { RobRef& o = rob[r.i(0, (int)rob.size() - 1)]; o.pose = r.p(0.2) ? M4(M4::Identity()) : toF(r.pose(1500)); o.rob->setGlobalPose(f4(o.pose)); for (size_t i = 0; i < o.d.n.size(); i++) if (o.d.n[i].type != FIX) { o.q[i] = clipRef(o.d.n[i], F(r.u(o.d.n[i].lo, o.d.n[i].hi))); o.rob->getRobotNode(o.d.n[i].name)->setJointValue(o.q[i]); } }
        else if (op == 13) { for (size_t i = 0; i < man.size(); i++) if (r.p(0.5)) { man[i].pose = r.p(0.3) ? M4(M4::Identity()) : toF(r.pose(900)); manP[i]->setGlobalPose(f4(man[i].pose)); } for (size_t i = 0; i < obs.size(); i++) if (r.p(0.5)) { obs[i].pose = r.p(0.3) ? M4(M4::Identity()) : toF(r.pose(900)); obsP[i]->setGlobalPose(f4(obs[i].pose)); } }
        checkAll("scene");
    }
    sig(hmix(hmix(9, rob.size() * 100 + man.size() * 10 + obs.size()), tr.size() * 10 + sos.size())); count("scenes");
    // a configuration named like the robot collides with the stored current configuration: not generated
    std::string d2 = d; if (r.p(0.4)) { d2 = d + "/sub"; boost::filesystem::create_directories(d2); }
    at("saving the scene");
    if (!check(SceneIO::saveScene(sc, d2 + "/scene.xml"), "scene/save", "saveScene failed")) return;
    ScenePtr b = SceneIO::loadScene(d2 + "/scene.xml"); std::string key = "scene-reloaded";
    check(b->getName() == "The Scene" && b->getRobots().size() == rob.size() && b->getManipulationObjects().size() == man.size() && b->getObstacles().size() == obs.size() && b->getTrajectories().size() == tr.size() && b->getSceneObjectSets().size() == sos.size(), key + "/sizes", "robots %zu/%zu things %zu/%zu obstacles %zu/%zu trajectories %zu/%zu sets %zu/%zu", b->getRobots().size(), rob.size(), b->getManipulationObjects().size(), man.size(), b->getObstacles().size(), obs.size(), b->getTrajectories().size(), tr.size(), b->getSceneObjectSets().size(), sos.size());
    for (auto& o : rob)
    {
        RobotPtr p = b->getRobot(o.name); if (!check((bool)p, key + "/robot", "%s is missing", o.name.c_str())) continue;
        cmpPose(p->getGlobalPose(), o.pose, key + "/robot-pose");
        for (size_t i = 0; i < o.d.n.size(); i++) if (o.d.n[i].type != FIX) { double v = o.rob->getRobotNode(o.d.n[i].name)->getJointValue(); checkNear(p->getRobotNode(o.d.n[i].name)->getJointValue(), v, 1e-6 + 1e-5 * std::fabs(v), key + "/joint-value", o.d.n[i].name); }
        auto c = b->getRobotConfigs(p); check(c.size() == o.cfg.size() + 1, key + "/config-count", "%zu, expected %zu and the current one", c.size(), o.cfg.size());
        for (auto& k : o.cfg) if (check(b->hasRobotConfig(p, k.name), key + "/config-missing", "%s", k.name.c_str())) cmpCfg(b->getRobotConfig(p, k.name), k, key + "/config");
        count("robots-reloaded");
    }
    for (size_t i = 0; i < man.size(); i++) { if (!check(b->hasManipulationObject(man[i].name), key + "/thing", "%s is missing", man[i].name.c_str())) continue; ManipulationObjectPtr p = b->getManipulationObject(man[i].name); cmpObj(p, man[i], key + "/thing"); cmpModel(manP[i], p, key + "/thing"); count("things-reloaded"); }
    for (size_t i = 0; i < obs.size(); i++) { if (!check(b->hasObstacle(obs[i].name), key + "/obstacle", "%s is missing", obs[i].name.c_str())) continue; ObstaclePtr p = b->getObstacle(obs[i].name); cmpObj(p, obs[i], key + "/obstacle"); cmpModel(obsP[i], p, key + "/obstacle"); }
    for (auto& t : tr) { if (!check(b->hasTrajectory(t.name), key + "/trajectory", "%s is missing", t.name.c_str())) continue; TrajectoryPtr p = b->getTrajectory(t.name); bool ok = p->getNrOfPoints() == t.p.size() && p->getRobotNodeSet()->getName() == t.set && p->getRobotNodeSet()->getRobot()->getName() == t.rob; for (size_t i = 0; ok && i < t.p.size(); i++) for (size_t k = 0; k < t.p[i].size(); k++) ok &= std::fabs(p->getPoint(i)(k) - t.p[i][k]) <= 1e-6 + 1e-5 * std::fabs(t.p[i][k]); check(ok, key + "/trajectory-points", "%s differs", t.name.c_str()); count("trajectories-reloaded"); }
    for (auto& s : sos) { if (!check(b->hasSceneObjectSet(s.name), key + "/object-set", "%s is missing", s.name.c_str())) continue; std::vector<std::string> n; for (auto& k : b->getSceneObjectSet(s.name)->getSceneObjects()) n.push_back(k->getName()); check(n == s.o, key + "/object-set-members", "%zu/%zu members or another order", n.size(), s.o.size()); count("sets-reloaded"); }
    ev(20);
}
// a grasp applied to a robot
static void robotGrasps(Rng& r)
{
    RobRef o = genRob(r, 0, S().scratch); at("robot grasp"); if (!check(o.rob->hasEndEffector("Hand"), "robot/eef", "end effector is missing")) return;
    for (int k = 0; k < 4; k++)
    {
        o.pose = toF(r.pose(900)); o.rob->setGlobalPose(f4(o.pose)); for (size_t i = 0; i < o.d.n.size(); i++) if (o.d.n[i].type != FIX) { o.q[i] = clipRef(o.d.n[i], F(r.u(o.d.n[i].lo, o.d.n[i].hi))); o.rob->getRobotNode(o.d.n[i].name)->setJointValue(o.q[i]); }
        GraspRef g = genGrasp(r, o.rob->getType(), "Hand"); auto fk = o.d.fk(o.pose, o.q); M4 want = fk.back() * g.pose;
        checkPose(make(g)->getTargetPoseGlobal(o.rob), want, 3e-4, 0.05 + 2e-5 * want.block<3, 1>(0, 3).norm(), "grasp/target-pose"); count("robot-grasp"); sig(hm(3, f4(want)));
        g.type = "Other"; bool threw = false; try { make(g)->getTargetPoseGlobal(o.rob); } catch (VirtualRobotException&) { threw = true; } check(threw, "grasp/other-robot", "a grasp for another robot type was accepted"); ev(2);
    }
}
static void objCase(Rng& r) { int k = r.i(0, 9); if (k < 2) grasps(r); else if (k < 5) objects(r); else if (k < 6) robotGrasps(r); else scenes(r); }
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C27", objCase, 2000, 40000}}); }
