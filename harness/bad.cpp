// C28: damaged robot, scene, object and mesh files: rejected with the library's exception or loaded into something consistent and usable.
#include "mesh.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Import/MeshImport/STLReader.h>
#include <VirtualRobot/XML/ObjectIO.h>
#include <VirtualRobot/XML/SceneIO.h>
#include <sys/time.h>
#include <signal.h>
#include <sys/resource.h>
using namespace vh; using namespace VirtualRobot;
// ---- a hang is a violation: processor time, not wall time
static void onTime(int) { static const char m[] = "hang: a load used 100 s of processor time\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
struct Watch { Watch() { signal(SIGVTALRM, onTime); set(100); } ~Watch() { set(0); } void set(int s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &t, 0); } };
// ---- a small XML tree
struct X { std::string tag, text; std::vector<std::pair<std::string, std::string>> a; std::vector<X> c; };
static bool parseX(const std::string& s, size_t& p, X& o)
{
    while (p < s.size() && (s[p] != '<' || s[p + 1] == '?')) p++; if (p >= s.size()) return false;
    p++; while (isalnum((unsigned char)s[p]) || s[p] == '_') o.tag += s[p++];
    for (;;)
    {
        while (isspace((unsigned char)s[p])) p++;
        if (s[p] == '/') { p += 2; return true; }
        if (s[p] == '>') { p++; break; }
        std::string k, v; while (s[p] != '=' && s[p] != ' ') k += s[p++]; while (s[p] != '\'' && s[p] != '"') p++; char q = s[p++]; while (s[p] != q) v += s[p++]; p++; o.a.push_back({k, v});
    }
    for (;;)
    {
        if (s[p] == '<') { if (s[p + 1] == '/') { while (s[p] != '>') p++; p++; return true; } X k; parseX(s, p, k); o.c.push_back(k); }
        else { if (!isspace((unsigned char)s[p]) || !o.text.empty()) o.text += s[p]; p++; }
    }
}
static X tree(const std::string& s) { X o; size_t p = 0; parseX(s, p, o); return o; }
static std::string str(const X& o)
{
    std::string s = "<" + o.tag; for (auto& i : o.a) s += " " + i.first + "='" + i.second + "'"; if (o.c.empty() && o.text.empty()) return s + "/>\n";
    s += ">" + o.text; for (auto& i : o.c) s += str(i); return s + "</" + o.tag + ">\n";
}
static void all(X& o, std::vector<X*>& v) { v.push_back(&o); for (auto& i : o.c) all(i, v); }
static std::vector<X*> all(X& o) { std::vector<X*> v; all(o, v); return v; }
static std::vector<X*> named(X& o, const std::string& t) { std::vector<X*> v, r; all(o, v); for (X* i : v) if (i->tag == t) r.push_back(i); return r; }
static std::string* att(X& o, const std::string& k) { for (auto& i : o.a) if (i.first == k) return &i.second; return nullptr; }
// ---- valid documents
static void writeStlFile(const std::string& fn, const Mesh& m)
{
    std::ofstream f(fn.c_str()); f << "solid m\n"; char b[200];
    for (auto& t : m.f) { f << "facet normal 0 0 0\nouter loop\n"; for (int k : t) { snprintf(b, sizeof b, "vertex %.9g %.9g %.9g\n", m.v[k](0) / 1000, m.v[k](1) / 1000, m.v[k](2) / 1000); f << b; } f << "endloop\nendfacet\n"; }
    f << "endsolid m\n";
}
static std::string prims(Rng& r)
{
    std::string x = "<Primitives>"; for (int k = 0; k < r.i(1, 3); k++)
    {
        int t = r.i(0, 2); std::string tr = r.p(0.5) ? "<Transform>" + xmlMat(toF(r.pose(100))) + "</Transform>" : "", u = r.p(0.5) ? " units='mm'" : "";
        if (t == 0) x += "<Box width='12.5' height='30' depth='7'" + u + ">" + tr + "</Box>"; if (t == 1) x += "<Sphere radius='20'" + u + ">" + tr + "</Sphere>"; if (t == 2) x += "<Cylinder radius='10' height='40'" + u + ">" + tr + "</Cylinder>";
    }
    return x + "</Primitives>";
}
static std::string model(Rng& r)
{
    std::string x; bool use = false; if (r.p(0.6)) { use = r.p(0.3); bool f = r.p(0.4); x += std::string("<Visualization enable='true'") + (use && r.p(0.5) ? " useAsCollisionModel='true'>" : ">") + (f ? "<File type='inventor' boundingbox='" + std::string(r.p(0.3) ? "true" : "false") + "'>m.stl</File>" : prims(r)) + (f && r.p(0.2) ? "<CoordinateAxis type='inventor' enable='true' scaling='2' text='axis'/>" : "") + (use && !strstr(x.c_str(), "useAs") ? "<UseAsCollisionModel/>" : "") + "</Visualization>"; if (strstr(x.c_str(), "useAs") && strstr(x.c_str(), "<UseAs")) x = ""; }
    if (!use && r.p(0.5)) x += "<CollisionModel>" + (r.p(0.4) ? std::string("<File type='inventor'>m.stl</File>") : prims(r)) + "</CollisionModel>";
    return x;
}
static std::string phys(Rng& r) { NodeDef n; n.mass = F(r.u(0.1, 10)); n.com = V3(1, 2, 3); n.inertia = M3::Identity(); n.sim = r.i(0, 3); std::string s = physXml(n); return s.substr(0, s.size() - 10) + "<IgnoreCollision name='N0'/><Friction value='0.5'/></Physics>"; }
static RobotDef genDef(Rng& r) { GenOpt g; g.maxNodes = 6; g.models = r.p(0.4); g.xmlNotations = r.p(0.5); g.phys = r.p(0.5); g.sensors = r.p(0.5); RobotDef d = genRobot(r, g); d.name = "Robot"; d.type = "TypeX"; return d; }
static std::string robotDoc(Rng& r, const RobotDef& d, bool include)
{
    X t = tree(toXml(d)); for (size_t i = 0; i < t.c.size(); i++) if (t.c[i].tag == "RobotNode" && r.p(0.3) && named(t.c[i], "Visualization").empty() && named(t.c[i], "CollisionModel").empty()) { X m = tree("<A>" + model(r) + "</A>"); for (auto& k : m.c) t.c[i].c.push_back(k); }
    if (include) for (auto& k : t.c) if (k.tag == "RobotNode" && r.p(0.3)) { k.c.push_back(tree("<ChildFromRobot><File importEEF='true'>child.xml</File></ChildFromRobot>")); break; }
    const std::string& tcp = r.pick(d.n).name; std::string e = fmt("<Endeffector name='Hand' base='%s' tcp='%s' gcp='%s'>", d.n[0].name.c_str(), tcp.c_str(), tcp.c_str());
    auto js = d.joints(); e += fmt("<Preshape name='Open' tcp='%s'>", tcp.c_str()); for (int j : js) e += fmt("<Node name='%s' unit='%s' value='%g'/>", d.n[j].name.c_str(), d.n[j].type == REV ? "radian" : "mm", d.n[j].init); e += "</Preshape><Static>";
    e += fmt("<Node name='%s'/></Static><Actor name='Finger'>", d.n[0].name.c_str()); e += fmt("<Node name='%s' considerCollisions='All' direction='-0.5'/>", d.n[js[0]].name.c_str()); e += "</Actor></Endeffector>";
    if (r.p(0.7)) t.c.push_back(tree(e));
    return str(t);
}
static std::string graspSets(Rng& r)
{
    std::string x; for (int k = 0; k < r.i(0, 2); k++) { x += fmt("<GraspSet name='Set %d' RobotType='TypeX' EndEffector='Hand'>", k); for (int g = 0; g < r.i(1, 3); g++) x += fmt("<Grasp name='Grasp %d' quality='0.5' Creation='by hand' Preshape='Open'><Transform>", g) + xmlMat(toF(r.pose(100))) + "</Transform><Configuration name='c'><Node name='N0' unit='radian' value='0.3'/></Configuration></Grasp>"; x += "</GraspSet>"; } return x;
}
static std::string objDoc(Rng& r, bool man, const std::string& name) { std::string t = man ? "ManipulationObject" : "Obstacle", x = "<" + t + " name='" + name + "'>" + model(r); if (r.p(0.6)) x += phys(r); if (man) x += graspSets(r); if (r.p(0.6)) x += "<GlobalPose><Transform>" + xmlMat(toF(r.pose(500))) + "</Transform></GlobalPose>"; return x + "</" + t + ">\n"; }
static std::string sceneDoc(Rng& r, const RobotDef& d, bool link)
{
    auto js = d.joints(); std::string x = "<Scene name='World'>\n<Robot name='Robot' initConfig='start'><File>robot.xml</File><GlobalPose><Transform>" + xmlMat(toF(r.pose(500))) + "</Transform></GlobalPose>";
    for (const char* n : {"start", "other"}) { x += fmt("<Configuration name='%s' tcp='%s'>", n, d.n[0].name.c_str()); for (int j : js) x += fmt("<Node name='%s' unit='%s' value='%g'/>", d.n[j].name.c_str(), d.n[j].type == REV ? "radian" : "mm", d.n[j].init); x += "</Configuration>"; }
    x += fmt("<RobotNodeSet name='Extra' kinematicRoot='%s' tcp='%s'>", d.n[0].name.c_str(), d.n.back().name.c_str()) + fmt("<Node name='%s'/></RobotNodeSet></Robot>\n", d.n[js[0]].name.c_str());
    x += objDoc(r, false, "Wall"); x += link ? "<ManipulationObject name='Thing'><File>thing.xml</File></ManipulationObject>\n" : objDoc(r, true, "Thing");
    x += "<SceneObjectSet name='Both'><SceneObject name='Wall'/><SceneObject name='Thing'/></SceneObjectSet>\n";
    x += fmt("<Trajectory Robot='TypeX' RobotNodeSet='%s' name='Traj' dim='%zu'>", d.sets[0].name.c_str(), d.sets[0].nodes.size()); for (int k = 0; k < 2; k++) { x += fmt("<Point id='%d'>", k); for (size_t i = 0; i < d.sets[0].nodes.size(); i++) x += fmt("<c value='0.%zu'/>", i); x += "</Point>"; } x += "</Trajectory>\n";
    return x + "</Scene>\n";
}
// ---- oracles on whatever was loaded
static void useObject(ObstaclePtr o, const std::string& key)
{
    if (!o) return; o->setGlobalPose(f4(toF(T(1, 2, 3)))); o->getName(); o->getMass(); o->getInertiaMatrix(); Eigen::Vector3f c = o->getCoMGlobal(); (void)c;
    if (o->getVisualization()) { o->getVisualization()->getTriMeshModel(); o->getNumFaces(false); }
    if (o->getCollisionModel()) { TriMeshModelPtr t = o->getCollisionModel()->getTriMeshModel(); if (t) for (auto& f : t->faces) if (!check(f.id1 < t->vertices.size() && f.id2 < t->vertices.size() && f.id3 < t->vertices.size(), key + "/mesh-index", "face refers to a missing vertex")) break; o->getNumFaces(true); o->getCollisionModel()->getBoundingBox(true); }
    if (ManipulationObjectPtr m = boost::dynamic_pointer_cast<ManipulationObject>(o)) { for (auto& s : m->getAllGraspSets()) { check((bool)s && !s->getName().empty() && !s->getRobotType().empty() && !s->getEndEffector().empty(), key + "/grasp-set", "incomplete grasp set was accepted"); for (auto& g : s->getGrasps()) g->getTcpPoseGlobal(m->getGlobalPose()); } ManipulationObjectPtr k = m->clone("copy"); check(k->getAllGraspSets().size() == m->getAllGraspSets().size(), key + "/clone", "clone differs"); }
    else { ObstaclePtr k = o->clone("copy"); check((bool)k, key + "/clone", "no clone"); }
    ev(2);
}
static void useRobot(RobotPtr p, const std::string& key)
{
    if (!p) return; auto nodes = p->getRobotNodes(); RobotNodePtr root = p->getRootNode();
    if (!check((bool)root && !nodes.empty(), key + "/root", "no root")) return;
    std::set<std::string> names; std::map<SceneObjectPtr, int> seen; std::vector<SceneObjectPtr> todo(1, root);
    for (auto& n : nodes) { check((bool)n && names.insert(n->getName()).second, key + "/names", "two nodes are called %s", n->getName().c_str()); check(p->getRobotNode(n->getName()) == n && p->hasRobotNode(n), key + "/by-name", "%s", n->getName().c_str()); check(n->getRobot() == p, key + "/owner", "%s belongs to another robot", n->getName().c_str()); }
    size_t guard = 0, limit = nodes.size() * 20 + 1000; while (!todo.empty() && guard++ < limit) { SceneObjectPtr o = todo.back(); todo.pop_back(); if (seen[o]++) { check(false, key + "/tree", "%s is reached twice", o->getName().c_str()); break; } for (auto& k : o->getChildren()) { check(k->getParent() == o, key + "/parent", "child %s of %s has another parent", k->getName().c_str(), o->getName().c_str()); todo.push_back(k); } }
    check(guard < limit, key + "/tree", "cycle"); if (guard >= limit) return;
    for (auto& n : nodes) check(seen.count(n), key + "/unreachable", "%s is not below the root", n->getName().c_str());
    for (auto& s : p->getRobotNodeSets()) { for (auto& n : s->getAllRobotNodes()) check(p->hasRobotNode(n), key + "/set", "%s contains a foreign node", s->getName().c_str()); check(s->getTCP() && s->getKinematicRoot(), key + "/set-frames", "%s has no TCP or root", s->getName().c_str()); std::vector<float> q = s->getJointValues(); s->setJointValues(q); }
    for (auto& e : p->getEndEffectors()) { check(e->getTcp() && e->getBase() && e->getGCP(), key + "/eef-frames", "%s has no base, TCP or GCP", e->getName().c_str()); std::vector<EndEffectorActorPtr> av; e->getActors(av); std::vector<RobotNodePtr> sv; e->getStatics(sv); for (auto& n : e->getPreshapes()) { e->setPreshape(n); check(e->getPreshape(n) != nullptr, key + "/preshape", "%s", n.c_str()); } if (e->getTcp() && e->getBase()) { e->openActors(); e->getConfiguration(); } }
    for (auto& n : nodes) { bool j = n->isRotationalJoint() || n->isTranslationalJoint(); if (j) { n->setJointValue(n->getJointLimitLo()); n->setJointValue(0.3f); check(n->isLimitless() || n->getJointLimitLo() > n->getJointLimitHi() || (n->getJointValue() >= n->getJointLimitLo() && n->getJointValue() <= n->getJointLimitHi()), key + "/limits", "%s holds %g outside of its limits", n->getName().c_str(), n->getJointValue()); } n->getGlobalPose(); for (auto& s : n->getSensors()) s->getGlobalPose(); n->getMass(); }
    p->setGlobalPose(f4(toF(T(1, 2, 3)))); p->getCoMGlobal(); p->getMass(); p->getNumFaces(true); p->getConfig();
    std::string x = p->toXML(".", "models", true, true, true); check(!x.empty(), key + "/to-xml", "nothing written");
    RobotPtr k = p->clone("copy"); check(k && k->getRobotNodes().size() == nodes.size(), key + "/clone", "%zu of %zu nodes", k ? k->getRobotNodes().size() : 0, nodes.size());
    ev(5);
}
static void useScene(ScenePtr s, const std::string& key)
{
    if (!s) return; for (auto& p : s->getRobots()) { useRobot(p, key); for (auto& c : s->getRobotConfigs(p)) { c->setJointValues(); c->getTCP(); } }
    for (auto& o : s->getObstacles()) useObject(o, key); for (auto& o : s->getManipulationObjects()) useObject(o, key);
    for (auto& o : s->getSceneObjectSets()) for (auto& k : o->getSceneObjects()) check((bool)k, key + "/set-member", "null member");
    for (auto& t : s->getTrajectories()) { check((bool)t->getRobotNodeSet(), key + "/trajectory", "no node set"); for (unsigned i = 0; i < t->getNrOfPoints(); i++) check(t->getPoint(i).rows() == (int)t->getRobotNodeSet()->getSize(), key + "/trajectory-dim", "point of %ld values", (long)t->getPoint(i).rows()); if (t->getNrOfPoints()) { Eigen::VectorXf v; t->interpolate(0.5f, v); } }
    std::string d = S().scratch; s->getXMLString(d); ev(2);
}
struct Kind { int k; std::string doc, base; RobotIO::RobotDescription mode; };
// 1: loaded, 0: rejected
static int load(const Kind& k, const std::string& x, const std::string& key, bool use, std::string* out = nullptr)
{
    Watch w; if (getenv("VH_SHOW")) fprintf(stderr, "LOAD %s\n", x.c_str());
    try
    {
        if (k.k == 0) { RobotPtr p = RobotIO::createRobotFromString(x, k.base, k.mode); if (!p) { check(false, key + "/null", "no robot and no exception"); return 0; } if (out) *out = p->toXML(k.base, "models", true, true, true); if (use) useRobot(p, key); }
        else if (k.k == 1) { ScenePtr p = SceneIO::createSceneFromString(x, k.base); if (!p) return 0; if (out) *out = p->getXMLString(k.base); if (use) useScene(p, key); }
        else if (k.k == 2) { ObstaclePtr p = ObjectIO::createObstacleFromString(x, k.base); if (!p) return 0; if (out) *out = p->toXML(k.base); if (use) useObject(p, key); }
        else { ManipulationObjectPtr p = ObjectIO::createManipulationObjectFromString(x, k.base); if (!p) return 0; if (out) *out = p->toXML(k.base); if (use) useObject(p, key); }
        return 1;
    }
    catch (VirtualRobotException& e) { check(strlen(e.what()) > 0, key + "/message", "empty message"); if (getenv("VH_SHOW")) fprintf(stderr, "REJECTED %s\n", e.what()); return 0; }
    catch (std::exception& e) { check(false, key + "/exception", "%s instead of a VirtualRobotException: %s", typeid(e).name(), e.what()); return 0; }
}
static Kind genKind(Rng& r)
{
    Kind k; std::string d = S().scratch; k.base = d; k.k = r.pick({0, 0, 0, 1, 1, 2, 3}); k.mode = r.pick({RobotIO::eFull, RobotIO::eFull, RobotIO::eCollisionModel, RobotIO::eStructure});
    writeStlFile(d + "/m.stl", starMesh(r, 50, 0.3, 4, 5)); RobotDef rd = genDef(r);
    if (k.k <= 1) { RobotDef c; NodeDef n; n.name = "C0"; c.n.push_back(n); c.name = "Child"; c.n[0].type = REV; c.n[0].axis = V3(0, 0, 1); SetDef s; s.name = "CSet"; s.nodes.push_back(0); c.sets.push_back(s); std::ofstream((d + "/child.xml").c_str()) << toXml(c); }
    if (k.k == 0) k.doc = robotDoc(r, rd, true);
    if (k.k == 1) { std::ofstream((d + "/robot.xml").c_str()) << robotDoc(r, rd, r.p(0.5)); bool link = r.p(0.4); if (link) std::ofstream((d + "/thing.xml").c_str()) << objDoc(r, true, "Linked"); k.doc = sceneDoc(r, rd, link); }
    if (k.k == 2) k.doc = objDoc(r, false, "Wall"); if (k.k == 3) k.doc = objDoc(r, true, "Thing");
    return k;
}
static const char* kname(int k) { static const char* n[] = {"robot", "scene", "obstacle", "manipulation-object"}; return n[k]; }
static std::string hostile(Rng& r, X& t)
{
    static const std::vector<std::string> v = {"", " ", "nan", "inf", "-inf", "-1", "0", "-0", "1e9", "-1e9", "1e39", "1e-5", "abc", "4294967296", "-2147483648", "999999999999", "true", "false", "1,5", "0x10", "&amp;", "&#65;", "..", "/", "/dev/null", "a/b", "mm", "m", "rad", "deg", "kg", "g", "sec", "revolute", "prismatic", "fixed", "inventor", "none", "all", "N0", "\xff\xfe", std::string(300, 'x'), std::string(70000, 'y')};
    if (r.p(0.35)) { auto n = all(t); for (int k = 0; k < 20; k++) { X* x = n[r.i(0, (int)n.size() - 1)]; if (!x->a.empty()) return x->a[r.i(0, (int)x->a.size() - 1)].second; } }
    return r.pick(v);
}
static std::string damage(Rng& r, X t, std::string& what)
{
    int ops = r.pick({1, 1, 1, 2, 3});
    for (int o = 0; o < ops; o++)
    {
        auto n = all(t); X& x = *n[r.i(0, (int)n.size() - 1)]; int op = r.i(0, 11); std::vector<X*> wa; for (X* k : n) if (!k->a.empty()) wa.push_back(k);
        X& y = wa.empty() ? x : *wa[r.i(0, (int)wa.size() - 1)];
        if (op <= 1 && !y.a.empty()) { int i = r.i(0, (int)y.a.size() - 1); what += " -" + y.tag + "." + y.a[i].first; y.a.erase(y.a.begin() + i); }
        else if (op <= 4 && !y.a.empty()) { int i = r.i(0, (int)y.a.size() - 1); std::string h = hostile(r, t); what += " " + y.tag + "." + y.a[i].first + "=" + h.substr(0, 20); y.a[i].second = h; }
        else if (op == 5 && !y.a.empty()) { int i = r.i(0, (int)y.a.size() - 1); if (r.p(0.5)) { y.a.push_back(y.a[i]); what += " dup " + y.tag + "." + y.a[i].first; } else { what += " rename " + y.tag + "." + y.a[i].first; y.a[i].first = y.a[r.i(0, (int)y.a.size() - 1)].first + "x"; } }
        else if (op == 6 && !x.c.empty()) { int i = r.i(0, (int)x.c.size() - 1); what += " -" + x.tag + "/" + x.c[i].tag; x.c.erase(x.c.begin() + i); }
        else if (op == 7 && !x.c.empty()) { int i = r.i(0, (int)x.c.size() - 1); X k = x.c[i]; what += " dup " + x.tag + "/" + k.tag; x.c.insert(x.c.begin() + r.i(0, (int)x.c.size()), k); }
        else if (op == 8) { X k = *n[r.i(1, std::max(1, (int)n.size() - 1)) % n.size()]; if (k.c.size() < 8) { what += " copy " + k.tag + " into " + x.tag; x.c.insert(x.c.begin() + r.i(0, (int)x.c.size()), k); } }
        else if (op == 9) { std::string tg = n[r.i(0, (int)n.size() - 1)]->tag; what += " " + x.tag + " becomes " + tg; x.tag = r.p(0.8) ? tg : "Nonsense"; }
        else if (op == 10) { what += " text in " + x.tag; x.text = hostile(r, t); }
        else if (op == 11 && x.c.size() > 1) { r.shuffle(x.c); what += " shuffled " + x.tag; }
    }
    std::string s = str(t);
    if (r.p(0.12)) { what += " cut"; s.resize(r.i(0, (int)s.size())); }
    if (r.p(0.12)) { what += " bytes"; for (int k = 0; k < r.i(1, 4) && !s.empty(); k++) { int p = r.i(0, (int)s.size() - 1); int m = r.i(0, 2); if (m == 0) s[p] = (char)r.i(1, 255); else if (m == 1) s.erase(p, r.i(1, 5)); else s.insert(p, 1, r.pick({'<', '>', '\'', '/', '&', ' ', '?', '!'})); } }
    return s;
}
static void damaged(Rng& r)
{
    Kind k = genKind(r); std::string key = kname(k.k), a, b; at("valid %s: %s", kname(k.k), k.doc.substr(0, 1500).c_str());
    if (!check(load(k, k.doc, key + "/valid", true, &a) == 1, key + "/valid", "a valid document was rejected")) return;
    X t = tree(k.doc);
    for (int i = 0; i < 8; i++)
    {
        std::string what; std::string x = damage(r, t, what), o1, o2; at("%s after%s", kname(k.k), what.substr(0, 300).c_str());
        int l = load(k, x, key, true, &o1); count(l ? "damaged-loaded" : "damaged-rejected"); if (k.k == 1) count("damaged-scenes"); sig(x);
        if (l && r.p(0.2)) { at("%s again after%s", kname(k.k), what.substr(0, 300).c_str()); int m = load(k, x, key, false, &o2); check(m == l && (o1 == o2 || k.k == 0), key + "/deterministic", "loading the same text twice differs"); ev(1); }
    }
    at("%s: the valid document again", kname(k.k)); check(load(k, k.doc, key + "/valid-again", false, &b) == 1 && (k.k == 0 || a == b), key + "/valid-again", "the valid document loads differently after damaged ones"); ev(3);
}
// ---- one defect that has to be reported
static void defects(Rng& r)
{
    Kind k = genKind(r); k.mode = RobotIO::eFull; X t = tree(k.doc); std::string what; bool done = false;
    auto pick = [&](const std::string& tag) -> X* { auto v = named(t, tag); return v.empty() ? nullptr : v[r.i(0, (int)v.size() - 1)]; };
    auto set = [&](const std::string& tag, const std::string& a, const std::string& v) { X* x = pick(tag); if (!x) return; std::string* p = att(*x, a); if (!p) return; *p = v; what = tag + "." + a + "=" + v; done = true; };
    auto drop = [&](const std::string& tag, const std::string& a) { X* x = pick(tag); if (!x) return; for (size_t i = 0; i < x->a.size(); i++) if (x->a[i].first == a) { x->a.erase(x->a.begin() + i); what = "no " + tag + "." + a; done = true; return; } };
    std::string x; int op = r.i(0, 20);
    if (op == 0) { x = k.doc; size_t e = x.rfind('>'); x.resize(r.i(0, (int)e - 1)); what = "cut"; done = true; }
    else if (op == 1) { X* p = pick(r.pick({std::string("RobotNode"), std::string("Joint"), std::string("RobotNodeSet"), std::string("Endeffector"), std::string("Configuration"), std::string("Obstacle"), std::string("ManipulationObject"), std::string("Scene"), std::string("Robot"), std::string("GraspSet"), std::string("Grasp"), std::string("Trajectory"), std::string("Point"), std::string("SceneObjectSet")})); if (p && named(*p, "File").empty()) { p->c.push_back(tree("<Nonsense a='1'/>")); what = "unknown tag in " + p->tag; done = true; } }
    else if (op == 2 && k.k == 0) { auto v = named(t, "RobotNode"); if (v.size() > 1) { *att(*v.back(), "name") = *att(*v.front(), "name"); what = "two nodes of one name"; done = true; } }
    else if (op == 3) set("Child", "name", "missing");
    else if (op == 4) { X* p = pick("RobotNodeSet"); if (p) { p->c.push_back(tree("<Node name='missing'/>")); what = "unknown node in a set"; done = true; } }
    else if (op == 5 && k.k == 0) { if (r.p(0.5)) { *att(t, "RootNode") = "missing"; what = "unknown root"; done = true; } else { drop("Robot", "RootNode"); } }
    else if (op == 6 && k.k == 0) { auto v = named(t, "RobotNode"); std::string rn = *att(t, "RootNode"); v.back()->c.push_back(tree("<Child name='" + rn + "'/>")); what = "the root is a child"; done = true; }
    else if (op == 7 && k.k == 0) { auto v = named(t, "RobotNode"); std::string rn = *att(t, "RootNode"), a; for (X* i : v) if (*att(*i, "name") != rn && !named(*i, "Child").empty()) { a = *att(*i, "name"); X* c = named(*i, "Child")[0]; for (X* j : v) if (*att(*j, "name") == *att(*c, "name")) { j->c.push_back(tree("<Child name='" + a + "'/>")); what = "two nodes are each other's child"; done = true; } break; } }
    else if (op == 8 && k.k == 0) { auto v = named(t, "RobotNode"); std::vector<std::string> ch; for (X* i : v) for (X* c : named(*i, "Child")) ch.push_back(*att(*c, "name")); if (!ch.empty() && v.size() > 2) { X* p = nullptr; for (X* i : v) { bool has = false; for (X* c : named(*i, "Child")) has |= *att(*c, "name") == ch[0]; if (!has && *att(*i, "name") != ch[0]) p = i; } if (p) { p->c.push_back(tree("<Child name='" + ch[0] + "'/>")); what = "a node with two parents"; done = true; } } }
    else if (op == 9 && k.k == 0) { t.c.insert(t.c.begin(), tree("<RobotNode name='Lonely'/>")); what = "a node without parent"; done = true; }
    else if (op == 10) { X* p = pick(r.pick({std::string("row1"), std::string("row2"), std::string("row3"), std::string("Translation"), std::string("Quaternion"), std::string("Axis"), std::string("TranslationDirection"), std::string("Mass"), std::string("CoM"), std::string("Box"), std::string("Sphere"), std::string("Cylinder"), std::string("MaxVelocity"), std::string("MaxTorque"), std::string("c"), std::string("Friction")})); if (p) { std::vector<int> ok; for (size_t i = 0; i < p->a.size(); i++) { std::string n = p->a[i].first; if (n != "units" && n != "location" && n != "name") ok.push_back(i); } if (!ok.empty()) { int i = ok[r.i(0, (int)ok.size() - 1)]; bool opt = p->tag == "CoM"; if (r.p(0.5) || opt) { p->a[i].second = r.pick({std::string("abc"), std::string(""), std::string("nan"), std::string("1e999"), std::string("--1")}); what = p->tag + "." + p->a[i].first + "=" + p->a[i].second; } else { what = "no " + p->tag + "." + p->a[i].first; p->a.erase(p->a.begin() + i); } done = true; } } }
    else if (op == 11) { if (k.k >= 1) { X* p = pick(k.k == 1 && r.p(0.3) ? "Scene" : k.k == 3 ? "ManipulationObject" : "Obstacle"); if (p) { if (r.p(0.5)) p->a.clear(), what = "no name of " + p->tag; else *att(*p, "name") = "", what = "empty name of " + p->tag; done = true; } } }
    else if (op == 12) { if (r.p(0.5)) drop("GraspSet", r.pick({std::string("name"), std::string("RobotType"), std::string("EndEffector")})); else set("GraspSet", r.pick({std::string("name"), std::string("RobotType"), std::string("EndEffector")}), ""); }
    else if (op == 13 && k.k == 1) { if (r.p(0.5)) set("SceneObject", "name", "missing"); else set("Trajectory", r.pick({std::string("Robot"), std::string("RobotNodeSet")}), "missing"); }
    else if (op == 14 && k.k == 1) { X* p = pick("Point"); if (p) { if (r.p(0.5) && !p->c.empty()) { p->c.pop_back(); what = "short trajectory point"; } else { p->c.push_back(tree("<c value='1'/>")); what = "long trajectory point"; } done = true; } }
    else if (op == 15 && k.k == 1) { X* p = pick("Robot"); if (p) { int o = r.i(0, 3); if (o == 0) { for (size_t i = 0; i < p->c.size(); i++) if (p->c[i].tag == "File") { p->c.erase(p->c.begin() + i); break; } what = "robot without file"; } else if (o == 1) { for (auto& i : p->c) if (i.tag == "File") i.text = "missing.xml"; what = "missing robot file"; } else if (o == 2) { *att(*p, "initConfig") = "missing"; what = "unknown initial configuration"; } else { p->c.push_back(tree("<File>robot.xml</File>")); what = "two robot files"; } done = true; } }
    else if (op == 16 && k.k == 0) { X* p = pick("Endeffector"); if (p) { *att(*p, r.pick({std::string("base"), std::string("tcp"), std::string("gcp")})) = "missing"; what = "unknown end effector node"; done = true; } }
    else if (op == 17) { X* p = pick("Actor"); if (p && !p->c.empty()) { if (r.p(0.5)) { *att(p->c[0], "name") = "missing"; what = "unknown actor node"; } else { *att(p->c[0], "considerCollisions") = "sometimes"; what = "unknown collision mode"; } done = true; } }
    else if (op == 18 && k.k == 0) { X* p = pick("Joint"); if (p) { *att(*p, "type") = "spherical"; what = "unknown joint type"; done = true; } }
    else if (op == 19 && k.k == 0) { X* p = pick("RobotNode"); if (p) { int o = r.i(0, 2); const char* tg[] = {"Joint", "Physics", "Visualization"}; auto v = named(*p, tg[o]); if (!v.empty()) { X c = *v[0]; p->c.push_back(c); what = std::string("two ") + tg[o] + " tags"; done = true; } } }
    else if (op == 20 && k.k == 1) { X* p = pick("Configuration"); if (p) { if (r.p(0.5)) { p->a.erase(p->a.begin()); what = "configuration without name"; } else if (!p->c.empty()) { p->c[0].a.erase(p->c[0].a.begin()); what = "configuration entry without name"; } done = !what.empty(); } }
    if (!done) return; if (x.empty() && what != "cut") x = str(t);
    at("%s with one defect: %s", kname(k.k), what.c_str()); int l = load(k, x, std::string("defect/") + kname(k.k), true);
    std::string w = what; if (what.find('=') != std::string::npos) w = what.substr(0, what.find('='));
    check(l == 0, std::string("accepted/") + kname(k.k) + "/" + w, "a document with this defect was loaded: %s", what.c_str()); count("defects"); sig(hmix(std::hash<std::string>()(what), k.k)); ev(1);
}
// ---- files that include themselves
static void cycles(Rng& r)
{
    std::string d = S().scratch; int op = r.i(0, 2); Watch w; at("inclusion cycle %d", op); bool rej = false; std::string msg;
    if (op == 0) { int n = r.i(1, 3); for (int i = 0; i < n; i++) std::ofstream(fmt("%s/cyc%d.xml", d.c_str(), i).c_str()) << fmt("<Robot Type='T%d' RootNode='R%d'><RobotNode name='R%d'><ChildFromRobot><File>cyc%d.xml</File></ChildFromRobot></RobotNode></Robot>", i, i, i, (i + 1) % n); try { RobotIO::loadRobot(d + "/cyc0.xml"); } catch (VirtualRobotException& e) { rej = true; } }
    else { int n = r.i(1, 3); const char* tg = op == 1 ? "ManipulationObject" : "Obstacle"; for (int i = 0; i < n; i++) std::ofstream(fmt("%s/cyc%d.xml", d.c_str(), i).c_str()) << fmt("<%s name='A'><File>cyc%d.xml</File></%s>", tg, (i + 1) % n, tg); try { if (op == 1) ObjectIO::loadManipulationObject(d + "/cyc0.xml"); else ObjectIO::loadObstacle(d + "/cyc0.xml"); } catch (VirtualRobotException&) { rej = true; } }
    check(rej, "cycle/accepted", "files including each other were loaded"); count("cycles"); ev(1);
}
// ---- meshes
static void stl(Rng& r)
{
    Mesh m = starMesh(r, r.u(1, 100), 0.3, r.i(3, 5), r.i(3, 6)); std::string d = S().scratch, s; bool bin = r.p(0.5); char b[200];
    if (bin) { s.assign(80, ' '); uint32_t n = m.f.size(); s.append((char*)&n, 4); for (auto& t : m.f) { float v[12] = {0}; for (int k = 0; k < 3; k++) for (int c = 0; c < 3; c++) v[3 + 3 * k + c] = m.v[t[k]](c); s.append((char*)v, 48); s.append(2, 0); } }
    else { s = "solid m\n"; for (auto& t : m.f) { s += "facet normal 0 0 1\nouter loop\n"; for (int k : t) { snprintf(b, sizeof b, "vertex %.9g %.9g %.9g\n", m.v[k](0), m.v[k](1), m.v[k](2)); s += b; } s += "endloop\nendfacet\n"; } s += "endsolid m\n"; }
    for (int i = 0; i < 12; i++)
    {
        std::string x = s; int op = r.i(0, 7); bool cut = false;
        if (op == 0) { x.resize(r.i(0, (int)x.size())); cut = true; }
        else if (op == 1 && bin) { uint32_t n = r.pick({0u, 1u, (uint32_t)m.f.size() - 1, (uint32_t)m.f.size() + 1, 1000000u, 0x7fffffffu, 0xffffffffu}); memcpy(&x[80], &n, 4); }
        else if (op <= 3) { for (int k = 0; k < r.i(1, 6); k++) x[r.i(bin && op == 2 ? 84 : 0, (int)x.size() - 1)] = (char)r.i(0, 255); }
        else if (op == 4) { int p = r.i(0, (int)x.size() - 1); x.erase(p, r.i(1, 60)); }
        else if (op == 5) { int p = r.i(0, (int)x.size() - 1); x.insert(p, r.pick({std::string("vertex 1 2\n"), std::string("vertex a b c\n"), std::string("\n\n"), std::string("endloop\n"), std::string("facet normal\n"), std::string(3000, 'z'), std::string("\0\0\0\0", 4), std::string("outer loop\n"), std::string("endsolid\n")})); }
        else if (op == 6) x = r.pick({std::string(""), std::string("solid"), std::string("solid \n"), std::string("solid x\nfacet"), std::string("solid x\nfacet normal 0 0 0\nouter loop\nvertex"), std::string("\n"), std::string("solidendsolid"), std::string(84, '\0'), std::string(80, ' '), std::string("facet"), std::string(83, 'a')});
        else if (op == 7) { if (!bin) std::replace(x.begin(), x.end(), '\n', '\r'); }
        at("%s STL of %zu triangles, damage %d", bin ? "binary" : "text", m.f.size(), op);
        std::ofstream(d + "/bad.stl", std::ios::binary) << x; TriMeshModelPtr t(new TriMeshModel()); STLReaderPtr rd(new STLReader()); rd->setScaling(1); bool ok = false;
        { Watch w; try { ok = rd->read(d + "/bad.stl", t); } catch (VirtualRobotException&) {} catch (std::exception& e) { check(false, "stl/exception", "%s: %s", typeid(e).name(), e.what()); } }
        if (ok) { for (auto& f : t->faces) if (!check(f.id1 < t->vertices.size() && f.id2 < t->vertices.size() && f.id3 < t->vertices.size(), "stl/index", "face refers to a missing vertex")) break; check(t->faces.size() * (bin ? 48 : 20) <= x.size(), "stl/more-than-the-file", "%zu triangles from %zu bytes", t->faces.size(), x.size()); Eigen::Vector3f a, e; t->getSize(a, e); t->getCOM(); }
        if (cut && bin && x.size() < s.size() && x.size() >= 84) check(!ok, "stl/truncated-accepted", "%zu of %zu bytes were accepted", x.size(), s.size());
        count(ok ? "stl-accepted" : "stl-rejected"); sig(x); ev(1);
    }
}
static void badCase(Rng& r) { int k = r.i(0, 19); if (k < 11) damaged(r); else if (k < 16) for (int i = 0; i < 5; i++) defects(r); else if (k < 19) stl(r); else cycles(r); }
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C28", badCase, 1200, 30000}}); }
