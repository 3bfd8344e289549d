// C29: approach movements, grasp planning and evaluation under pose uncertainty (included by grasp.cpp).
using PU = GraspEvaluationPoseUncertainty;
static double angDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
static M4 rpyPose(const double* p) { M4 m = M4::Identity(); m.block<3, 3>(0, 0) = (Eigen::AngleAxisd(p[5], V3::UnitZ()) * Eigen::AngleAxisd(p[4], V3::UnitY()) * Eigen::AngleAxisd(p[3], V3::UnitX())).toRotationMatrix(); m.block<3, 1>(0, 3) = V3(p[0], p[1], p[2]); return m; }
static void rpyOf(const M4& m, double* p) { p[0] = m(0, 3); p[1] = m(1, 3); p[2] = m(2, 3); p[4] = std::atan2(-m(2, 0), std::sqrt(m(0, 0) * m(0, 0) + m(1, 0) * m(1, 0))); p[3] = std::atan2(m(2, 1), m(2, 2)); p[5] = std::atan2(m(1, 0), m(0, 0)); }
static void uncertainty(Rng& r)
{
    PU::PoseUncertaintyConfig cfg; double pd = r.u(1, 20), od = r.u(1, 15); cfg.init((float)pd, (float)od, r.p(0.5)); int dims = 0; bool grid = r.p(0.5); for (int i = 0; i < 6; i++) { cfg.enableDimension[i] = r.p(grid ? 0.4 : 0.7); dims += cfg.enableDimension[i]; }
    int n[6]; for (int i = 0; i < 6; i++) { n[i] = cfg.enableDimension[i] ? r.i(1, 3) : 0; double e = i < 3 ? r.u(1, 20) : r.u(0.02, 0.3); if (cfg.enableDimension[i]) { cfg.dimExtends[i] = (float)e; cfg.stepSize[i] = (float)(e / n[i]); } } if (dims > 4) for (int i = 0; i < 6; i++) n[i] = 1, cfg.stepSize[i] = cfg.dimExtends[i];
    PU u(cfg); M4 obj = toF(r.pose(500)), gc; double c[6]; bool viaContacts = r.p(0.4); EndEffector::ContactInfoVector cs;
    if (viaContacts) { int k = r.i(1, 4); V3 mean = V3::Zero(); for (int i = 0; i < k; i++) { EndEffector::ContactInfo ci; V3 p = obj.block<3, 1>(0, 3) + V3(r.u(-50, 50), r.u(-50, 50), r.u(-50, 50)); ci.distance = 0; ci.contactPointObstacleGlobal = p.cast<float>(); ci.contactPointFingerGlobal = p.cast<float>(); ci.contactPointObstacleLocal.setZero(); ci.contactPointFingerLocal.setZero(); mean += p; cs.push_back(ci); } gc = T(mean(0) / k, mean(1) / k, mean(2) / k); }
    else { for (int i = 0; i < 3; i++) c[i] = obj(i, 3) + r.u(-80, 80); c[3] = r.u(-3, 3); c[4] = r.u(-1.2, 1.2); c[5] = r.u(-3, 3); gc = toF(rpyPose(c)); }
    rpyOf(gc, c); int num = r.i(1, 12); at("uncertain poses: %s, %s, %d dimensions", grid ? "grid" : "random", viaContacts ? "contacts" : "pose", dims);
    auto ps = grid ? (viaContacts ? u.generatePoses(f4(obj), cs) : u.generatePoses(f4(obj), f4(gc))) : (viaContacts ? u.generatePoses(f4(obj), cs, num) : u.generatePoses(f4(obj), f4(gc), num));
    if (viaContacts && r.p(0.3)) check((grid ? u.generatePoses(f4(obj), EndEffector::ContactInfoVector()) : u.generatePoses(f4(obj), EndEffector::ContactInfoVector(), num)).empty(), "uncertain/no-contacts", "poses without contacts");
    size_t hiN = 1, loN = 1; for (int i = 0; i < 6; i++) { hiN *= 2 * n[i] + 1; loN *= n[i] ? 2 * n[i] : 1; } if (grid) check(ps.size() >= loN && ps.size() <= hiN, "uncertain/count", "%zu poses, the grid has %zu", ps.size(), hiN); else check((int)ps.size() == num, "uncertain/count", "%zu poses instead of %d", ps.size(), num);
    double best = INFINITY; M4 back = inv(obj) * gc; double ext = obj.block<3, 1>(0, 3).norm() + 200; std::set<std::vector<int>> cells;
    for (auto& f : ps)
    {
        M4 P = f.cast<double>(), G = P * back; double g[6]; rpyOf(G, g); best = std::min(best, (P - obj).norm()); std::vector<int> cell;
        for (int i = 0; i < 6; i++) { double d = i < 3 ? std::fabs(g[i] - c[i]) : angDiff(g[i], c[i]); double lim = !cfg.enableDimension[i] ? 0 : grid ? cfg.dimExtends[i] : i < 3 ? pd : od * M_PI / 180; check(d <= lim + (i < 3 ? 1e-5 * ext + 1e-3 : 2e-3), "uncertain/range", "grasp center dimension %d is off by %g, allowed %g", i, d, lim); if (grid && n[i]) cell.push_back((int)std::lround((i < 3 ? g[i] - c[i] : std::remainder(g[i] - c[i], 2 * M_PI)) / cfg.stepSize[i])); }
        check(std::fabs(P.block<3, 3>(0, 0).determinant() - 1) < 1e-3, "uncertain/rigid", "determinant %g", P.block<3, 3>(0, 0).determinant()); cells.insert(cell);
    }
    if (grid) { check(best < 1e-4 * ext + 0.02, "uncertain/center", "no pose of the grid is that of the object (best differs by %g)", best); bool fine = true; for (int i = 0; i < 6; i++) fine &= !n[i] || cfg.stepSize[i] > (i < 3 ? 0.3 : 0.01); if (fine) check(cells.size() == ps.size(), "uncertain/distinct", "%zu distinct poses of %zu", cells.size(), ps.size()); count("grids"); } else count("sampled");
    sig(hmix(ps.size(), (uint64_t)(int64_t)(obj(0, 3) * 1000)));
}
struct Target { Mesh m; M4 pose; ManipulationObjectPtr o; Mesh world() const { return m.moved(pose); } };
static Target target(Rng& r, const Hand& h, const std::string& name, double e, bool plate)
{
    Target t; t.m = plate ? boxMesh(V3(e, e, e * 0.05)) : r.p(0.5) ? boxMesh(V3(e, e * r.u(0.3, 1), e * r.u(0.3, 1))) : starMesh(r, e / 2, r.pick({0.0, 0.3}), 4, r.i(4, 7)); if (!plate && r.p(0.25)) { Mesh b = boxMesh(V3(e * 0.5, e * 0.5, e * 2)).moved(T(e * 1.5, 0, 0)); t.m.append(b); } if (r.p(0.5)) t.m = t.m.moved(toF(r.pose(e)));
    t.pose = r.p(0.2) ? M4(M4::Identity()) : toF(r.pose(r.pick({100.0, 800.0}))); t.o.reset(new ManipulationObject(name, VisualizationNodePtr(), meshCol(t.m, h.p->getCollisionChecker()), SceneObject::Physics(), h.p->getCollisionChecker())); t.o->setGlobalPose(f4(t.pose)); return t;
}
// 1 if a part of the hand of robot p (nodes given) surely collides with the mesh
static int collides(const Hand& h, RobotPtr p, const std::vector<int>& nodes, const Mesh& w, double ext)
{
    int res = 0; for (int i : nodes) if (h.has[i]) { RobotNodePtr n = p->getRobotNode(h.d.n[i].name); if (!n) continue; int x = hit(h.mesh[i].moved(n->getGlobalPose().cast<double>()), w, ext); if (x == 1) return 1; if (x < 0) res = -1; } return res;
}
static std::vector<int> partsOf(const Hand& h) { std::vector<int> v = h.stat; for (auto& a : h.act) v.insert(v.end(), a.node.begin(), a.node.end()); return v; }
static std::vector<double> jointsOf(RobotPtr p) { std::vector<double> v; for (auto& n : p->getRobotNodes()) v.push_back(n->getJointValue()); return v; }
static void planCase(Rng& r)
{
    uncertainty(r); Hand h = genHand(r); std::string ps; std::vector<int> parts = partsOf(h); int tcpN = h.gcp;
    for (auto& a : h.act) for (int n : a.node) if (r.p(0.3)) h.p->getRobotNode(h.d.n[n].name)->setJointValue((float)r.u(h.d.n[n].lo, h.d.n[n].hi));
    if (r.p(0.5)) { RobotConfigPtr c(new RobotConfig(h.p, "Pre")); for (int i : parts) if (h.d.n[i].type != FIX) c->setConfig(h.d.n[i].name, (float)(h.d.n[i].lo + (h.d.n[i].hi - h.d.n[i].lo) * r.u(0, 0.6))); if (r.p(0.6)) { tcpN = r.p(0.5) ? h.tcp : h.base; c->setTCP(h.p->getRobotNode(h.d.n[tcpN].name)); } h.e->registerPreshape(c); ps = "Pre"; }
    bool plate = r.p(0.15), byArea = r.p(0.5); double e = r.pick({15.0, 30.0, 60.0}), retreat = r.p(0.5) ? 0 : r.u(5, 150); Target t = target(r, h, "Target", plate ? 200 : e, plate); double ext = t.pose.block<3, 1>(0, 3).norm() + 500; at("approach: preshape '%s' (TCP %s), retreat %g, by area %d, %zu parts", ps.c_str(), h.d.n[tcpN].name.c_str(), retreat, byArea, parts.size());
    auto q0 = jointsOf(h.p); M4 p0 = h.p->getGlobalPose().cast<double>(); RobotNodePtr tcp0 = h.p->getRobotNode(h.d.n[tcpN].name);
    boost::shared_ptr<ApproachMovementSurfaceNormal> ap(new ApproachMovementSurfaceNormal(t.o, h.e, ps, (float)retreat, byArea)); RobotPtr cl = ap->getEEFRobotClone(); EndEffectorPtr ce = ap->getEEF();
    if (!check(cl && cl != h.p && ce && ce != h.e && ap->getEEFOriginal() == h.e && ap->getObject() == t.o && ap->getGCPJoint() == h.d.n[h.gcp].name, "approach/parts", "wrong parts")) return; RobotNodePtr ct = cl->getRobotNode(h.d.n[tcpN].name); if (!check((bool)ct, "approach/parts", "no node %s in the clone", h.d.n[tcpN].name.c_str())) return;
    auto near = [&](const Eigen::Matrix4f& a, const M4& b, const char* key) { checkPose(a.cast<double>(), b, 2e-4, 2e-5 * ext + 2e-2, key); };
    { M4 P = toF(r.pose(400)); ap->ApproachMovementGenerator::setEEFPose(f4(P)); near(ap->ApproachMovementGenerator::getEEFPose(), P, "approach/set-pose"); near(ct->getGlobalPose(), P, "approach/set-pose"); V3 d(r.u(-50, 50), r.u(-50, 50), r.u(-50, 50)); ap->updateEEFPose(VF(d.cast<float>())); P = T(d(0), d(1), d(2)) * P; near(ct->getGlobalPose(), P, "approach/update-position"); M4 D = toF(r.pose(100)); ap->updateEEFPose(f4(D)); P = D * P; near(ct->getGlobalPose(), P, "approach/update-pose"); count("eef-poses"); }
    Mesh w = t.world(); int nA = plate && byArea ? 30 : r.i(1, 4), small = 0; M4 last = M4::Identity(); bool stuck = false;
    for (int k = 0; k < nA; k++)
    {
        M4 before = ap->getEEFPose().cast<double>(); Eigen::Matrix4f N = ap->createNewApproachPose(); near(ap->getEEFPose(), before, "approach/restored"); M4 n = N.cast<double>(); V3 d = ap->getApproachDirGlobal().cast<double>(); last = n;
        checkPose(n, n, 1, 1, "approach/finite"); check((n.block<3, 3>(0, 0) * n.block<3, 3>(0, 0).transpose() - M3::Identity()).norm() < 1e-4 && n.block<3, 3>(0, 0).determinant() > 0, "approach/rigid", "not a pose"); check(std::fabs(d.norm() - 1) < 1e-4, "approach/direction", "length %g", d.norm()); check((n.block<3, 1>(0, 2) + d).norm() < 1e-3, "approach/orientation", "the z axis does not point against the approach direction");
        V3 p = n.block<3, 1>(0, 3); bool far = false; double bestT = INFINITY, off = INFINITY; for (auto& f : w.f) { V3 a = w.v[f[0]], nn = (w.v[f[1]] - a).cross(w.v[f[2]] - a); double A = nn.norm(); if (A < 1e-9) continue; nn /= A; if (nn.dot(d) < 0.999) continue; double tt = d.dot(p - a); V3 x = p - d * tt; double o = (x - closestOnTri(x, a, w.v[f[1]], w.v[f[2]])).norm(); bool in = tt > -(2e-5 * ext + 0.02), was = bestT > -(2e-5 * ext + 0.02) && bestT < INFINITY, fit = o < 2e-5 * ext + 0.05 + 1e-4 * std::fabs(tt); if (fit && tt > 999) far = true; if (fit && in ? !was || off > 2e-5 * ext + 0.05 || tt < bestT : !(was && off < 2e-5 * ext + 0.05) && o < off) { off = o; bestT = tt; } }
        double tol = 2e-5 * ext + 0.02; if (check(off < tol + 1e-4 * std::fabs(bestT) + 0.03 * 1, "approach/surface", "the approach line misses every face with that normal by %g", off)) check(bestT > -tol && bestT < 1001 + retreat, "approach/surface", "%g in front of the surface", bestT);
        stuck = far; ap->ApproachMovementGenerator::setEEFPose(N); if (!stuck) { int c = collides(h, cl, parts, w, ext); check(c != 1, "approach/collision", "the hand collides with the object at its approach pose (distance %g, retreat %g)", bestT, retreat); if (c == 0) count("approach-free"); } ap->ApproachMovementGenerator::setEEFPose(f4(before));
        if (retreat > 0 && bestT > 1) count("retreated"); if (plate) { V3 l = t.pose.block<3, 3>(0, 0).transpose() * d; (void)l; double big = 0; for (auto& f : w.f) { V3 nn = (w.v[f[1]] - w.v[f[0]]).cross(w.v[f[2]] - w.v[f[0]]); if (nn.norm() > 200 * 200 * 0.5 && nn.normalized().dot(d) > 0.99) big = 1; } small += !big; } count("approaches"); sig(hm(7, n));
    }
    if (plate && byArea) { check(small <= nA / 2, "approach/by-area", "%d of %d positions on 9%% of the area", small, nA); count("by-area"); }
    check(jointsOf(h.p) == q0 && (h.p->getGlobalPose().cast<double>() - p0).norm() == 0 && (t.o->getGlobalPose().cast<double>() - t.pose).norm() < 1e-3, "approach/original", "the original hand or the object moved");
    // planning
    boost::shared_ptr<GraspQualityMeasureWrenchSpace> qm(new GraspQualityMeasureWrenchSpace(t.o, 1, 0.7f, 5)); bool fc = r.p(0.4); double minQ = r.p(0.5) ? 0 : r.u(0.001, 0.05); GraspSetPtr gs(new GraspSet("Set", h.p->getType(), "Hand"));
    GenericGraspPlanner pl(gs, qm, ap, (float)minQ, fc); pl.setVerbose(false); pl.setRetreatOnLowContacts(r.p(0.3)); SceneObjectSetPtr obs; std::vector<Target> ob; if (r.p(0.4)) { obs.reset(new SceneObjectSet("Obs", h.p->getCollisionChecker())); Target o = target(r, h, "Obstacle", 60, false); M4 q = t.pose; q.block<3, 1>(0, 3) += r.dir() * r.u(80, 200); o.pose = q; o.o->setGlobalPose(f4(q)); obs->addSceneObject(o.o); ob.push_back(o); }
    int want = r.i(1, 3), ms = S().thorough ? 400 : 250; auto c0 = std::chrono::steady_clock::now(); int got = pl.plan(want, ms, obs); double took = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - c0).count(); S().desc += fmt("; planned %d of %d (fc %d, quality %g, obstacles %zu)", got, want, fc, minQ, ob.size());
    check(got >= 0 && got <= want && (got == want || took >= ms * 0.9), "plan/count", "%d of %d grasps after %g of %d ms", got, want, took, ms); int total = got; if (got == want && took < ms / 3 && r.p(0.7)) { int g2 = pl.plan(1, 0, obs); check(g2 == 1, "plan/no-timeout", "%d grasps without a timeout", g2); total += g2; count("no-timeout"); }
    auto planned = pl.getPlannedGrasps(); check((int)planned.size() == total && (int)gs->getSize() == total, "plan/stored", "%zu planned, %u in the set, %d reported", planned.size(), gs->getSize(), total); auto evl = pl.getEvaluation(); int gen = evl.nrGraspsGenerated;
    check(evl.nrGraspsValid == total && gen == evl.nrGraspsValid + evl.nrGraspsInvalidCollision + evl.nrGraspsInvalidContacts + evl.nrGraspsInvalidFC && (int)evl.graspScore.size() == gen && (int)evl.graspValid.size() == gen && (int)evl.timeGraspMS.size() == gen && std::count(evl.graspValid.begin(), evl.graspValid.end(), true) == total, "plan/evaluation", "%d generated: %d valid, %d colliding, %d few contacts, %d low; %zu scores", gen, evl.nrGraspsValid, evl.nrGraspsInvalidCollision, evl.nrGraspsInvalidContacts, evl.nrGraspsInvalidFC, evl.graspScore.size()); count("tries", gen); count("rejected-collision", evl.nrGraspsInvalidCollision);
    for (size_t i = 0; i < evl.graspScore.size(); i++) if (evl.graspValid[i]) check(evl.graspScore[i] >= (float)minQ, "plan/quality", "score %g below %g", evl.graspScore[i], minQ);
    if (total > 0 && !evl.graspValid.empty() && evl.graspValid.back())
    {   // the last grasp is the present state of the hand
        GraspPtr g = planned.back(); near(g->getTcpPoseGlobal(t.o->getGlobalPose()), ce->getTcp()->getGlobalPose().cast<double>(), "plan/pose"); auto cs = pl.getContacts(); check(cs.size() >= 2, "plan/contacts", "%zu contacts", cs.size()); GraspQualityMeasureWrenchSpace q2(t.o, 1, 0.7f, 5); q2.preCalculatedOWS(qm->getOWSMinOffset(), qm->getOWSVolume()); q2.setContactPoints(cs); double g2 = q2.getGraspQuality(); check(std::fabs(g2 - g->getQuality()) < 1e-3 * (g2 + 1), "plan/quality", "stored quality %g, that of the contacts %g", g->getQuality(), g2); if (fc) check(q2.isGraspForceClosure(), "plan/force-closure", "the grasp is not force closure"); count(fc ? "planned-fc" : "planned");
    }
    std::set<std::string> names;
    for (auto& g : planned)
    {
        check(names.insert(g->getName()).second && g->getEefName() == "Hand" && g->getRobotType() == h.p->getType() && gs->hasGrasp(g), "plan/grasp", "name %s, hand %s, robot %s", g->getName().c_str(), g->getEefName().c_str(), g->getRobotType().c_str()); check(g->getQuality() >= (float)minQ, "plan/quality", "%g below %g", g->getQuality(), minQ);
        M4 tp = g->getTcpPoseGlobal(t.o->getGlobalPose()).cast<double>(); cl->setJointValues(g->getConfiguration()); cl->setGlobalPoseForRobotNode(ce->getTcp(), f4(tp)); int c = collides(h, cl, h.stat, w, ext + 500); check(c != 1, "plan/collision", "a static part of the hand collides with the object at the planned grasp"); for (auto& o : ob) check(collides(h, cl, parts, o.world(), ext + 500) != 1, "plan/obstacle", "the hand collides with an obstacle at the planned grasp"); count("grasps-planned"); sig(hm(9, tp));
    }
    check(jointsOf(h.p) == q0 && (h.p->getGlobalPose().cast<double>() - p0).norm() == 0, "plan/original", "planning moved the original hand"); check((t.o->getGlobalPose().cast<double>() - t.pose).norm() < 1e-3, "plan/original", "planning moved the object");
    // evaluation under uncertainty; restores the setup
    PU::PoseUncertaintyConfig cfg; cfg.init((float)r.u(2, 15), (float)r.u(1, 8)); PU pu(cfg); RobotConfigPtr pre = ps.empty() || r.p(0.3) ? RobotConfigPtr() : h.e->getPreshape(ps);
    auto unmoved = [&](const char* key) { auto q = jointsOf(h.p); double m = 0; for (size_t i = 0; i < q.size(); i++) m = std::max(m, std::fabs(q[i] - q0[i])); check(m < 1e-5, key, "a joint of the hand is off by %g", m); near(h.p->getGlobalPose(), p0, key); near(t.o->getGlobalPose(), t.pose, key); };
    auto sane = [&](const PU::PoseEvalResults& x, int n, const char* key) { check(x.numPosesTested == n && x.numValidPoses + x.numColPoses == n && x.numForceClosurePoses >= 0 && x.numForceClosurePoses <= x.numValidPoses, key, "%d tested of %d, %d valid, %d colliding, %d force closure", x.numPosesTested, n, x.numValidPoses, x.numColPoses, x.numForceClosurePoses); if (n) check(std::fabs(x.forceClosureRate * x.numValidPoses - x.numForceClosurePoses) < 1e-3 && std::fabs(x.forceClosureRateCol * n - x.numForceClosurePoses) < 1e-3 && std::fabs(x.avgQualityCol * n - x.avgQuality * x.numValidPoses) < 1e-3 * (1 + n * x.avgQuality) && x.avgQuality >= 0, key, "rates %g %g, quality %g %g of %d valid poses", x.forceClosureRate, x.forceClosureRateCol, x.avgQuality, x.avgQualityCol, x.numValidPoses); };
    {
        std::vector<Eigen::Matrix4f> poses; int n = r.i(0, 4); M4 tcpG = h.e->getTcp()->getGlobalPose().cast<double>(); for (int i = 0; i < n; i++) poses.push_back(f4(toF(tcpG * T(r.u(-60, 60), r.u(-60, 60), r.u(-20, 120)) * toF(r.pose(1))))); auto res = pu.evaluatePoses(h.e, t.o, poses, qm, pre); sane(res, n, "evaluate/poses"); unmoved("evaluate/restored"); int col = 0, fcN = 0; double sum = 0; bool unsure = false;
        for (auto& P : poses) { if (pre) h.p->setJointValues(pre); else h.e->openActors(); int c = collides(h, h.p, parts, t.m.moved(P.cast<double>()), ext + 500); auto one = pu.evaluatePose(h.e, t.o, P, qm, pre); if (c >= 0) check(one.initialCollision == (c == 1), "evaluate/collision", "initial collision %d, expected %d", one.initialCollision, c); else unsure = true; col += one.initialCollision; if (!one.initialCollision) { sum += one.quality; fcN += one.forceClosure; } else check(!one.forceClosure && one.quality == 0, "evaluate/colliding", "a colliding pose has quality %g", one.quality); count(one.initialCollision ? "poses-colliding" : "poses-free"); }
        (void)unsure; if (n) { check(col == res.numColPoses, "evaluate/sum", "%d colliding poses instead of %d", res.numColPoses, col); check(fcN == res.numForceClosurePoses && std::fabs(sum - res.avgQuality * res.numValidPoses) < 2e-3 * (1 + sum), "evaluate/sum", "%d force closure, quality sum %g instead of %d, %g", res.numForceClosurePoses, res.avgQuality * res.numValidPoses, fcN, sum); }
        h.p->setGlobalPose(f4(p0)); auto ns = h.p->getRobotNodes(); for (size_t i = 0; i < ns.size(); i++) if (ns[i]->isRotationalJoint() || ns[i]->isTranslationalJoint()) ns[i]->setJointValue((float)q0[i]); t.o->setGlobalPose(f4(t.pose));
    }
    for (int k = 0; k < 2; k++)
    {
        M4 tp = last * T(0, 0, r.p(0.3) ? -500 : 0); if (k && !planned.empty()) tp = planned[0]->getTcpPoseGlobal(f4(t.pose)).cast<double>(); GraspPtr g(new Grasp("G", h.p->getType(), "Hand", f4(toF(inv(tp) * t.pose)), "", 0)); if (pre && r.p(0.5)) g->setPreshape(ps); int n = r.i(1, 4); auto res = pu.evaluateGrasp(g, h.e, t.o, qm, n); unmoved("evaluate/grasp-restored"); sane(res, res.numPosesTested, "evaluate/grasp"); check(res.numPosesTested == 0 || res.numPosesTested == n, "evaluate/grasp", "%d of %d poses tested", res.numPosesTested, n); count(res.numPosesTested ? "grasps-evaluated" : "grasps-without-contact");
    }
    if (r.p(0.2)) { auto x = pu.evaluatePose(EndEffectorPtr(), t.o, f4(t.pose), qm); check(!x.forceClosure && x.quality == 0, "evaluate/missing", "a result without a hand"); auto y = pu.evaluatePoses(h.e, t.o, std::vector<Eigen::Matrix4f>(1, f4(t.pose)), GraspQualityMeasurePtr()); check(y.numPosesTested == 0, "evaluate/missing", "poses tested without a measure"); auto z = pu.evaluateGrasp(GraspPtr(), h.e, t.o, qm, 2); check(z.numPosesTested == 0 && z.numForceClosurePoses == 0, "evaluate/missing", "a result without a grasp"); unmoved("evaluate/restored"); }
}
