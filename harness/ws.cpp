// C16: workspace maps against an exact model.  C17: workspace files.
#include "rob.h"
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Workspace/Manipulability.h>
#include <VirtualRobot/Workspace/WorkspaceGrid.h>
#include <VirtualRobot/Workspace/WorkspaceDataArray.h>
#include <VirtualRobot/IK/PoseQualityManipulability.h>
#include <VirtualRobot/IK/PoseQualityExtendedManipulability.h>
#include <VirtualRobot/Compression/CompressionRLE.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/VirtualRobotException.h>
#include <fstream>
#include <functional>
#include <thread>
using namespace VirtualRobot; using namespace vh;
namespace {
typedef std::array<int, 6> Vox; typedef std::array<double, 6> X6;
enum { oRPY, oXYZ, oXYZE, oHopf };
double wrap2pi(double a) { while (a < 0) a += 2 * M_PI; return a; }
X6 encode(const M4& m, int ot)
{
    X6 x; for (int i = 0; i < 3; i++) x[i] = m(i, 3); M3 r = m.block<3, 3>(0, 0);
    if (ot == oRPY) { x[4] = std::atan2(-r(2, 0), std::hypot(r(0, 0), r(1, 0))); x[5] = std::atan2(r(1, 0), r(0, 0)); x[3] = std::atan2(r(2, 1), r(2, 2)); }
    else if (ot == oXYZ || ot == oXYZE) { V3 e = r.eulerAngles(0, 1, 2); for (int i = 0; i < 3; i++) x[3 + i] = ot == oXYZ ? e(i) : e(2 - i); }
    else { Eigen::Quaterniond q(r); q.normalize(); double a = std::atan2(q.z(), q.w()), b = std::atan2(q.y(), q.x()); x[3] = wrap2pi(b - a); x[4] = wrap2pi(a + b); x[5] = std::asin(std::min(1.0, std::hypot(q.x(), q.y()))); }
    return x;
}
M4 decode(const X6& x, int ot)
{
    M3 r; M3 X, Y, Z; auto A = [](double a, int k) { return M3(Eigen::AngleAxisd(a, V3::Unit(k)).toRotationMatrix()); };
    if (ot == oRPY) r = A(x[5], 2) * A(x[4], 1) * A(x[3], 0);
    else if (ot == oXYZ) r = A(x[3], 0) * A(x[4], 1) * A(x[5], 2);
    else if (ot == oXYZE) r = A(x[5], 0) * A(x[4], 1) * A(x[3], 2);
    else { double a = (x[4] - x[3]) / 2, b = (x[4] + x[3]) / 2; Eigen::Quaterniond q(std::cos(a) * std::cos(x[5]), std::cos(b) * std::sin(x[5]), std::sin(b) * std::sin(x[5]), std::sin(a) * std::cos(x[5])); r = q.toRotationMatrix(); }
    M4 m = M4::Identity(); m.block<3, 3>(0, 0) = r; for (int i = 0; i < 3; i++) m(i, 3) = x[i]; return m;
}
struct Scene
{
    RobotDef d; RobotPtr rob; RobotNodeSetPtr set; RobotNodePtr base, tcp; std::string file; int bi = -1;
};
Scene genScene(Rng& r, bool xml, bool models = false)
{
    Scene s; GenOpt o; o.minNodes = 4; o.maxNodes = 7; o.chain = true; o.models = models; o.prop = false; o.limitless = false; o.sensors = false; s.d = genRobot(r, o);
    int joints = 0; for (auto& n : s.d.n) joints += n.type != FIX; if (!joints) return genScene(r, xml, models);
    s.d.sets.clear(); SetDef sd; sd.name = "arm"; int first = r.i(0, 2); for (size_t i = first; i < s.d.n.size(); i++) if (s.d.n[i].type != FIX) sd.nodes.push_back(i);
    if (sd.nodes.empty()) return genScene(r, xml, models); sd.root = 0; sd.tcp = (int)s.d.n.size() - 1; s.d.sets.push_back(sd);
    SetDef a; a.name = "colA"; a.nodes = {0}; s.d.sets.push_back(a); SetDef b; b.name = "colB"; b.nodes = {(int)s.d.n.size() - 1}; s.d.sets.push_back(b);
    if (xml) { s.file = S().scratch + fmt("/ws%d.xml", S().caseIdx); std::ofstream(s.file) << toXml(s.d); s.rob = RobotIO::loadRobot(s.file, RobotIO::eFull); } else s.rob = build(s.d, r.p(0.3));
    s.set = s.rob->getRobotNodeSet("arm"); s.tcp = s.set->getTCP();
    int bi = r.i(-1, sd.nodes[0] - 1); s.bi = bi; if (bi >= 0) s.base = s.rob->getRobotNode(s.d.n[bi].name);
    return s;
}
// reference map
struct Model
{
    int n[6]; double lo[6], size[6]; int ot; std::map<Vox, int> m; bool adjust; bool staleMax = false; int mx = 0; std::set<std::array<int, 3>> touched; std::function<M4()> baseInv; double range = 1000;
    X6 a0, a1; bool anyAch = false;
    int get(const Vox& v) const { auto i = m.find(v); return i == m.end() ? 0 : i->second; }
    void set(const Vox& v, int e) { touched.insert({v[0], v[1], v[2]}); int o = get(v); if (o == mx && e < o) staleMax = true; if (e) m[v] = e; else m.erase(v); mx = std::max(mx, e); }
    void inc(const Vox& v) { int o = get(v); if (o < 255) set(v, o + 1); else if (adjust) { for (auto& e : m) if (e.second > 1) e.second = std::max(1, e.second / 2); mx = mx > 1 ? std::max(1, mx / 2) : mx; } }
    int filled() const { return m.size(); }
    int top() const { int t = 0; for (auto& e : m) t = std::max(t, e.second); return t; }
    // 1: strictly inside voxel v; 0: safely outside; -1: too close to a boundary to tell
    int find(const M4& local, Vox& v, Rng& r, bool posOnly = false) const
    {
        X6 x = encode(local, ot); int res = 1;
        auto cls = [&](const X6& y, Vox& w) { int c = 1; for (int i = 0; i < (posOnly ? 3 : 6); i++) { double p = (y[i] - lo[i]) / size[i] * n[i]; if (p < -2.01 || p > n[i] + 2.01) return 0; if (p < 0.002 || p > n[i] - 0.002 || std::fabs(p - std::round(p)) < 0.002) { c = -1; continue; } w[i] = (int)std::floor(p); } return c; };
        for (int i = 3; i < 6; i++) v[i] = 0; res = cls(x, v);
        if (posOnly) return res;
        for (int k = 0; k < 6; k++) { M4 p = local; p.block<3, 3>(0, 0) = (M3)(p.block<3, 3>(0, 0) * Eigen::AngleAxisd((k < 3 ? 1 : -1) * 2e-5, V3::Unit(k % 3)).toRotationMatrix()); Vox w = v; int c = cls(encode(p, ot), w); if (c != res || (c == 1 && w != v)) return -1; }
        return res;
    }
    void achieve(const M4& local) { X6 x = encode(local, ot); if (!anyAch) { a0 = a1 = x; anyAch = true; } for (int i = 0; i < 6; i++) { a0[i] = std::min(a0[i], x[i]); a1[i] = std::max(a1[i], x[i]); } }
};
struct DA : WorkspaceDataArray { static int sum(WorkspaceDataPtr d, int a, int b, int c) { int (WorkspaceDataArray::*f)(int, int, int) = &DA::sumAngleReachabilities; return (((WorkspaceDataArray*)d.get())->*f)(a, b, c); } };
std::string vs(const Vox& v) { return fmt("%d,%d,%d,%d,%d,%d", v[0], v[1], v[2], v[3], v[4], v[5]); }
struct Fixture { Scene s; WorkspaceRepresentationPtr w; Model m; float mn[6], mx[6], dt, dr; };
M4 baseG(const Scene& s) { return s.base ? M4(s.base->getGlobalPose().cast<double>()) : M4::Identity(); }
// dimensions: maxTr/maxRot voxels per axis; full: rotations fully covered and position box around everything the arm reaches
void setup(Rng& r, Fixture& f, int maxTr, int maxRot, bool full, int kind, bool adjust, bool fine = false)
{
    Scene& s = f.s; Model& m = f.m; m.ot = r.p(0.4) ? oHopf : r.i(0, 3); if (kind < 0) m.ot = oHopf;
    double reach = 10; for (auto& n : s.d.n) { reach += n.local.block<3, 1>(0, 3).norm(); if (n.type == PRI) reach += std::max(std::fabs(n.lo + n.offset), std::fabs(n.hi + n.offset)); }
    V3 c = V3::Zero(); M4 g = M4::Identity(); if (!s.base) c = s.rob->getGlobalPose().block<3, 1>(0, 3).cast<double>(); double full6[4][3][2] = {{{-M_PI, M_PI}, {-M_PI / 2, M_PI / 2}, {-M_PI, M_PI}}, {{0, M_PI}, {-M_PI, M_PI}, {-M_PI, M_PI}}, {{-M_PI, M_PI}, {-M_PI, M_PI}, {0, M_PI}}, {{0, 2 * M_PI}, {0, 2 * M_PI}, {0, M_PI / 2}}};
    for (int i = 0; i < 6; i++)
    {
        double a, b; if (i < 3) { double q = full ? reach * 1.05 * 2 : reach * r.u(0.3, 1.2); a = c(i) - q; b = c(i) + q * (full ? 1 : r.u(0.3, 1.3)); } else { a = full6[m.ot][i - 3][0]; b = full6[m.ot][i - 3][1]; if (full || r.p(0.7)) { a -= 0.03; b += 0.03; } else { double w = b - a; a += w * r.u(0, 0.3); b -= w * r.u(0, 0.3); } }
        f.mn[i] = a; f.mx[i] = b;
    }
    float ext = 0, ex3 = 0; for (int i = 0; i < 3; i++) { ext = std::max(ext, f.mx[i] - f.mn[i]); ex3 = std::max(ex3, f.mx[3 + i] - f.mn[3 + i]); }
    f.dt = ext / r.u(1.2, maxTr - 0.1); f.dr = ex3 / r.u(1.2, maxRot - 0.1); if (fine) { f.dt = ext / r.u(2.5, 4.9); f.dr = ex3 / r.u(4.2, 5.5); }
    if (kind == 1) f.w.reset(new Manipulability(s.rob)); else if (kind == 0 || kind == -1) f.w.reset(new Reachability(s.rob)); else f.w.reset(new WorkspaceRepresentation(s.rob));
    if (m.ot != oHopf) f.w->setOrientationType((WorkspaceRepresentation::eOrientationType)m.ot);
    SceneObjectSetPtr ca, cb; if (s.rob->getRobotNode(s.d.n[0].name)->getCollisionModel() && s.rob->getRobotNode(s.d.n.back().name)->getCollisionModel() && r.p(0.7)) { ca = s.rob->getRobotNodeSet("colA"); cb = s.rob->getRobotNodeSet("colB"); }
    f.w->initialize(s.set, f.dt, f.dr, f.mn, f.mx, ca, cb, s.base, r.p(0.5) ? s.tcp : RobotNodePtr(), adjust);
    m.adjust = adjust; for (int i = 0; i < 6; i++) { m.lo[i] = f.mn[i]; m.size[i] = f.mx[i] - f.mn[i]; m.n[i] = f.w->getNumVoxels(i); }
    m.range = reach;
    for (int i = 0; i < 6; i++)
    {
        double st = i < 3 ? f.dt : f.dr; check(m.n[i] >= 1 && m.size[i] / m.n[i] <= st * 1.0001 && (m.n[i] == 1 || m.size[i] / (m.n[i] - 1) >= st * 0.9999), "map/resolution", "axis %d: %d voxels for %g at step %g", i, m.n[i], m.size[i], st);
        check(f.w->getMinBound(i) == f.mn[i] && f.w->getMaxBound(i) == f.mx[i], "map/bounds", "axis %d", i); checkNear(f.w->getVoxelSize(i), m.size[i] / m.n[i], 1e-4 * m.size[i], "map/voxel-size", fmt("axis %d", i));
    }
    check(f.w->getTcp() == s.tcp && f.w->getTCP() == s.tcp && f.w->getBaseNode() == s.base && f.w->getNodeSet() == s.set && f.w->getRobot() == s.rob, "map/setup", "base, tcp or node set differ"); check(f.w->getAdjustOnOverflow() == adjust, "map/adjust-flag", "overflow flag is %d, set to %d", (int)f.w->getAdjustOnOverflow(), (int)adjust);
}
M4 tcpPose(const Scene& s) { return s.tcp->getGlobalPose().cast<double>(); }
// the base keeps its pose; moveBase moves it
void randomConf(Rng& r, Scene& s) { int i = 0; for (auto& n : s.d.n) if (i++ > s.bi && n.type != FIX) s.rob->getRobotNode(n.name)->setJointValue(r.f(n.lo, n.hi)); }
M4 posNear(Rng& r, Fixture& f)
{
    Model& m = f.m; if (r.p(0.25)) { randomConf(r, f.s); return tcpPose(f.s); }
    X6 x; for (int i = 0; i < 6; i++) x[i] = m.lo[i] + m.size[i] * (r.p(0.06) ? r.u(-3, 4) : r.p(0.3) ? (r.i(0, m.n[i] - 1) + r.u(0.01, 0.99)) / m.n[i] : r.u(-0.05, 1.05)); return toF(baseG(f.s) * decode(x, m.ot));
}
void compareAll(Rng& r, Fixture& f, const std::string& k, bool fullScan)
{
    Model& m = f.m; auto& w = f.w; WorkspaceDataPtr da = w->getData();
    check((int)da->getVoxelFilledCount() == m.filled(), k + "/filled-count", "%u voxels reported filled, %d are", da->getVoxelFilledCount(), m.filled());
    if (m.staleMax) check(w->getMaxEntry() >= m.top(), k + "/max-entry", "maximum %d, an entry holds %d", w->getMaxEntry(), m.top()); else check(w->getMaxEntry() == m.top(), k + "/max-entry", "maximum %d instead of %d", w->getMaxEntry(), m.top());
    int bad = 0, smax = 0, filled3 = 0, border3 = 0; std::map<std::array<int, 3>, int> sums, mxs; for (auto& e : m.m) { std::array<int, 3> p{e.first[0], e.first[1], e.first[2]}; sums[p] += e.second; mxs[p] = std::max(mxs[p], e.second); }
    for (auto& e : sums) smax = std::max(smax, e.second);
    check(w->getMaxSummedAngleReachablity() == smax, k + "/max-sum", "largest orientation sum %d instead of %d", w->getMaxSummedAngleReachablity(), smax); check(((WorkspaceDataArray*)da.get())->getMaxSummedAngleReachablity() == smax, k + "/max-sum-data", "largest orientation sum %d instead of %d", ((WorkspaceDataArray*)da.get())->getMaxSummedAngleReachablity(), smax);
    for (auto& e : m.m) { unsigned v[6]; for (int i = 0; i < 6; i++) v[i] = e.first[i]; int got = w->getVoxelEntry(v[0], v[1], v[2], v[3], v[4], v[5]); if (got != e.second && bad++ < 3) check(false, k + "/entry", "voxel %s holds %d instead of %d", vs(e.first).c_str(), got, e.second); if (w->isCovered(v) != (e.second > 0)) check(false, k + "/covered", "voxel %s", vs(e.first).c_str()); }
    if (fullScan)
    {
        long tot = 0, want = 0; for (auto& e : m.m) want += e.second;
        for (int a = 0; a < m.n[0]; a++) for (int b = 0; b < m.n[1]; b++) for (int c = 0; c < m.n[2]; c++)
        {
            int s3 = 0; for (int d = 0; d < m.n[3]; d++) for (int e = 0; e < m.n[4]; e++) for (int g = 0; g < m.n[5]; g++) { int v = w->getVoxelEntry(a, b, c, d, e, g); s3 += v; if (v && !m.get({a, b, c, d, e, g}) && bad++ < 3) check(false, k + "/phantom-entry", "voxel %d,%d,%d,%d,%d,%d holds %d, nothing was stored there", a, b, c, d, e, g, v); }
            std::array<int, 3> p{a, b, c}; auto si = sums.find(p); int ws = si == sums.end() ? 0 : si->second; tot += s3; bool ok = w->sumAngleReachabilities(a, b, c) == ws && w->avgAngleReachabilities(a, b, c) == ws / (m.n[3] * m.n[4] * m.n[5]) && w->getMaxEntry(a, b, c) == (ws ? mxs[p] : 0) && (ws == 0 || w->hasEntry(a, b, c)) && (m.touched.count(p) || !w->hasEntry(a, b, c)) && DA::sum(da, a, b, c) == ws;
            if (!ok) check(false, k + "/position-summary", "voxel %d,%d,%d: sum %d avg %d max %d data-sum %d has %d, reference sum %d max %d", a, b, c, w->sumAngleReachabilities(a, b, c), w->avgAngleReachabilities(a, b, c), w->getMaxEntry(a, b, c), DA::sum(da, a, b, c), (int)w->hasEntry(a, b, c), ws, ws ? mxs[p] : 0);
            if (ws) { filled3++; bool bo = false; for (int x = 0; x < 3; x++) for (int sg = -1; sg <= 1; sg += 2) { auto q = p; q[x] += sg; if (q[x] < 0 || q[x] >= m.n[x] || !sums.count(q)) bo = true; } border3 += bo; }
        }
        check(tot == want, k + "/total", "entries add up to %ld instead of %ld", tot, want); count("scan");
        auto vi = w->computeVolumeInformation(); double vv = std::pow(f.dt * 0.001, 3); check((int)vi.voxelCount3D == m.n[0] * m.n[1] * m.n[2] && (int)vi.filledVoxelCount3D == filled3 && (int)vi.borderVoxelCount3D == border3, k + "/volume-counts", "voxels %u filled %u border %u, reference %d %d %d", vi.voxelCount3D, vi.filledVoxelCount3D, vi.borderVoxelCount3D, m.n[0] * m.n[1] * m.n[2], filled3, border3);
        checkNear(vi.volumeVoxel3D, vv, 1e-4 * vv, k + "/volume-voxel", ""); checkNear(vi.volumeFilledVoxels3D, filled3 * vv, 1e-4 * vv * (filled3 + 1), k + "/volume-filled", ""); checkNear(vi.volume3D, (filled3 - 0.5 * border3) * vv, 1e-4 * vv * (filled3 + 1), k + "/volume", "");
    }
    uint64_t h = 5; for (auto& e : m.m) { for (int i : e.first) h = hmix(h, i); h = hmix(h, e.second); } sig(h);
}
void query(Rng& r, Fixture& f, const M4& g, const std::string& k)
{
    Model& m = f.m; Eigen::Matrix4f gf = f4(g); M4 l = inv(baseG(f.s)) * g; Vox v; int c = m.find(l, v, r); unsigned u[6] = {9, 9, 9, 9, 9, 9};
    int e = f.w->getEntry(gf); bool in = f.w->getVoxelFromPose(gf, u); check(f.w->isCovered(gf) == (e > 0), k + "/covered-entry", "isCovered and getEntry disagree");
    if (auto* re = dynamic_cast<Reachability*>(f.w.get())) check(re->isReachable(gf) == (e > 0), k + "/reachable", "isReachable and getEntry disagree");
    if (c == 0) { count("outside"); check(!in && e == 0, k + "/outside", "a pose outside the covered space has voxel %d entry %d", (int)in, e); }
    if (c == 1) { count("inside"); if (check(in, k + "/inside", "a pose inside the covered space has no voxel")) { Vox w; for (int i = 0; i < 6; i++) w[i] = u[i]; check(w == v, k + "/voxel", "voxel %s instead of %s (orientation %d)", vs(w).c_str(), vs(v).c_str(), m.ot); } check(e == m.get(v), k + "/pose-entry", "entry %d instead of %d in voxel %s", e, m.get(v), vs(v).c_str()); if (m.get(v)) count("covered-query"); }
    Vox p; M4 pl = l; int pc = m.find(pl, p, r, true); unsigned q[3]; bool pin = f.w->getVoxelFromPosition(gf, q);
    if (pc == 0) check(!pin, k + "/position-outside", "position outside has a voxel"); if (pc == 1) check(pin && (int)q[0] == p[0] && (int)q[1] == p[1] && (int)q[2] == p[2], k + "/position-voxel", "position voxel %u,%u,%u instead of %d,%d,%d", q[0], q[1], q[2], p[0], p[1], p[2]);
    if (pc >= 0) { int want = 0; if (pc == 1) for (auto& x : m.m) if (x.first[0] == p[0] && x.first[1] == p[1] && x.first[2] == p[2]) want = std::max(want, x.second); check(f.w->getMaxEntry((Eigen::Vector3f)gf.block<3, 1>(0, 3)) == want, k + "/position-max", "best entry at a position %d instead of %d", f.w->getMaxEntry((Eigen::Vector3f)gf.block<3, 1>(0, 3)), want); }
}
void geometry(Rng& r, Fixture& f)
{
    Model& m = f.m; M4 bg = baseG(f.s); double rg = m.range + bg.block<3, 1>(0, 3).norm();
    for (int t = 0; t < 6; t++)
    {
        Vox v; unsigned u[6], b[6]; X6 x; float xs[6], xi[6]; for (int i = 0; i < 6; i++) { v[i] = r.i(0, m.n[i] - 1); u[i] = v[i]; x[i] = m.lo[i] + (v[i] + 0.5) * m.size[i] / m.n[i]; xi[i] = v[i] + 0.5f; }
        M4 l = decode(x, m.ot); checkPose(f.w->getPoseFromVoxel(u, true), bg * l, 2e-5, 1e-5 * rg + 0.01, "map/voxel-pose", vs(v)); checkPose(f.w->getPoseFromVoxel(u, false), l, 2e-5, 1e-5 * rg + 0.01, "map/voxel-pose-local", vs(v));
        X6 y; float fy[6]; for (int i = 0; i < 6; i++) { y[i] = m.lo[i] + r.u(0, m.n[i]) * m.size[i] / m.n[i]; fy[i] = (y[i] - m.lo[i]) / m.size[i] * m.n[i]; } checkPose(f.w->getPoseFromVoxel(fy, true), bg * decode(y, m.ot), 5e-5, 2e-5 * rg + 0.01, "map/voxel-fraction-pose", "");
        check(f.w->getPoseFromVoxel(u, xs), "map/voxel-vector", "voxel %s rejected", vs(v).c_str()); for (int i = 0; i < 6; i++) checkNear(xs[i], x[i], 1e-4 * m.size[i], "map/voxel-centre", fmt("axis %d of voxel %s", i, vs(v).c_str()));
        Vox w; if (m.find(l, w, r) == 1 && w == v) { count("round-trip"); check(f.w->getVoxelFromPose(f.w->getPoseFromVoxel(u), b) && std::equal(u, u + 6, b), "map/voxel-round-trip", "voxel %s came back as %u,%u,%u,%u,%u,%u", vs(v).c_str(), b[0], b[1], b[2], b[3], b[4], b[5]); }
        int ax = r.i(0, 5); u[ax] = m.n[ax] + r.i(0, 3); check(!f.w->getPoseFromVoxel(u, xs), "map/voxel-vector-outside", "voxel beyond axis %d accepted", ax); check(f.w->getVoxelEntry(u[0], u[1], u[2], u[3], u[4], u[5]) == 0, "map/voxel-outside", "entry beyond axis %d", ax);
        float v6[6]; Eigen::Matrix4f mm; for (int i = 0; i < 6; i++) v6[i] = x[i]; f.w->vector2Matrix(v6, mm); checkPose(mm, l, 2e-5, 1e-3 + 1e-6 * rg, "map/vector-to-matrix", fmt("orientation %d", m.ot)); Eigen::Vector3f p3(v6[0], v6[1], v6[2]), r3(v6[3], v6[4], v6[5]); f.w->vector2Matrix(p3, r3, mm); checkPose(mm, l, 2e-5, 1e-3 + 1e-6 * rg, "map/vectors-to-matrix", ""); float back[6]; f.w->matrix2Vector(mm, back); X6 bx; for (int i = 0; i < 6; i++) bx[i] = back[i]; checkPose(f4(decode(bx, m.ot)), l, 2e-3, 1e-3 + 1e-6 * rg, "map/matrix-to-vector", fmt("orientation %d", m.ot));
        Eigen::Matrix4f tl = f4(bg * l); f.w->toLocal(tl); checkPose(tl, l, 3e-5, 1e-5 * rg + 0.02, "map/to-local", ""); tl = f4(l); f.w->toGlobal(tl); checkPose(tl, bg * l, 3e-5, 1e-5 * rg + 0.02, "map/to-global", "");
    }
    Eigen::Vector3f a, b; f.w->getWorkspaceExtends(a, b); V3 lo(1e30, 1e30, 1e30), hi = -lo; for (int i = 0; i < 8; i++) { V3 p((i & 1) ? f.mx[0] : f.mn[0], (i & 2) ? f.mx[1] : f.mn[1], (i & 4) ? f.mx[2] : f.mn[2]); p = (bg * p.homogeneous()).head<3>(); lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); }
    check(mdiff(a.cast<double>(), lo) < 1e-4 * rg + 0.01 && mdiff(b.cast<double>(), hi) < 1e-4 * rg + 0.01, "map/extends", "global extents are wrong");
    auto ob = f.w->getOOBB(false); checkPose(ob.pose, bg, 3e-5, 1e-5 * rg + 0.01, "map/oobb-pose", ""); for (int i = 0; i < 3; i++) check(ob.minBB(i) == f.mn[i] && ob.maxBB(i) == f.mx[i], "map/oobb", "axis %d", i);
    if (m.anyAch) { auto oa = f.w->getOOBB(true); for (int i = 0; i < 3; i++) { checkNear(oa.minBB(i), m.a0[i], 1e-4 * rg + 0.02, "map/achieved-min", fmt("axis %d", i)); checkNear(oa.maxBB(i), m.a1[i], 1e-4 * rg + 0.02, "map/achieved-max", fmt("axis %d", i)); } }
    if (!m.m.empty() && (double)m.m.size() / ((double)m.n[0] * m.n[1] * m.n[2] * m.n[3] * m.n[4] * m.n[5]) > 0.004)
    {
        count("sampled"); Eigen::Matrix4f p = r.p(0.5) || !dynamic_cast<Reachability*>(f.w.get()) ? f.w->sampleCoveredPose() : static_cast<Reachability*>(f.w.get())->sampleReachablePose(); bool ok = false;
        for (auto& e : m.m) { X6 x; for (int i = 0; i < 6; i++) x[i] = m.lo[i] + (e.first[i] + 0.5) * m.size[i] / m.n[i]; M4 g = bg * decode(x, m.ot); if (mdiff(g.block<3, 3>(0, 0), p.block<3, 3>(0, 0).cast<double>()) < 1e-4 && mdiff(g.block<3, 1>(0, 3), p.block<3, 1>(0, 3).cast<double>()) < 1e-5 * rg + 0.02) { ok = true; break; } }
        check(ok, "map/sample", "a sampled pose is the centre of no covered voxel");
    }
    // cuts
    double cell = f.dt * r.u(0.5, 2); bool sum = r.p(0.5); M4 ref = M4::Identity(); WorkspaceRepresentation::WorkspaceCut2DPtr cut;
    if (r.p(0.6)) { M4 g = posNear(r, f); ref = g; cut = f.w->createCut(f4(ref), cell, sum); } else { float hp = r.f(0, 1); cut = f.w->createCut(hp, cell, sum); ref = bg; ref(2, 3) = lo(2) + hp * (hi(2) - lo(2)); checkNear(cut->referenceGlobalPose(2, 3), ref(2, 3), 1e-4 * rg + 0.02, "map/cut-height", ""); }
    M4 rg4 = cut->referenceGlobalPose.cast<double>(); check(mdiff(rg4.block<3, 3>(0, 0), ref.block<3, 3>(0, 0)) < 1e-4, "map/cut-orientation", "cut has another orientation");
    int nx = cut->entries.rows(), ny = cut->entries.cols(); check(std::abs(nx - (hi(0) - lo(0)) / cell) <= 1.01 && std::abs(ny - (hi(1) - lo(1)) / cell) <= 1.01, "map/cut-size", "%dx%d cells", nx, ny);
    int shown = 0; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
    {
        M4 g = ref; g(0, 3) = lo(0) + (i + 0.5) * cell; g(1, 3) = lo(1) + (j + 0.5) * cell; Vox v; int c = m.find(inv(bg) * g, v, r); if (c < 0) continue; count("cut-cell"); int want = 0; if (c == 1) { if (sum) { for (auto& e : m.m) if (e.first[0] == v[0] && e.first[1] == v[1] && e.first[2] == v[2]) want += e.second; } else want = m.get(v); }
        if (want) count("cut-covered"); if (cut->entries(i, j) != want && shown++ < 3) check(false, sum ? "map/cut-sum" : "map/cut-entry", "cell %d,%d of a cut holds %d instead of %d", i, j, cut->entries(i, j), want);
    }
    RobotNodePtr rn = r.p(0.5) ? f.s.rob->getRobotNode(f.s.d.n[r.i(0, (int)f.s.d.n.size() - 1)].name) : RobotNodePtr(); auto tr = f.w->createCutTransformations(cut, rn); size_t k = 0; bool ok = true; M4 rl = rn ? inv(rn->getGlobalPose().cast<double>()) : M4::Identity();
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) if (cut->entries(i, j) > 0) { if (k >= tr.size()) { ok = false; break; } M4 g = ref; double sx = (hi(0) - lo(0)) / nx, sy = (hi(1) - lo(1)) / ny; g(0, 3) = lo(0) + (i + 0.5) * sx; g(1, 3) = lo(1) + (j + 0.5) * sy; check(tr[k]->value == cut->entries(i, j), "map/cut-transformation-value", "%d instead of %d", tr[k]->value, cut->entries(i, j)); checkPose(tr[k]->transformation, rl * g, 1e-4, 1e-4 * rg + 0.05, "map/cut-transformation", fmt("cell %d,%d", i, j)); k++; }
    check(ok && k == tr.size(), "map/cut-transformation-count", "%zu transformations", tr.size());
}
void moveBase(Rng& r, Fixture& f) { if (f.s.base) { for (int i = 0; i <= f.s.bi; i++) { auto& n = f.s.d.n[i]; if (n.type != FIX) f.s.rob->getRobotNode(n.name)->setJointValue(r.f(n.lo, n.hi)); } f.s.rob->setGlobalPose(f4(toF(r.pose(1500)))); count("base-moved"); } }
}
static void mapOps(Rng& r)
{
    Fixture f; f.s = genScene(r, false); Model& m = f.m; int kind = r.i(0, 2); if (kind == 1) kind = 2; bool fine = r.p(0.12); setup(r, f, 6, r.p(0.5) ? 5 : 3, fine || r.p(0.4), kind, r.p(0.6), fine); auto& w = f.w; bool placed = false;
    compareAll(r, f, "fresh", false); WorkspaceRepresentationPtr other; Model om;
    int steps = r.i(10, 40);
    for (int t = 0; t < steps; t++)
    {
        int op = fine && r.p(0.1) ? 16 : r.i(0, 19); M4 bg = baseG(f.s); M4 g = posNear(r, f); bool cur = false; if (op >= 6 && op <= 9) { randomConf(r, f.s); g = tcpPose(f.s); cur = true; }
        M4 l = inv(bg) * g; Vox v; int c = m.find(l, v, r); if (op == 14 && t % 3) op = 0; if (op <= 11 && c < 0) continue; at("op %d", op);
        if (op <= 5) { int n = r.p(0.2) ? r.i(2, 20) : r.p(0.03) ? 300 : 1; for (int k = 0; k < n; k++) { w->addPose(f4(g)); if (c == 1) m.inc(v); } m.achieve(l); count("add"); }
        else if (op == 6 || op == 7) { w->addCurrentTCPPose(); if (c == 1) m.inc(v); m.achieve(l); count("add-current"); }
        else if (op == 8) { int e = r.i(1, 255); w->setCurrentTCPPoseEntry(e); if (c == 1) m.set(v, e); m.achieve(l); count("set-current"); }
        else if (op == 9) { int e = r.i(1, 255); w->setCurrentTCPPoseEntryIfLower(e); if (c == 1 && m.get(v) < e) m.set(v, e); m.achieve(l); count("set-lower"); }
        else if (op == 10) { int e = r.i(1, 255); w->setEntry(f4(g), e); if (c == 1) m.set(v, e); m.achieve(l); }
        else if (op == 11) { int e = r.i(1, 255), nb = r.i(1, 2); w->setEntryCheckNeighbors(f4(g), e, nb); m.achieve(l); if (c == 1) { m.set(v, e); Vox u; std::function<void(int)> rec = [&](int i) { if (i == 6) { if (m.get(u) < e) m.set(u, e); return; } for (int k = std::max(0, v[i] - nb); k <= std::min(m.n[i] - 1, v[i] + nb); k++) { u[i] = k; rec(i + 1); } }; rec(0); } count("neighbors"); }
        else if (op == 12 || op == 13) { Vox u; unsigned q[6]; if (!m.m.empty() && r.p(0.5)) { auto it = m.m.begin(); std::advance(it, r.i(0, (int)std::min<size_t>(m.m.size() - 1, 40))); u = it->first; } else for (int i = 0; i < 6; i++) u[i] = r.i(0, m.n[i] - 1); for (int i = 0; i < 6; i++) q[i] = u[i]; int e = r.p(0.35) ? 0 : r.p(0.3) ? 255 : r.i(1, 255); w->setVoxelEntry(q, e); m.set(u, e); count(e ? "set-voxel" : "clear-voxel"); if (e == 255 && r.p(0.7)) { unsigned bv[6]; M4 pg = w->getPoseFromVoxel(q).cast<double>(); Vox z; if (m.find(inv(bg) * pg, z, r) == 1 && z == u) { w->addPose(f4(pg)); m.inc(u); m.achieve(inv(bg) * pg); count("overflow"); } } }
        else if (op == 14) { if (r.p(0.5)) { w->clear(); m.m.clear(); m.mx = 0; m.staleMax = false; m.touched.clear(); m.anyAch = false; count("cleared"); } else { if (m.m.empty()) continue; w->binarize(); for (auto& e : m.m) e.second = 1; m.mx = 1; m.staleMax = false; count("binarized"); } }
        else if (op == 15) moveBase(r, f);
        else if (op == 16)
        {
            int mn = r.i(0, 4); bool deep = true; for (int i = 0; i < 6; i++) deep &= m.n[i] >= 3;
            if (deep) { Vox u; unsigned q[6]; for (int i = 0; i < 6; i++) u[i] = r.i(1, m.n[i] - 2); for (int k = 0; k < 8; k++) { Vox y = u; y[r.i(0, 5)] += r.p(0.5) ? 1 : -1; for (int i = 0; i < 6; i++) q[i] = y[i]; int e = r.i(1, 255); w->setVoxelEntry(q, e); m.set(y, e); } }
            int got = w->fillHoles(mn); if (mn == 0) mn = 1; std::map<Vox, int> nm = m.m; int want = 0; Vox x; std::function<void(int)> rec = [&](int i) { if (i < 6) { for (x[i] = 1; x[i] < m.n[i] - 1; x[i]++) rec(i + 1); return; } if (m.get(x)) return; int s = 0, cn = 0; for (int k = 0; k < 6; k++) for (int d = -1; d <= 1; d += 2) { Vox y = x; y[k] += d; int e = m.get(y); if (e) { s += e; cn++; } } if (cn >= mn) { want++; nm[x] = s / cn; } }; rec(0);
            check(got == want, "map/fill-holes-count", "%d voxels changed instead of %d", got, want); for (auto& e : nm) { m.touched.insert({e.first[0], e.first[1], e.first[2]}); } m.m = nm; m.mx = std::max(m.mx, m.top()); count("fill-holes"); if (want) count("filled-holes");
        }
        else if (op == 17) { other = w; om = m; WorkspaceRepresentationPtr cl = w->clone(); w = cl; count("cloned"); check(w->getAdjustOnOverflow() == m.adjust && w->getTcp() == other->getTcp() && w->getBaseNode() == other->getBaseNode() && w->getNodeSet() == other->getNodeSet() && typeid(*w) == typeid(*other), "map/clone-setup", "a copy lost part of its setup"); if (m.touched.size()) {} }
        else if (op == 18) geometry(r, f);
        else for (int k = 0; k < 5; k++) query(r, f, posNear(r, f), "map");
        if (cur || op <= 11) query(r, f, g, "map");
        compareAll(r, f, "map", t % 6 == 5);
    }
    compareAll(r, f, "map", true); geometry(r, f); count("map");
    if (other) { Fixture o = f; o.w = other; o.m = om; compareAll(r, o, "clone-source", true); }
    auto rs = boost::dynamic_pointer_cast<Reachability>(w);
    if (rs && !m.m.empty())
    {
        ManipulationObjectPtr ob(new ManipulationObject("o")); M4 og = toF(r.pose(500)); ob->setGlobalPose(f4(og)); GraspSetPtr gs(new GraspSet("gs", "R", "E")); std::vector<std::pair<GraspPtr, int>> ex;
        for (int i = 0; i < 12; i++) { M4 g = posNear(r, f); if (r.p(0.6)) { auto it = m.m.begin(); std::advance(it, r.i(0, (int)std::min<size_t>(m.m.size() - 1, 60))); X6 x; for (int k = 0; k < 6; k++) x[k] = m.lo[k] + (it->first[k] + r.u(0.2, 0.8)) * m.size[k] / m.n[k]; g = baseG(f.s) * decode(x, m.ot); } GraspPtr gr(new Grasp(fmt("g%d", i), "R", "E", f4(inv(g) * og))); gs->addGrasp(gr); Vox v; int c = m.find(inv(baseG(f.s)) * g, v, r); ex.push_back({gr, c < 0 ? -1 : c == 1 && m.get(v) > 0}); }
        auto res = rs->getReachableGrasps(gs, ob); size_t last = 0; for (auto& e : ex) if (e.second >= 0) { count(e.second ? "grasp-reachable" : "grasp-unreachable"); check(res->hasGrasp(e.first) == (e.second == 1), "map/reachable-grasps", "a grasp whose voxel is %scovered is %slisted", e.second ? "" : "not ", res->hasGrasp(e.first) ? "" : "not "); }
        check(res->getSize() <= ex.size() && res->getName() == gs->getName(), "map/reachable-grasps-set", "%u grasps", res->getSize());
    }
    sample(fmt("%s %dx%dx%d x %dx%dx%d voxels, orientation %d, %d filled", kind == 0 ? "reachability" : "map", m.n[0], m.n[1], m.n[2], m.n[3], m.n[4], m.n[5], m.ot, m.filled()));
}
static void manipMap(Rng& r)
{
    Fixture f; f.s = genScene(r, false, r.p(0.4)); Model& m = f.m; setup(r, f, 6, 4, r.p(0.5), 1, true); auto mp = boost::dynamic_pointer_cast<Manipulability>(f.w); PoseQualityMeasurementPtr me(new PoseQualityManipulability(f.s.set, r.p(0.5) ? PoseQualityManipulability::eMinMaxRatio : PoseQualityManipulability::eMultiplySV)); if (r.p(0.3)) me.reset(new PoseQualityExtendedManipulability(f.s.set)); if (r.p(0.7)) mp->setManipulabilityMeasure(me); else me = mp->getManipulabilityMeasure();
    check(mp->getMeasureName() == me->getName() && mp->getManipulabilityMeasure() == me && mp->consideringJointLimits() == me->consideringJointLimits(), "manip/measure", "measure %s", mp->getMeasureName().c_str());
    float top = 0; for (int i = 0; i < 30; i++) { randomConf(r, f.s); top = std::max(top, mp->measureCurrentPose()); } if (!(top > 0) || !(top < 1e6)) return; mp->setMaxManipulability(top * r.f(0.4, 1.2)); double mm = mp->getMaxManipulability(); std::vector<Vox> fuzzy;
    bool sd = false; if (f.s.rob->getRobotNode(f.s.d.n[0].name)->getCollisionModel() && f.s.rob->getRobotNode(f.s.d.n.back().name)->getCollisionModel() && r.p(0.6)) { mp->initSelfDistanceCheck(f.s.rob->getRobotNodeSet("colA"), f.s.rob->getRobotNodeSet("colB")); if (auto pe = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(me)) pe->considerObstacles(true, 40, 1); sd = true; bool cs; RobotNodeSetPtr a, b; mp->getSelfDistConfig(cs, a, b); check(cs && a->getName() == "colA" && b->getName() == "colB", "manip/self-distance", "configuration lost"); }
    std::map<Vox, std::pair<int, int>> band;   // lowest / highest admissible entry
    for (int i = 0; i < 40; i++)
    {
        if (r.p(0.1)) moveBase(r, f); randomConf(r, f.s); M4 g = tcpPose(f.s); double q = mp->measureCurrentPose(); Vox v; M4 l = inv(baseG(f.s)) * g; int c = m.find(l, v, r); if (c < 0) continue; mp->addCurrentTCPPose(); if (c == 0) continue;
        auto e = [&](double x) { return (int)std::max(1.0, std::min(255.0, std::floor(x / mm * 255 + 0.5))); }; int a = e(q * (1 - 1e-5) - 1e-9), b = e(q * (1 + 1e-5) + 1e-9); auto& s = band[v]; s.first = std::max(s.first, a); s.second = std::max(s.second, b); count("manip-add");
        int got = f.w->getEntry(f4(g)); check(got >= s.first && got <= s.second, "manip/entry", "entry %d for a quality of %g of %g, expected %d..%d", got, q, mm, s.first, s.second); checkNear(mp->getManipulabilityAtPose(f4(g)), got / 255.0 * mm, 1e-4 * mm, "manip/at-pose", "");
    }
    int bad = 0; for (auto& b : band) { auto& v = b.first; int got = f.w->getVoxelEntry(v[0], v[1], v[2], v[3], v[4], v[5]); m.set(v, got); if ((got < b.second.first || got > b.second.second) && bad++ < 2) check(false, "manip/stored-entry", "entry %d, expected %d..%d", got, b.second.first, b.second.second); }
    compareAll(r, f, "manip", true); for (int k = 0; k < 5; k++) query(r, f, posNear(r, f), "manip"); geometry(r, f); count("manip");
    ManipulationObjectPtr ob(new ManipulationObject("o")); M4 og = toF(r.pose(500)); ob->setGlobalPose(f4(og)); GraspSetPtr gs(new GraspSet("gs", "R", "E")); std::vector<std::pair<GraspPtr, int>> ex;
    for (int i = 0; i < 10 && !m.m.empty(); i++) { M4 g = posNear(r, f); if (r.p(0.6)) { auto it = m.m.begin(); std::advance(it, r.i(0, (int)m.m.size() - 1)); X6 x; for (int k = 0; k < 6; k++) x[k] = m.lo[k] + (it->first[k] + r.u(0.2, 0.8)) * m.size[k] / m.n[k]; g = baseG(f.s) * decode(x, m.ot); } GraspPtr gr(new Grasp(fmt("g%d", i), "R", "E", f4(inv(g) * og))); gs->addGrasp(gr); Vox v; int c = m.find(inv(baseG(f.s)) * g, v, r); ex.push_back({gr, c < 0 ? -1 : c == 1 ? m.get(v) : 0}); }
    if (gs->getSize())
    {
        auto res = mp->getReachableGrasps(gs, ob); auto an = mp->analyseGrasps(gs, ob); for (size_t i = 1; i < an.size(); i++) check(an[i - 1].manipulability >= an[i].manipulability, "manip/grasp-order", "grasps are not sorted by manipulability");
        for (auto& e : ex) if (e.second >= 0) { check(res->hasGrasp(e.first) == (e.second > 0), "manip/reachable-grasps", "entry %d", e.second); checkNear(mp->analyseGrasp(e.first, ob).manipulability, e.second / 255.0 * mm, 1e-4 * mm, "manip/analyse-grasp", ""); int hit = 0; for (auto& a : an) if (a.grasp == e.first) { hit++; checkNear(a.manipulability, e.second / 255.0 * mm, 1e-4 * mm, "manip/analysed-grasp", ""); } check(hit == (e.second > 0), "manip/analysed-grasps", "grasp with entry %d listed %d times", e.second, hit); }
    }
    // smoothing
    if (m.n[0] * m.n[1] * m.n[2] * m.n[3] * m.n[4] * m.n[5] < 6000)
    {
        int mn = r.i(1, 3); mp->smooth(mn); std::map<Vox, int> nm = m.m; Vox x; std::function<void(int)> rec = [&](int i) { if (i < 6) { for (x[i] = 1; x[i] < m.n[i] - 1; x[i]++) rec(i + 1); return; } long s = 0, cn = 0; for (auto& e : m.m) { bool nb = true; for (int k = 0; k < 6; k++) nb &= std::abs(e.first[k] - x[k]) <= 1; if (nb) { s += e.second; cn++; } } if (cn >= mn) { int nv = (int)((double)s / cn); if (nv) nm[x] = nv; } }; rec(0); if (nm != m.m) count("smoothed");
        m.m = nm; for (auto& e : nm) m.touched.insert({e.first[0], e.first[1], e.first[2]}); m.staleMax = true; compareAll(r, f, "manip-smooth", true);
    }
    auto cl = boost::dynamic_pointer_cast<Manipulability>(mp->clone()); if (check(!!cl, "manip/clone", "copy has another type")) { check(cl->getMaxManipulability() == mp->getMaxManipulability() && cl->getMeasureName() == mp->getMeasureName() && cl->getManipulabilityMeasure() == me, "manip/clone-setup", "copy lost its measure"); Fixture g = f; g.w = cl; compareAll(r, g, "manip-clone", true); }
    // parameter estimation leaves the robot alone
    std::vector<float> jv; for (auto& n : f.s.d.n) jv.push_back(f.s.rob->getRobotNode(n.name)->getJointValue()); float a[6], b[6], tm = 0; bool ok = mp->checkForParameters(f.s.set, 50, a, b, tm, f.s.base, f.s.tcp); for (size_t i = 0; i < f.s.d.n.size(); i++) checkNear(f.s.rob->getRobotNode(f.s.d.n[i].name)->getJointValue(), jv[i], 1e-4, "manip/parameters-restore", "joint values"); check(f.w->getBaseNode() == f.s.base, "manip/parameters-base", "base changed"); if (ok) check(tm > 0 && tm <= 1e30, "manip/parameters-max", "%g", tm);
}
static void randomFill(Rng& r)
{
    bool mt = r.p(0.6), man = r.p(0.4);
    bool col = r.p(0.5);
#ifdef __SANITIZE_THREAD__
    mt = true;
#endif
    Fixture f; f.s = genScene(r, mt && man, col); Model& m = f.m; setup(r, f, 5, 3, true, man ? 1 : 0, false); auto& w = f.w; randomConf(r, f.s); std::vector<float> jv; for (auto& n : f.s.d.n) jv.push_back(f.s.rob->getRobotNode(n.name)->getJointValue()); f.s.rob->setUpdateVisualization(true);
    if (man) { auto mp = boost::static_pointer_cast<Manipulability>(w); if (r.p(0.5)) { PoseQualityMeasurementPtr me(new PoseQualityExtendedManipulability(f.s.set)); mp->setManipulabilityMeasure(me); } float top = 1e-3f; for (int i = 0; i < 10; i++) { randomConf(r, f.s); float q = mp->measureCurrentPose(); if (std::isfinite(q)) top = std::max(top, q); } mp->setMaxManipulability(top); if (col && f.s.rob->getRobotNode(f.s.d.n[0].name)->getCollisionModel() && f.s.rob->getRobotNode(f.s.d.n.back().name)->getCollisionModel() && r.p(0.6)) { mp->initSelfDistanceCheck(f.s.rob->getRobotNodeSet("colA"), f.s.rob->getRobotNodeSet("colB")); if (auto pe = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(mp->getManipulabilityMeasure())) pe->considerObstacles(true, 40, 1); count("mt-selfdist"); } for (size_t i = 0; i < jv.size(); i++) f.s.rob->getRobotNode(f.s.d.n[i].name)->setJointValue(jv[i]); }
    int loops = r.i(5, 60), nt = mt ? r.i(1, 5) : 0; loops = std::max(loops, nt); bool chk = r.p(0.5);
    // a case where the starting pose never gets out of self collision would not add poses: only unchecked or collision free sets are counted
    bool counted = !chk || !w->getCollisionModelStatic(); long before = 0;
    if (mt) w->addRandomTCPPoses(loops, (unsigned)nt, chk); else w->addRandomTCPPoses(loops, chk); count(mt ? "random-mt" : "random");
    for (size_t i = 0; i < jv.size(); i++) checkNear(f.s.rob->getRobotNode(f.s.d.n[i].name)->getJointValue(), jv[i], 1e-4 * std::max(1.f, std::fabs(jv[i])), "random/restore", "joint " + f.s.d.n[i].name); check(f.s.rob->getUpdateVisualizationStatus(), "random/visualization", "visualization update left off");
    long tot = 0; int filled = 0, topv = 0; for (int a = 0; a < m.n[0]; a++) for (int b = 0; b < m.n[1]; b++) for (int c = 0; c < m.n[2]; c++) for (int d = 0; d < m.n[3]; d++) for (int e = 0; e < m.n[4]; e++) for (int g = 0; g < m.n[5]; g++) { int v = w->getVoxelEntry(a, b, c, d, e, g); tot += v; filled += v > 0; topv = std::max(topv, v); if (v) { m.m[{a, b, c, d, e, g}] = v; m.touched.insert({a, b, c}); } }
    if (!man && counted) { count("random-counted"); check(tot == loops, mt ? "random/lost-poses" : "random/poses", "%d random poses were requested, %ld were stored (%d threads)", loops, tot, nt); } if (counted) check(filled > 0, "random/none", "no pose was stored");
    m.mx = topv; m.adjust = false; compareAll(r, f, "random", false); (void)before; sig(hmix(hmix(tot, filled), topv)); auto ob = w->getOOBB(true);
    if (filled) for (int i = 0; i < 3; i++) check(ob.minBB(i) >= f.mn[i] && ob.maxBB(i) <= f.mx[i] && ob.minBB(i) <= ob.maxBB(i), "random/achieved", "axis %d: achieved %g..%g", i, ob.minBB(i), ob.maxBB(i));
#ifndef __SANITIZE_THREAD__
    float a[6], b[6]; w->checkForParameters(f.s.set, 40, a, b, f.s.base, f.s.tcp); for (size_t i = 0; i < jv.size(); i++) checkNear(f.s.rob->getRobotNode(f.s.d.n[i].name)->getJointValue(), jv[i], 1e-4 * std::max(1.f, std::fabs(jv[i])), "random/parameters-restore", "joint"); check(f.s.rob->getUpdateVisualizationStatus(), "random/parameters-visualization", "visualization update left off"); for (int i = 0; i < 6; i++) check(a[i] <= b[i] && std::isfinite(a[i]) && std::isfinite(b[i]) && (i > 2 || (b[i] - a[i] <= 1.5 * (f.mx[i] - f.mn[i]))), "random/parameters", "axis %d: %g..%g", i, a[i], b[i]);
    int rnd = 0; for (int k = 0; k < 10; k++) { w->setRobotNodesToRandomConfig(RobotNodeSetPtr(), false); for (auto& n : f.s.d.n) { auto rn = f.s.rob->getRobotNode(n.name); if (n.type != FIX) { double v = rn->getJointValue(); check(v >= n.lo - 1e-5 && v <= n.hi + 1e-5, "random/limits", "joint at %g outside %g..%g", v, n.lo, n.hi); } } } (void)rnd;
#endif
}
static void grid(Rng& r)
{
    struct G { WorkspaceGridPtr g; double x0, x1, y0, y1, st; int nx, ny; std::map<std::pair<int, int>, int> v; std::map<std::pair<int, int>, std::set<Grasp*>> gr; };
    auto mk = [&](double cx, double cy, double st) { G g; double ex = r.u(50, 400), ey = r.u(50, 400); g.x0 = (float)(cx - ex); g.x1 = (float)(cx + ex * r.u(0.3, 1)); g.y0 = (float)(cy - ey); g.y1 = (float)(cy + ey * r.u(0.3, 1)); g.st = st; g.g.reset(new WorkspaceGrid(g.x0, g.x1, g.y0, g.y1, st)); g.g->getCells(g.nx, g.ny); return g; };
    auto cell = [](const G& g, double x, double y, int& i, int& j) { double p = (x - g.x0) / (g.x1 - g.x0) * g.nx, q = (y - g.y0) / (g.y1 - g.y0) * g.ny; if (std::fabs(p - std::round(p)) < 0.003 || std::fabs(q - std::round(q)) < 0.003) return -1; i = std::floor(p); j = std::floor(q); if (i < 0 || j < 0 || i >= g.nx || j >= g.ny) return p < -1 || q < -1 || i >= g.nx || j >= g.ny ? 0 : -1; return 1; };
    double st = r.u(20, 90), cx = r.u(-1500, 1500), cy = r.u(-1500, 1500); std::vector<G> gs; int ng = r.i(1, 3); for (int i = 0; i < ng; i++) gs.push_back(mk(cx + r.u(-150, 150), cy + r.u(-150, 150), st)); std::vector<GraspPtr> grasps; for (int i = 0; i < 5; i++) grasps.push_back(GraspPtr(new Grasp(fmt("g%d", i), "R", "E", Eigen::Matrix4f::Identity())));
    for (auto& g : gs)
    {
        check(g.nx >= 1 && g.ny >= 1 && (g.x1 - g.x0) / g.nx <= st * 1.001 && (g.y1 - g.y0) / g.ny <= st * 1.001, "grid/cells", "%dx%d cells", g.nx, g.ny); auto put = [&](int i, int j, int v, GraspPtr gp) { if (i < 0 || j < 0 || i >= g.nx || j >= g.ny) return; int& c = g.v[{i, j}]; if (c <= v) { c = v; if (gp) g.gr[{i, j}].insert(gp.get()); } else if (v >= 100 && gp) g.gr[{i, j}].insert(gp.get()); };
        for (int t = 0; t < 40; t++)
        {
            double x = r.f(g.x0 - (g.x1 - g.x0) * 0.2, g.x1 + (g.x1 - g.x0) * 0.2), y = r.f(g.y0 - 20, g.y1 + 20); int i, j; int c = cell(g, x, y, i, j); int v = r.i(1, 255); GraspPtr gp = r.p(0.8) ? r.pick(grasps) : GraspPtr(); int op = r.i(0, 4); if (c < 0) continue;
            if (op <= 1) { g.g->setEntry(x, y, v, gp); if (c) put(i, j, v, gp); } else if (op == 2 && c) { g.g->setCellEntry(i, j, v, gp); put(i, j, v, gp); } else if (op == 3) { g.g->setEntryCheckNeighbors(x, y, v, gp); if (c) { put(i, j, v, gp); if (i > 0 && j > 0 && i < g.nx - 1 && j < g.ny - 1) for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (a || b) put(i + a, j + b, v, gp); else; else { bool amb = true; (void)amb; } } }
            else if (op == 4 && r.p(0.05)) { g.g->reset(); g.v.clear(); g.gr.clear(); } else if (op == 4 && r.p(0.1)) { double nx = r.f(-1000, 1000), ny = r.f(-1000, 1000), ex = g.x1 - g.x0, ey = g.y1 - g.y0; g.g->setGridPosition(nx, ny); float e[4]; g.g->getExtends(e[0], e[1], e[2], e[3]); checkNear(e[0], nx - ex / 2, 0.05, "grid/position", "min x"); checkNear(e[1], nx + ex / 2, 0.05, "grid/position", "max x"); checkNear(e[2], ny - ey / 2, 0.05, "grid/position", "min y"); checkNear(e[3], ny + ey / 2, 0.05, "grid/position", "max y"); g.x0 = e[0]; g.x1 = e[1]; g.y0 = e[2]; g.y1 = e[3]; }
        }
        int top = 0; for (auto& e : g.v) top = std::max(top, e.second); check(g.g->getMaxEntry() == top, "grid/max", "%d instead of %d", g.g->getMaxEntry(), top);
        for (int i = 0; i < g.nx; i++) for (int j = 0; j < g.ny; j++) { auto it = g.v.find({i, j}); int want = it == g.v.end() ? 0 : it->second; int got = g.g->getCellEntry(i, j), e2 = -1, e3 = -1; std::vector<GraspPtr> l; GraspPtr one; bool k2 = g.g->getCellEntry(i, j, e2, l), k3 = g.g->getCellEntry(i, j, e3, one); std::set<Grasp*> ls; for (auto& x : l) ls.insert(x.get()); bool bo = i == 0 || j == 0 || i == g.nx - 1 || j == g.ny - 1; check(got == want && k2 && k3 && e2 == want && e3 == want, "grid/entry", "cell %d,%d holds %d instead of %d", i, j, got, want); check(ls == g.gr[{i, j}] && ls.size() == l.size(), "grid/grasps", "cell %d,%d lists %zu grasps, %zu expected", i, j, l.size(), g.gr[{i, j}].size()); check(one ? ls.count(one.get()) == 1 : ls.empty(), "grid/grasp", "random grasp is not of the cell"); (void)bo; }
        for (int t = 0; t < 10; t++) { double x = r.f(g.x0 - 300, g.x1 + 300), y = r.f(g.y0, g.y1); int i, j, e = -1; int c = cell(g, x, y, i, j); GraspPtr gp; if (c == 1) { check(g.g->getEntry(x, y) == g.v[{i, j}] && g.g->getEntry(x, y, e, gp) && e == g.v[{i, j}], "grid/point", "entry %d instead of %d", g.g->getEntry(x, y), g.v[{i, j}]); count("grid-point"); } if (c == 0) check(g.g->getEntry(x, y) == 0 && !g.g->getEntry(x, y, e, gp), "grid/outside", "entry outside the grid"); }
        for (int t = 0; t < 10; t++) { float x, y; int e = -1; GraspPtr gp; std::vector<GraspPtr> l; int mn = r.i(0, 200); if (r.p(0.5) ? g.g->getRandomPos(mn, x, y, gp, 50, &e) : g.g->getRandomPos(mn, x, y, l, 50, &e)) { int i, j; count("grid-random"); check(e >= mn, "grid/random-entry", "entry %d below the requested %d", e, mn); int c = cell(g, x, y, i, j); if (c >= 0) { if (check(c == 1, "grid/random-outside", "random position %g,%g outside %g..%g,%g..%g", x, y, g.x0, g.x1, g.y0, g.y1)) { check(g.v[{i, j}] == e && g.g->getEntry(x, y) >= mn, "grid/random-position", "position in a cell of %d, reported %d (at least %d requested)", g.v[{i, j}], e, mn); if (gp) check(g.gr[{i, j}].count(gp.get()), "grid/random-grasp", "grasp of another cell"); } } } }
        count("grid");
    }
    if (gs.size() >= 2)
    {
        std::vector<WorkspaceGridPtr> v; double X0 = 1e30, X1 = -1e30, Y0 = 1e30, Y1 = -1e30; for (auto& g : gs) { v.push_back(g.g); X0 = std::min(X0, g.x0); X1 = std::max(X1, g.x1); Y0 = std::min(Y0, g.y0); Y1 = std::max(Y1, g.y1); } auto mg = WorkspaceGrid::MergeWorkspaceGrids(v); float e[4]; mg->getExtends(e[0], e[1], e[2], e[3]);
        check(std::fabs(e[0] - X0) < 0.01 && std::fabs(e[1] - X1) < 0.01 && std::fabs(e[2] - Y0) < 0.01 && std::fabs(e[3] - Y1) < 0.01, "grid/merge-extent", "merged grid covers %g..%g,%g..%g instead of %g..%g,%g..%g", e[0], e[1], e[2], e[3], X0, X1, Y0, Y1);
        // every merged value is the worst value of all grids at some point of the cell
        int nx, ny; mg->getCells(nx, ny); double sx = (X1 - X0) / nx, sy = (Y1 - Y0) / ny; int shown = 0;
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { int hi = 0; for (double a = 0; a <= 1.0001; a += 0.1) for (double b = 0; b <= 1.0001; b += 0.1) { int mnv = INT_MAX; for (auto& g : gs) { double px = X0 + (i + a) * sx, py = Y0 + (j + b) * sy; double p = (px - g.x0) / (g.x1 - g.x0) * g.nx, q = (py - g.y0) / (g.y1 - g.y0) * g.ny; int best = 0; for (double dp = -0.02; dp <= 0.021; dp += 0.02) for (double dq = -0.02; dq <= 0.021; dq += 0.02) { int ii = std::floor(p + dp), jj = std::floor(q + dq); if (p + dp > -1 && ii < 0) ii = 0; if (q + dq > -1 && jj < 0) jj = 0; auto it = g.v.find({ii, jj}); if (it != g.v.end()) best = std::max(best, it->second); } mnv = std::min(mnv, best); } hi = std::max(hi, mnv); } int got = mg->getCellEntry(i, j); if ((got < 0 || got > hi) && shown++ < 3) check(false, "grid/merge", "merged cell %d,%d holds %d, the worst value of all grids is at most %d", i, j, got, hi); count("grid-merge"); }
    }
    // grid filled from a map
    if (r.p(0.4))
    {
        Fixture f; f.s = genScene(r, false); setup(r, f, 6, 2, true, 0, true); for (int k = 0; k < 500; k++) { randomConf(r, f.s); Vox v; M4 l = inv(baseG(f.s)) * tcpPose(f.s); f.w->addCurrentTCPPose(); } M4 gg = tcpPose(f.s); M4 rp = toF(r.pose(300)); f.s.rob->setGlobalPose(f4(rp)); G g = mk(gg(0, 3), gg(1, 3), f.dt); Eigen::Matrix4f ggf = f4(gg);
        GraspPtr gp = grasps[0]; RobotNodePtr bn = f.s.base ? f.s.base : f.s.rob->getRootNode(); bool ok = g.g->fillGridData(f.w, ggf, gp, bn); check(ok, "grid/fill", "fillGridData failed"); check(mdiff(f.s.rob->getGlobalPose().cast<double>(), rp) < 1e-4, "grid/fill-restore", "the robot was moved"); count("grid-filled");
        f.s.rob->setGlobalPose(Eigen::Matrix4f::Identity()); auto cut = f.w->createCut(ggf, f.dt, false); auto tr = f.w->createCutTransformations(cut, bn); std::map<std::pair<int, int>, int> want, lax; bool amb = false; auto put = [&](std::map<std::pair<int, int>, int>& mp, int i, int j, int v) { if (i >= 0 && j >= 0 && i < g.nx && j < g.ny) { int& c = mp[{i, j}]; c = std::max(c, v); } };
        for (auto& t : tr) { M4 p = gg * inv(t->transformation.cast<double>()); int i, j; int c = cell(g, p(0, 3), p(1, 3), i, j); if (c < 0) { amb = true; continue; } if (!c) continue; put(want, i, j, t->value); if (i > 0 && j > 0 && i < g.nx - 1 && j < g.ny - 1) for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) put(want, i + a, j + b, t->value); }
        for (int i = 0; i < g.nx; i++) for (int j = 0; j < g.ny; j++) { int got = g.g->getCellEntry(i, j), w = want[{i, j}]; if (amb ? got < w : got != w) { check(false, "grid/fill-entry", "cell %d,%d holds %d instead of %d", i, j, got, w); break; } if (w) count("grid-fill-cell"); }
    }
}
static void c16(Rng& r)
{
    seedLibrary(r.next()); srand(r.next());
#ifdef __SANITIZE_THREAD__
    randomFill(r);
#else
    int k = r.i(0, 19); if (k <= 9) mapOps(r); else if (k <= 13) manipMap(r); else if (k <= 16) randomFill(r); else grid(r);
#endif
}
#ifndef __SANITIZE_THREAD__
#include "wsfile.h"
#endif
int main(int c, char** v)
{
    VirtualRobot::init("vh");
#ifdef __SANITIZE_THREAD__
    return run(c, v, {{"C16", c16, 60, 600}});
#else
    return run(c, v, {{"C16", c16, 1400, 14000}, {"C17", c17, 3000, 30000}});
#endif
}
