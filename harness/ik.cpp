// C06: Jacobians, errors, inverse Jacobians and gradients against an independent double-precision model.
// C07: every reported IK solution is judged by the independent forward kinematics.
#include "rob.h"
#include <VirtualRobot/IK/DifferentialIK.h>
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/GenericIKSolver.h>
#include <VirtualRobot/IK/GazeIK.h>
#include <VirtualRobot/IK/HierarchicalIK.h>
#include <VirtualRobot/IK/HierarchicalIKSolver.h>
#include <VirtualRobot/IK/StackedIK.h>
#include <VirtualRobot/IK/JointLimitAvoidanceJacobi.h>
#include <VirtualRobot/IK/PoseQualityManipulability.h>
#include <VirtualRobot/IK/ConstrainedHierarchicalIK.h>
#include <VirtualRobot/IK/ConstrainedStackedIK.h>
#include <VirtualRobot/IK/ConstrainedOptimizationIK.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.h>
#include <VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.h>
#include <VirtualRobot/IK/constraints/CollisionCheckConstraint.h>
#include <VirtualRobot/IK/constraints/BalanceConstraint.h>
#include <VirtualRobot/IK/SupportPolygon.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
#include <Eigen/SVD>
using namespace VirtualRobot; using namespace vh;
using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd; using Sel = IKSolver::CartesianSelection;
static V3 logR(const M3& r) { Eigen::Quaterniond q(r); q.normalize(); if (q.w() < 0) q.coeffs() *= -1; double n = q.vec().norm(); if (n < 1e-12) return V3::Zero(); return q.vec() / n * 2 * std::atan2(n, q.w()); }
static M3 expR(const V3& w) { double a = w.norm(); return a < 1e-14 ? M3::Identity().eval() : Eigen::AngleAxisd(a, w / a).toRotationMatrix(); }
struct Bot
{
    RobotDef d; RobotPtr rob; std::vector<RobotNodePtr> nd; M4 root;
    void make(Rng& r, const GenOpt& o) { d = genRobot(r, o); build_(r); }
    void build_(Rng& r) { rob = build(d, r.p(0.5)); for (auto& n : d.n) nd.push_back(rob->getRobotNode(n.name)); root = toF(r.pose(1000)); if (r.p(0.3)) root.setIdentity(); rob->setGlobalPose(f4(root)); }
    std::vector<double> q() { std::vector<double> v; for (size_t i = 0; i < nd.size(); i++) v.push_back(d.n[i].type == FIX ? 0 : nd[i]->getJointValue()); return v; }
    void randomize(Rng& r) { std::map<std::string, float> m; for (int j : d.joints()) m[d.n[j].name] = r.f(d.n[j].lo, d.n[j].hi); rob->setJointValues(m); }
    M4 pose(int node, const M4& off, const std::vector<double>& q) { return d.fk(root, q)[node] * off; }
    double reach(const std::vector<double>& q) { double L = 0; for (auto& g : d.fk(root, q)) L = std::max(L, (g.block<3, 1>(0, 3) - root.block<3, 1>(0, 3)).norm()); return L; }
    // 6 x n Jacobian of a frame fixed to a node
    MX jac(int node, const M4& off, const std::vector<int>& js)
    {
        auto q0 = q(); MX J(6, js.size()); M4 c = pose(node, off, q0);
        for (size_t k = 0; k < js.size(); k++)
        {
            double h = d.n[js[k]].type == REV ? 1e-5 : 1e-2; auto a = q0, b = q0; a[js[k]] -= h; b[js[k]] += h; M4 pa = pose(node, off, a), pb = pose(node, off, b);
            J.block<3, 1>(0, k) = (pb.block<3, 1>(0, 3) - pa.block<3, 1>(0, 3)) / (2 * h);
            J.block<3, 1>(3, k) = logR(pb.block<3, 3>(0, 0) * pa.block<3, 3>(0, 0).transpose()) / (2 * h);
        }
        (void)c; return J;
    }
    V3 com(const std::vector<int>& bodies, const std::vector<double>& q) { auto g = d.fk(root, q); V3 s = V3::Zero(); double m = 0; for (int b : bodies) { V3 c = (g[b] * Eigen::Vector4d(d.n[b].com(0), d.n[b].com(1), d.n[b].com(2), 1)).head<3>(); s += d.n[b].mass * c; m += d.n[b].mass; } return m > 0 ? (s / m).eval() : s; }
    MX comJac(const std::vector<int>& bodies, const std::vector<int>& js) { auto q0 = q(); MX J(3, js.size()); for (size_t k = 0; k < js.size(); k++) { double h = d.n[js[k]].type == REV ? 1e-5 : 1e-2; auto a = q0, b = q0; a[js[k]] -= h; b[js[k]] += h; J.col(k) = (com(bodies, b) - com(bodies, a)) / (2 * h); } return J; }
    bool limitsOk(double tol = 1e-5) { for (size_t i = 0; i < nd.size(); i++) if (d.n[i].type != FIX && !d.n[i].limitless) { double v = nd[i]->getJointValue(); if (!(v >= d.n[i].lo - tol && v <= d.n[i].hi + tol)) return false; } return true; }
};
static std::vector<int> rows(int mode) { std::vector<int> r; for (int k = 0; k < 3; k++) if (mode & (1 << k)) r.push_back(k); if (mode & 8) for (int k = 3; k < 6; k++) r.push_back(k); return r; }
static MX pick(const MX& J, int mode) { auto r = rows(mode); MX o(r.size(), J.cols()); for (size_t i = 0; i < r.size(); i++) o.row(i) = J.row(r[i]); return o; }
static int genMode(Rng& r) { return r.pick({1, 2, 4, 7, 8, 15, 15, 7, 3, 5, 6, 9, 12, 11}); }
static MX pinvD(const MX& m, double& smin, double& smax) { Eigen::JacobiSVD<MX> s(m, Eigen::ComputeThinU | Eigen::ComputeThinV); VX v = s.singularValues(); smax = v(0); smin = v(v.size() - 1); for (int i = 0; i < v.size(); i++) v(i) = v(i) > 1e-5 ? 1 / v(i) : 0; return s.matrixV() * v.asDiagonal() * s.matrixU().transpose(); }
static bool jcheck(const Eigen::MatrixXf& got, const MX& want, double L, const std::string& key, const std::string& what) { if (got.rows() != want.rows() || got.cols() != want.cols()) return check(false, key + "-size", "%s: %dx%d instead of %dx%d", what.c_str(), (int)got.rows(), (int)got.cols(), (int)want.rows(), (int)want.cols()); return checkMat(got, want, 2e-3 + 2e-5 * L, key, what); }
static bool jcheckSplit(const Eigen::MatrixXf& got, const MX& want, int mode, double L, const std::string& key, const std::string& what)
{
    auto rw = rows(mode); if (got.rows() != (int)rw.size() || got.cols() != want.cols()) return check(false, key + "-size", "%s: %dx%d instead of %zux%d", what.c_str(), (int)got.rows(), (int)got.cols(), rw.size(), (int)want.cols());
    for (size_t i = 0; i < rw.size(); i++) if (!checkMat(got.row(i), want.row(rw[i]), rw[i] < 3 ? 2e-3 + 2e-5 * L : 3e-4, key + (rw[i] < 3 ? "/position" : "/orientation"), what)) return false;
    return true;
}
static void gradCheck(Bot& b, ConstraintPtr c, unsigned id, const std::vector<int>& js, const std::string& key, double L)
{
    // derivative of the library's own objective by central differences
    int n = js.size(); Eigen::VectorXf g = c->optimizationGradient(id); if (!check(g.size() == n, key + "-size", "%d entries for %d joints", (int)g.size(), n)) return;
    double f0 = c->optimizationFunction(id), gm = 0; VX num(n), curv = VX::Zero(n);
    for (int k = 0; k < n; k++)
    {
        auto& j = b.nd[js[k]]; auto& dn = b.d.n[js[k]]; float v = j->getJointValue(); double h = dn.type == REV ? 4e-3 : 1; if (!dn.limitless && (v - h < dn.lo || v + h > dn.hi)) { num(k) = g(k); continue; }
        float va = v - h, vb = v + h; b.rob->setJointValue(j, va); bool wrapped = std::fabs(j->getJointValue() - va) > 1; double fa = c->optimizationFunction(id); b.rob->setJointValue(j, vb); wrapped |= std::fabs(j->getJointValue() - vb) > 1; double fb = c->optimizationFunction(id); b.rob->setJointValue(j, v); if (wrapped) { num(k) = g(k); continue; }
        num(k) = (fb - fa) / ((double)vb - va); curv(k) = std::fabs(fb - 2 * f0 + fa) / h; gm = std::max(gm, std::fabs(num(k)) * (dn.type == REV ? 1 : 100));
    }
    gm = std::max(gm, (double)g.cwiseAbs().maxCoeff());
    for (int k = 0; k < n; k++) { double h = b.d.n[js[k]].type == REV ? 4e-3 : 1; if (!check(near_(g(k), num(k), 0.02 * gm / (b.d.n[js[k]].type == REV ? 1 : 100) + 0.02 * std::fabs(num(k)) + 0.6 * curv(k) + (4e-6 * (std::fabs(f0) + 1) + 6e-7 * L * std::sqrt(std::fabs(f0))) / h), key, "joint %d: gradient %g, derivative of the objective %g (objective %g)", k, g(k), num(k), f0)) return; }
    count("gradient");
}
static void c06(Rng& r)
{
    GenOpt o; o.prop = false; o.phys = true; o.maxNodes = 9; Bot b; b.make(r, o);
    for (auto& s : b.d.sets) { bool dup = false; (void)dup; (void)s; }
    for (int rep = 0; rep < 3; rep++)
    {
        b.randomize(r); auto q = b.q(); double L = b.reach(q) + b.root.block<3, 1>(0, 3).norm() * 0.2 + 50;
        const SetDef& s = r.pick(b.d.sets); RobotNodeSetPtr rns = b.rob->getRobotNodeSet(s.name); auto& js = s.nodes; int stcp = s.tcp >= 0 ? s.tcp : s.nodes.back();
        int cs = r.p(0.4) ? r.i(0, (int)b.d.n.size() - 1) : -1; bool m = r.p(0.3); double sc = m ? 1e-3 : 1;
        DifferentialIKPtr ik(new DifferentialIK(rns, cs >= 0 ? b.nd[cs] : RobotNodePtr())); ik->convertModelScalingtoM(m);
        M3 rc = M3::Identity(); if (cs >= 0) rc = b.d.fk(b.root, q)[cs].block<3, 3>(0, 0).transpose();
        auto ref = [&](int node, const M4& off) { MX J = b.jac(node, off, js); for (size_t k = 0; k < js.size(); k++) if (b.d.n[js[k]].type == REV) J.block<3, 1>(0, k) *= sc; MX o = J; o.topRows(3) = rc * J.topRows(3); o.bottomRows(3) = rc * J.bottomRows(3); return o; };
        // a frame: the set's tcp, any node, or an object attached to a node
        struct Fr { SceneObjectPtr o; int node; M4 off; };
        auto frame = [&](bool allowNull) { int k = r.i(0, 2); if (k == 0 && allowNull) return Fr{SceneObjectPtr(), stcp, M4::Identity()}; std::vector<int> w; for (size_t i = 0; i < b.d.n.size(); i++) if (!b.d.n[i].sensors.empty()) w.push_back(i); if (k == 1 && !w.empty()) { int i = r.pick(w); return Fr{b.nd[i]->getSensor(b.d.n[i].sensors[0].first), i, b.d.n[i].sensors[0].second}; } int i = r.i(0, (int)b.d.n.size() - 1); return Fr{b.nd[i], i, M4::Identity()}; };
        for (int t = 0; t < 3; t++)
        {
            Fr f = frame(true); int mode = genMode(r); MX J = ref(f.node, f.off); at(fmt("set %s mode %d cs %d m %d", s.name.c_str(), mode, cs, (int)m));
            jcheckSplit(ik->getJacobianMatrix(f.o, (Sel)mode), J, mode, L * sc, "jacobian", fmt("frame at node %d, mode %d, coord system %d", f.node, mode, cs));
            if (f.o) jcheckSplit(ik->getJacobianMatrix(f.o), J, 15, L * sc, "jacobian", "all rows");
            else jcheckSplit(ik->getJacobianMatrix((Sel)mode), J, mode, L * sc, "jacobian", "default tcp");
            count(f.o ? (f.off == M4::Identity() ? "node-frame" : "object-frame") : "default-frame"); sig(hm(hm(3, b.d.fk(b.root, q)[f.node]), J));
        }
        // several goals
        {
            DifferentialIKPtr mg(new DifferentialIK(rns, cs >= 0 ? b.nd[cs] : RobotNodePtr())); std::vector<Fr> fs; std::vector<int> ms; std::vector<M4> goals; std::vector<double> tp, tr;
            for (int t = 0; t < r.i(1, 3); t++) { Fr f = frame(false); bool dup = false; for (auto& x : fs) dup |= x.o == f.o; if (dup) continue; M4 goal = b.pose(f.node, f.off, q); int near = r.i(0, 2); M4 dl = r.pose(near == 0 ? 1000 : near == 1 ? 10 : 0.01); if (near) dl.block<3, 3>(0, 0) = Eigen::AngleAxisd(r.u(0, near == 1 ? 0.1 : 1e-4), r.dir()).toRotationMatrix(); goal.block<3, 1>(0, 3) += dl.block<3, 1>(0, 3); goal.block<3, 3>(0, 0) = dl.block<3, 3>(0, 0) * goal.block<3, 3>(0, 0); goal = toF(goal); fs.push_back(f); ms.push_back(genMode(r)); goals.push_back(goal); tp.push_back(r.u(0.1, 20)); tr.push_back(r.u(0.005, 0.2)); mg->setGoal(f4(goal), f.o, (Sel)ms.back(), tp.back(), tr.back(), r.p(0.5)); }
            mg->initialize(); double step = F(r.u(0.05, 1)), maxp = r.p(0.4) ? F(r.u(1, 50)) : -1; mg->setMaxPositionStep(maxp);
            std::vector<MX> parts; std::vector<double> err; bool ok = true, sure = true; double meanp = 0;
            for (size_t t = 0; t < fs.size(); t++)
            {
                M4 cur = b.pose(fs[t].node, fs[t].off, q); MX J = b.jac(fs[t].node, fs[t].off, js); MX Jr = J; Jr.topRows(3) = rc * J.topRows(3); Jr.bottomRows(3) = rc * J.bottomRows(3); parts.push_back(pick(Jr, ms[t]));
                V3 dp = goals[t].block<3, 1>(0, 3) - cur.block<3, 1>(0, 3); for (int k = 0; k < 3; k++) if (!(ms[t] & (1 << k))) dp(k) = 0; V3 w = ms[t] & 8 ? logR(goals[t].block<3, 3>(0, 0) * cur.block<3, 3>(0, 0).transpose()) : V3::Zero();
                double ep = dp.norm(), er = w.norm(); meanp += ep / fs.size(); V3 sp = dp * step; if (maxp > 0 && sp.norm() > maxp) sp *= maxp / sp.norm();
                for (int k = 0; k < 3; k++) if (ms[t] & (1 << k)) err.push_back(sp(k)); if (ms[t] & 8) for (int k = 0; k < 3; k++) err.push_back(w(k) * step);
                double pe = 0.02 + 2e-5 * L; checkNear(mg->getErrorPosition(fs[t].o), ep, pe, "error/position", fmt("mode %d", ms[t])); if (er < 3.1) checkNear(mg->getErrorRotation(fs[t].o), er, 2e-3, "error/rotation", fmt("mode %d", ms[t]));
                Eigen::VectorXf dl = mg->getDeltaToGoal(fs[t].o); checkMat(dl.head(3), dp, pe, "error/delta-position", fmt("mode %d", ms[t])); if (er < 3.1) checkMat(dl.tail(3), w, 2e-3, "error/delta-rotation", fmt("mode %d", ms[t]));
                if (ms[t] & 8) checkMat(expR(dl.tail(3).cast<double>()) * cur.block<3, 3>(0, 0), goals[t].block<3, 3>(0, 0), 2e-3, "error/delta-rotation-leads-to-goal");
                if (std::fabs(ep - tp[t]) < pe || std::fabs(er - tr[t]) < 3e-3 || er > 3.1) sure = false; if (ep > tp[t] || er > tr[t]) ok = false;
            }
            int R = 0; for (auto& p : parts) R += p.rows(); MX J(R, js.size()); int at_ = 0; for (auto& p : parts) { J.middleRows(at_, p.rows()) = p; at_ += p.rows(); }
            jcheck(mg->getJacobianMatrix(), J, L, "jacobian/stacked-goals", fmt("%zu goals", fs.size()));
            Eigen::VectorXf e = mg->getError(step); if (check((size_t)e.size() == err.size(), "error/size", "%d", (int)e.size())) { VX w = Eigen::Map<VX>(err.data(), err.size()); bool wrap = false; for (size_t t = 0; t < fs.size(); t++) wrap |= (ms[t] & 8) && rotAngle(goals[t].block<3, 3>(0, 0) * b.pose(fs[t].node, fs[t].off, q).block<3, 3>(0, 0).transpose()) > 3.1; if (!wrap) checkMat(e, w, 0.02 + 2e-5 * L, "error/vector", "all goals"); }
            if (sure) check(mg->checkTolerances() == ok, "error/tolerances", "reported %d, reference %d", (int)mg->checkTolerances(), (int)ok), count(ok ? "tolerance-met" : "tolerance-missed");
            checkNear(mg->getMeanErrorPosition(), meanp, 0.02 + 2e-5 * L, "error/mean-position");
            if (fs.size() == 1 && fs[0].o == SceneObjectPtr(b.nd[stcp])) { checkNear(mg->getErrorPosition(), mg->getErrorPosition(fs[0].o), 1e-5, "error/default-tcp-position"); }
            // a goal for the default tcp, asked for without naming the tcp
            DifferentialIKPtr dg(new DifferentialIK(rns)); M4 goal = toF(r.pose(500)); dg->setGoal(f4(goal)); M4 cur = b.pose(stcp, M4::Identity(), q); double er = rotAngle(goal.block<3, 3>(0, 0) * cur.block<3, 3>(0, 0).transpose());
            checkNear(dg->getErrorPosition(), (goal - cur).block<3, 1>(0, 3).norm(), 0.02 + 2e-5 * L, "error/default-tcp-position"); if (er < 3.1) checkNear(dg->getErrorRotation(), er, 2e-3, "error/default-tcp-rotation");
            // a computed step
            double smin, smax; MX P = pinvD(J, smin, smax); if (smin > 5e-2 * smax && smin > 5e-2) { Eigen::VectorXf st = mg->computeStep(step); VX want = P * mg->getError(step).cast<double>(); checkMat(st, want, 1e-2 * (1 + want.norm()) / std::max(0.1, std::min(1.0, smin / smax)), "step", "pseudo inverse step"); check(b.q() == q, "step/moved", "computing a step moved joints"); count("step"); }
        }
        // inverses of Jacobian-like and of random matrices
        for (int t = 0; t < 3; t++)
        {
            int R = r.i(1, 6), C = r.i(1, 8); MX M(R, C); for (int i = 0; i < M.size(); i++) M(i) = F(r.u(-1, 1)); bool defi = r.p(0.3); if (defi && R > 1) M.row(R - 1) = M.row(0); for (int i = 0; i < M.size(); i++) M(i) = F(M(i));
            auto meth = r.pick({JacobiProvider::eSVD, JacobiProvider::eSVD, JacobiProvider::eSVDDamped, JacobiProvider::eTranspose}); DifferentialIK p(rns, RobotNodePtr(), meth);
            bool w = meth != JacobiProvider::eSVDDamped && r.p(0.4); VX W = VX::Ones(C); if (w) { Eigen::VectorXf wf(C); for (int i = 0; i < C; i++) { W(i) = F(r.u(0.1, 5)); wf(i) = W(i); } p.setJointWeights(wf); }
            bool rg = r.p(0.4); VX D = VX::Ones(R); if (rg) for (int i = 0; i < R; i++) D(i) = F(r.u(0.2, 3));
            double par = r.p(0.5) && meth == JacobiProvider::eSVDDamped ? F(r.u(0.05, 2)) : 0; if (meth == JacobiProvider::eSVDDamped && par == 0) p.setDampedSvdLambda(F(r.u(0.05, 2)));
            double lam = par ? par : p.getDampedSvdLambda(); MX MD = D.asDiagonal() * M, want; double smin = 1, smax = 1; bool dbl = true;
            Eigen::JacobiSVD<MX> sv(MD); smax = sv.singularValues()(0); smin = sv.singularValues()(std::min(R, C) - 1);
            bool good = smin > 1e-2 * smax;
            if (meth == JacobiProvider::eSVD) { MX W12 = W.cwiseInverse().cwiseSqrt().asDiagonal(); double a, c; want = W12 * pinvD(MD * W12, a, c); bool zero = smin < 1e-9 * smax; dbl = good || (defi && zero); }
            else if (meth == JacobiProvider::eTranspose) { if (R > C || !good) continue; MX Wi = W.cwiseInverse().asDiagonal(); want = Wi * MD.transpose() * (MD * Wi * MD.transpose()).inverse(); }
            else { want = MD.transpose() * (MD * MD.transpose() + lam * lam * MX::Identity(R, R)).inverse(); good = true; dbl = par != 0; }
            want = want * D.asDiagonal(); double tol = 1 + want.cwiseAbs().maxCoeff();
            VX reg = rg ? D : VX(); Eigen::VectorXf regf = reg.cast<float>(); const char* mn = meth == JacobiProvider::eSVD ? "svd" : meth == JacobiProvider::eTranspose ? "transpose" : "damped";
            if (good) { checkMat(p.computePseudoInverseJacobianMatrix(M.cast<float>(), (float)par, regf), want, 2e-3 * tol * (smax / smin < 20 || meth == JacobiProvider::eSVDDamped ? 1 : 10), fmt("inverse/%s", mn), fmt("%dx%d weights %d regularization %d", R, C, (int)w, (int)rg)); count("inverse"); }
            if (dbl) checkMat(p.computePseudoInverseJacobianMatrixD(M, par, reg), want, 1e-6 * tol * tol, fmt("inverse/%s-double", mn), fmt("%dx%d weights %d regularization %d deficient %d", R, C, (int)w, (int)rg, (int)defi));
        }
        // regularization vector matches the selected rows
        { int mode = genMode(r); ik->setJacobiMMRegularization(40); ik->setJacobiRadianRegularization(2); Eigen::VectorXf v = ik->getJacobiRegularization((Sel)mode); auto rw = rows(mode); if (check((size_t)v.size() == rw.size(), "regularization/size", "%d", (int)v.size())) for (size_t i = 0; i < rw.size(); i++) checkNear(v(i), rw[i] < 3 ? 1.0 / 40 : 0.5, 1e-6, "regularization/value"); }
        // centre of mass
        std::vector<int> bodies; for (size_t i = 0; i < b.d.n.size(); i++) if (b.d.n[i].phys && r.p(0.8)) bodies.push_back(i); double mass = 0; for (int i : bodies) mass += b.d.n[i].mass;
        if (mass > 0)
        {
            std::vector<RobotNodePtr> bn; for (int i : bodies) bn.push_back(b.nd[i]); RobotNodeSetPtr bs = RobotNodeSet::createRobotNodeSet(b.rob, "bodies", bn);
            int dim = r.i(2, 3); int ccs = r.p(0.3) ? r.i(0, (int)b.d.n.size() - 1) : -1; CoMIK ck(rns, bs, ccs >= 0 ? b.nd[ccs] : RobotNodePtr(), dim); V3 com = b.com(bodies, q), g = com + V3(r.u(-100, 100), r.u(-100, 100), r.u(-100, 100)); bool cm = r.p(0.3); ck.convertModelScalingtoM(cm);
            ck.setGoal(g.head(dim).cast<float>(), 5); MX J = b.comJac(bodies, js); if (cm) for (size_t k = 0; k < js.size(); k++) if (b.d.n[js[k]].type == REV) J.col(k) *= 1e-3; if (ccs >= 0) J = b.d.fk(b.root, q)[ccs].block<3, 3>(0, 0).transpose() * J;
            jcheck(ck.getJacobianMatrix(), J.topRows(dim), L, "com/jacobian", fmt("%zu bodies coord system %d", bodies.size(), ccs)); checkMat(ck.getError(), (g - com).head(dim), 0.05 + 2e-5 * L, "com/error"); checkMat(bs->getCoM(), com, 0.05 + 2e-5 * L, "com/position"); count("com");
            {
                ConstraintPtr cc; if (r.p(0.5)) cc.reset(new CoMConstraint(b.rob, rns, bs, Eigen::Vector3f(g.cast<float>()), 5)); else cc.reset(new CoMConstraint(b.rob, rns, bs, Eigen::Vector2f(g.head(2).cast<float>()), 5)); gradCheck(b, cc, 0, js, "gradient/com", L);
                // a new target replaces the old one
                auto c3 = boost::shared_ptr<CoMConstraint>(new CoMConstraint(b.rob, rns, bs, Eigen::Vector3f(g.cast<float>()), 5)); V3 g2 = com + V3(1, 1, 1); c3->updateTarget(Eigen::Vector3f(g2.cast<float>())); checkNear(c3->optimizationFunction(0), 3, 0.5 + 1e-4 * L, "com/updated-target", "objective after updateTarget"); check(c3->checkTolerances(), "com/updated-target", "1.7 mm from the new target");
            }
            b.rob->deregisterRobotNodeSet(bs);
        }
        // priorities and stacking
        {
            Fr f1 = frame(false), f2 = frame(false);
            if (f1.o != f2.o)
            {
                DifferentialIKPtr a(new DifferentialIK(rns)), c(new DifferentialIK(rns)); int m1 = genMode(r), m2 = genMode(r); M4 g1 = b.pose(f1.node, f1.off, q), g2 = b.pose(f2.node, f2.off, q); g1.block<3, 1>(0, 3) += 30 * r.dir(); g2.block<3, 1>(0, 3) += 30 * r.dir(); g1.block<3, 3>(0, 0) = expR(r.dir() * 0.1) * g1.block<3, 3>(0, 0); a->setGoal(f4(g1), f1.o, (Sel)m1); c->setGoal(f4(g2), f2.o, (Sel)m2);
                // like the library, but in the same units: rows scaled by the caller are not touched
                MX J1 = pick(b.jac(f1.node, f1.off, js), m1), J2 = pick(b.jac(f2.node, f2.off, js), m2), JS(J1.rows() + J2.rows(), js.size()); JS << J1, J2; VX e1 = a->getError().cast<double>(), e2 = c->getError().cast<double>(), eS(e1.size() + e2.size()); eS << e1, e2; double step = r.u(0.1, 1);
                double a1, b1, a2, b2; MX P1 = pinvD(J1, a1, b1), PS = pinvD(JS, a2, b2);
                std::vector<JacobiProviderPtr> v; v.push_back(a); v.push_back(c);
                if (a1 > 1e-2 * b1 && a1 > 1e-2 && J1.rows() <= J1.cols())
                {
                    HierarchicalIK h(rns, JacobiProvider::eSVD); VX dq = h.computeStep(v, step).cast<double>();
                    // the projected second task amplifies float noise if nearly dependent on the first
                    double nrm = dq.norm(); if (std::isfinite(nrm) && nrm < 50) { checkMat(J1 * dq, e1 * step, (0.05 + 2e-5 * L) * (1 + nrm) + 1e-3 * e1.norm(), "hierarchy/first-task", fmt("modes %d %d", m1, m2)); count("hierarchy"); if (a2 > 1e-2 * b2 && a2 > 1e-2 && JS.rows() <= JS.cols()) { checkMat(J2 * dq, e2 * step, (0.05 + 2e-5 * L) * (1 + nrm) + 2e-3 * e2.norm(), "hierarchy/second-task"); count("hierarchy-both"); } } else check(std::isfinite(nrm), "hierarchy/nan", "not finite");
                }
                if (a2 > 1e-2 * b2 && a2 > 1e-2) { StackedIK st(rns, JacobiProvider::eSVD); VX dq = st.computeStep(v, step).cast<double>(), w = PS * eS * step; checkMat(dq, w, 5e-3 * (1 + w.norm()), "stacked"); count("stacked"); }
            }
        }
        // joint limit avoidance
        { JointLimitAvoidanceJacobi jl(rns); Eigen::VectorXf e = jl.getError(0.5f); for (size_t k = 0; k < js.size(); k++) { auto& n = b.d.n[js[k]]; checkNear(e(k), n.type == REV ? 0.5 * ((n.lo + n.hi) / 2 - b.nd[js[k]]->getJointValue()) : 0, 1e-4, "joint-limit-avoidance/error"); } checkMat(jl.getJacobianMatrix(), MX::Identity(js.size(), js.size()), 0, "joint-limit-avoidance/jacobian"); }
        // constraints
        {
            Fr f = frame(false); M4 goal = b.pose(f.node, f.off, q); goal.block<3, 1>(0, 3) += V3(r.u(-200, 200), r.u(-200, 200), r.u(-200, 200)); goal.block<3, 3>(0, 0) = expR(r.dir() * r.u(0.05, 2)) * goal.block<3, 3>(0, 0); goal = toF(goal); Sel sl = r.pick({IKSolver::X, IKSolver::Y, IKSolver::Z, IKSolver::Position, IKSolver::Orientation, IKSolver::All});
            ConstraintPtr pc(new PoseConstraint(b.rob, rns, f.o, f4(goal), sl)), po(new PositionConstraint(b.rob, rns, f.o, goal.block<3, 1>(0, 3).cast<float>(), sl)), oc(new OrientationConstraint(b.rob, rns, f.o, goal.block<3, 3>(0, 0).cast<float>(), sl)); float fac = r.p(0.4) ? r.f(0.2, 3) : 1; for (auto& c : {pc, po, oc}) c->setOptimizationFunctionFactor(fac);
            gradCheck(b, pc, 0, js, "gradient/pose-position", L); gradCheck(b, pc, 1, js, "gradient/pose-orientation", L); gradCheck(b, po, 0, js, "gradient/position", L); gradCheck(b, oc, 0, js, "gradient/orientation", L);
            V3 dd = goal.block<3, 1>(0, 3) - b.pose(f.node, f.off, q).block<3, 1>(0, 3); double fv = 0; for (int k = 0; k < 3; k++) if (((int)sl & (1 << k))) fv += dd(k) * dd(k); checkNear(po->optimizationFunction(0), fac * fv, 1e-3 * (1 + fv) + (0.1 + 4e-5 * L) * std::sqrt(fv + 1) * fac, "objective/position");
            double e = std::sqrt(fv), eo = (int)sl & 8 ? rotAngle(goal.block<3, 3>(0, 0) * b.pose(f.node, f.off, q).block<3, 3>(0, 0).transpose()) : 0;
            if (std::fabs(e - 3) > 0.1 + 4e-5 * L) check(po->checkTolerances() == (e <= 3), "constraint/position-tolerance", "selection %d: error %g, accepted %d", (int)sl, e, (int)po->checkTolerances());
            if (std::fabs(eo - M_PI / 180) > 3e-3) check(oc->checkTolerances() == (eo <= M_PI / 180), "constraint/orientation-tolerance", "selection %d: error %g", (int)sl, eo);
            if (std::fabs(e - 5) > 0.1 + 4e-5 * L && std::fabs(eo - 3 * M_PI / 180) > 3e-3) check(pc->checkTolerances() == (e <= 5 && eo <= 3 * M_PI / 180), "constraint/pose-tolerance", "selection %d: errors %g %g", (int)sl, e, eo);
            Eigen::VectorXf rc_(js.size()); for (size_t k = 0; k < js.size(); k++) rc_(k) = r.f(b.d.n[js[k]].lo, b.d.n[js[k]].hi); ConstraintPtr rf(new ReferenceConfigurationConstraint(b.rob, rns, rc_)), ja(new JointLimitAvoidanceConstraint(b.rob, rns)); gradCheck(b, rf, 0, js, "gradient/reference-configuration", L); gradCheck(b, ja, 0, js, "gradient/joint-limit-avoidance", L);
            // task space region
            int tn = r.i(0, (int)b.d.n.size() - 1); M4 tr = toF(r.pose(300)), off = r.p(0.5) ? M4::Identity().eval() : toF(r.pose(100)); Eigen::Matrix<float, 6, 2> bd; for (int k = 0; k < 6; k++) { double c = r.u(k < 3 ? -200 : -1, k < 3 ? 200 : 1), w = r.p(0.3) ? 0 : r.u(0, k < 3 ? 100 : 0.5); bd(k, 0) = c - w; bd(k, 1) = c + w; }
            if (r.p(0.5)) { M4 in = M4::Identity(); for (int k = 0; k < 3; k++) in(k, 3) = r.u(bd(k, 0), bd(k, 1)) + r.u(-4, 4); in.block<3, 3>(0, 0) = (R(V3::UnitZ(), r.u(bd(5, 0), bd(5, 1))) * R(V3::UnitY(), r.u(bd(4, 0), bd(4, 1))) * R(V3::UnitX(), r.u(bd(3, 0), bd(3, 1)))).block<3, 3>(0, 0); tr = toF(b.pose(tn, M4::Identity(), q) * off * inv(in)); }
            double ttp = F(r.u(0.2, 10)), ttr = F(r.u(0.01, 0.3)); boost::shared_ptr<TSRConstraint> ts(new TSRConstraint(b.rob, rns, b.nd[tn], f4(tr), f4(off), bd, ttp, ttr)); ts->setOptimizationFunctionFactor(fac);
            gradCheck(b, ts, 0, js, "gradient/tsr-position", L); if (rotAngle((inv(tr) * b.pose(tn, M4::Identity(), q) * off).block<3, 3>(0, 0)) < 2.9) gradCheck(b, ts, 1, js, "gradient/tsr-orientation", L);
            M4 Tm = inv(tr) * b.pose(tn, M4::Identity(), q) * off; V3 ex; for (int k = 0; k < 3; k++) ex(k) = Tm(k, 3) - std::min(std::max(Tm(k, 3), (double)bd(k, 0)), (double)bd(k, 1)); double ep = ex.norm();
            double pitch = std::asin(std::max(-1.0, std::min(1.0, -Tm(2, 0)))), yaw = std::atan2(Tm(1, 0), Tm(0, 0)), roll = std::atan2(Tm(2, 1), Tm(2, 2)); V3 cl(std::min(std::max(roll, (double)bd(3, 0)), (double)bd(3, 1)), std::min(std::max(pitch, (double)bd(4, 0)), (double)bd(4, 1)), std::min(std::max(yaw, (double)bd(5, 0)), (double)bd(5, 1)));
            double er = rotAngle(Tm.block<3, 3>(0, 0).transpose() * (R(V3::UnitZ(), cl(2)) * R(V3::UnitY(), cl(1)) * R(V3::UnitX(), cl(0))).block<3, 3>(0, 0));
            if (std::fabs(pitch) < 1.4 && std::fabs(roll) < 3.1 && std::fabs(yaw) < 3.1 && std::fabs(ep - ttp) > 0.1 + 4e-5 * L && std::fabs(er - ttr) > 5e-3) { check(ts->checkTolerances() == (ep <= ttp && er <= ttr), "constraint/tsr-tolerance", "errors %g (tolerance %g) %g (tolerance %g): accepted %d", ep, ttp, er, ttr, (int)ts->checkTolerances()); count(ep <= ttp && er <= ttr ? "tsr-met" : "tsr-missed"); }
            if (std::fabs(pitch) < 1.4 && std::fabs(roll) < 3.1 && std::fabs(yaw) < 3.1) { Eigen::VectorXf te = ts->getError(1); checkNear(te.head(3).norm(), ep, 0.1 + 4e-5 * L, "constraint/tsr-error-position"); if (er < 3.1) checkNear(te.tail(3).norm(), er, 3e-3, "constraint/tsr-error-rotation"); }
        }
        // balance: support polygon of the parts touching the floor
        if (mass > 0)
        {
            SceneObjectSetPtr contacts(new SceneObjectSet("feet", b.rob->getCollisionChecker())); V3 com0 = b.com(bodies, q); std::vector<Eigen::Vector2f> pts; bool sure = true;
            for (int k = 0; k < r.i(1, 3); k++) { float sx = r.f(50, 300), sy = r.f(50, 300), sz = r.f(20, 100); ObstaclePtr ob = Obstacle::createBox(sx, sy, sz, VisualizationFactory::Color::Red(), "", b.rob->getCollisionChecker()); M4 p = M4::Identity(); double a = r.u(-3, 3), lift = r.p(0.3) ? 0.5 : r.u(0.5, 9); p.block<3, 3>(0, 0) = Eigen::AngleAxisd(a, V3::UnitZ()).toRotationMatrix(); p(0, 3) = com0(0) + r.u(-200, 200); p(1, 3) = com0(1) + r.u(-200, 200); p(2, 3) = sz / 2 + lift; ob->setGlobalPose(f4(p)); contacts->addSceneObject(ob); if (std::fabs(lift - 5) < 0.1) sure = false; if (lift < 5) for (int c = 0; c < 4; c++) { V3 v = (p * Eigen::Vector4d((c & 1 ? 1 : -1) * sx / 2, (c & 2 ? 1 : -1) * sy / 2, -sz / 2, 1)).head<3>(); pts.push_back(Eigen::Vector2f(v(0), v(1))); } }
            if (sure && !pts.empty())
            {
                std::vector<std::pair<double, double>> P; for (auto& p : pts) P.push_back({p(0), p(1)}); std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end()); auto cr = [](std::pair<double, double> o, std::pair<double, double> a, std::pair<double, double> c) { return (a.first - o.first) * (c.second - o.second) - (a.second - o.second) * (c.first - o.first); };
                std::vector<std::pair<double, double>> H; for (int pass = 0; pass < 2; pass++) { size_t st = H.size(); for (auto& p : P) { while (H.size() >= st + 2 && cr(H[H.size() - 2], H.back(), p) <= 0) H.pop_back(); H.push_back(p); } H.pop_back(); std::reverse(P.begin(), P.end()); }
                double lox = 1e9, hix = -1e9, loy = 1e9, hiy = -1e9; for (auto& p : H) { lox = std::min(lox, p.first); hix = std::max(hix, p.first); loy = std::min(loy, p.second); hiy = std::max(hiy, p.second); }
                auto border = [&](double x, double y) { double m = 1e18; for (size_t i = 0; i < H.size(); i++) { auto a = H[i], c = H[(i + 1) % H.size()]; double l = std::hypot(c.first - a.first, c.second - a.second); if (l > 1e-9) m = std::min(m, cr(a, c, {x, y}) / l); } return m; };
                SupportPolygonPtr sp(new SupportPolygon(contacts)); sp->updateSupportPolygon(); std::vector<RobotNodePtr> bn; for (int i : bodies) bn.push_back(b.nd[i]); RobotNodeSetPtr bs = RobotNodeSet::createRobotNodeSet(b.rob, "balanceBodies", bn);
                double dc = border((lox + hix) / 2, (loy + hiy) / 2), dm = border(com0(0), com0(1)); if (dc > 5 && std::fabs(dm) > 0.5) { double want = dm < 0 ? 0 : std::min(1.0, dm / dc); checkNear(sp->getStabilityIndex(bs), want, 0.02 + 0.2 / dc, "balance/stability-index", fmt("com to border %g, centre to border %g", dm, dc)); count(dm < 0 ? "unstable" : "stable");
                    float ms = r.f(0.1, 0.9); BalanceConstraintPtr bc; try { bc.reset(new BalanceConstraint(b.rob, rns, bs, sp, 1, ms)); } catch (...) { bc.reset(); } if (bc) { double f = 1; for (size_t i = 0; i < H.size(); i++) { auto a = H[i], c = H[(i + 1) % H.size()]; double l = std::hypot(c.first - a.first, c.second - a.second); f /= 1 + std::exp(-0.1 * cr(a, c, {com0(0), com0(1)}) / l); } checkNear(bc->optimizationFunction(0), 1 - f, 5e-3, "balance/objective"); gradCheck(b, bc, 0, js, "gradient/balance", L); if (std::fabs(want - ms) > 0.05 + 0.2 / dc) check(bc->checkTolerances() == (want >= ms), "balance/tolerance", "index %g minimum %g", want, ms); } }
                b.rob->deregisterRobotNodeSet(bs);
            }
        }
        // manipulability
        {
            PoseQualityManipulability pm(rns); MX J = b.jac(stcp, M4::Identity(), js); for (size_t k = 0; k < js.size(); k++) if (b.d.n[js[k]].type == REV) J.block<3, 1>(0, k) *= 1e-3; J.bottomRows(3) *= 0.15; Eigen::JacobiSVD<MX> sv(J); VX w = sv.singularValues(); Eigen::VectorXf got = pm.getSingularValues();
            if (check(got.size() == w.size(), "manipulability/size", "%d", (int)got.size())) { checkMat(got, w, 2e-4 * (1 + w(0)), "manipulability/singular-values"); double prod = 1; for (int i = 0; i < w.size(); i++) prod *= w(i); double pen = 1, kf = F(r.u(5, 60)); bool p = r.p(0.5); if (p) { pm.penalizeJointLimits(true, kf); double a = 1; for (int j : js) { auto& n = b.d.n[j]; double v = b.nd[j]->getJointValue(); a *= (v - n.lo) * (n.hi - v) / (n.hi - n.lo) / (n.hi - n.lo); } pen = 1 - std::exp(-kf * a); } double u = std::max(1.0, w(0)); checkNear(pm.getManipulability(PoseQualityManipulability::eMultiplySV), prod * pen, 1e-3 * std::pow(u, w.size()), "manipulability/product"); if (w.size() >= 2 && w(0) > 1e-3) checkNear(pm.getPoseQuality(), w(w.size() - 1) / w(0) * pen, 2e-3 / w(0) * (1 + w(0)), "manipulability/ratio"); V3 dir = r.dir(); checkNear(pm.getPoseQuality(Eigen::VectorXf(dir.cast<float>())), (J.topRows(3).transpose() * dir).norm() * pen, 1e-3 * (1 + w(0)), "manipulability/direction"); count("manipulability"); }
        }
    }
    sample(fmt("%zu nodes, %zu sets", b.d.n.size(), b.d.sets.size()));
}
// ---------------------------------------------------------------------------------------------- C07
static bool colliding(Bot& b, const std::vector<int>& js, const std::vector<ObstaclePtr>& obs) { for (int j : js) if (b.nd[j]->getCollisionModel()) for (auto& o : obs) if (b.rob->getCollisionChecker()->checkCollision(b.nd[j]->getCollisionModel(), o->getCollisionModel())) return true; return false; }
struct Snap { std::vector<double> q; M4 root; bool uv, uc; };
static Snap snap(Bot& b) { return {b.q(), b.rob->getGlobalPose().cast<double>(), b.rob->getUpdateVisualizationStatus(), b.rob->getUpdateCollisionModelStatus()}; }
static void judge(Bot& b, const Snap& s0, const std::vector<int>& js, const std::string& k)
{
    // what every solver has to leave alone, and limits
    auto q = b.q(); for (size_t i = 0; i < q.size(); i++) if (std::find(js.begin(), js.end(), (int)i) == js.end()) check(q[i] == s0.q[i], k + "/foreign-joint", "joint %zu outside of the set moved", i);
    check(b.limitsOk(), k + "/limits", "a joint left its limits"); checkPose(b.rob->getGlobalPose(), s0.root, 0, 0, k + "/robot-moved", "robot pose");
    check(b.rob->getUpdateVisualizationStatus() == s0.uv && b.rob->getUpdateCollisionModelStatus() == s0.uc, k + "/update-flags", "update flags changed");
    for (double v : q) check(std::isfinite(v), k + "/nan", "joint value not finite");
    // the poses reported by the robot belong to its joint values, and its models moved along
    auto g = b.d.fk(b.root, q); for (size_t i = 0; i < g.size(); i++) { if (!checkPose(b.nd[i]->getGlobalPose(), g[i], 2e-4, 0.1 + 1e-5 * g[i].block<3, 1>(0, 3).norm(), k + "/stale-pose", fmt("node %zu", i))) break; if (b.nd[i]->getCollisionModel()) if (!checkPose(b.nd[i]->getCollisionModel()->getGlobalPose(), g[i], 2e-4, 0.1 + 1e-5 * g[i].block<3, 1>(0, 3).norm(), k + "/stale-collision-model", fmt("node %zu", i))) break; if (!s0.uv) continue; if (auto v = b.nd[i]->getVisualization()) if (!checkPose(v->getGlobalPose(), g[i], 2e-4, 0.1 + 1e-5 * g[i].block<3, 1>(0, 3).norm(), k + "/stale-visualization", fmt("node %zu", i))) break; }
}
static void errs(const M4& goal, const M4& cur, int mode, double& ep, double& er) { V3 d = (goal - cur).block<3, 1>(0, 3); for (int k = 0; k < 3; k++) if (!(mode & (1 << k))) d(k) = 0; ep = d.norm(); er = mode & 8 ? rotAngle(goal.block<3, 3>(0, 0) * cur.block<3, 3>(0, 0).transpose()) : 0; }
static void solved(Bot& b, int tcp, const M4& goal, int mode, double tp, double tr, const std::string& k) { double ep, er; errs(goal, b.pose(tcp, M4::Identity(), b.q()), mode, ep, er); double slack = 0.05 + 2e-5 * goal.block<3, 1>(0, 3).norm(); check(ep <= tp + slack && er <= tr + 2e-3, k + "/solution", "mode %d: position error %g (tolerance %g), rotation error %g (tolerance %g)", mode, ep, tp, er, tr); count((k + "-solved").c_str()); }
static void c07(Rng& r)
{
    GenOpt o; o.prop = false; o.phys = true; o.models = r.p(0.6); o.minNodes = 3; o.maxNodes = 9; o.chain = r.p(0.6); Bot b; b.make(r, o);
    SetDef all; all.name = "All"; all.nodes = b.d.joints(); all.tcp = (int)b.d.n.size() - 1; b.d.sets.push_back(all); { std::vector<RobotNodePtr> n; for (int j : all.nodes) n.push_back(b.nd[j]); RobotNodeSet::createRobotNodeSet(b.rob, "All", n, RobotNodePtr(), b.nd.back(), true); }
    b.randomize(r);
    for (int rep = 0; rep < 4; rep++)
    {
        SetDef s = r.p(0.6) ? b.d.sets.back() : r.pick(b.d.sets); RobotNodeSetPtr rns = b.rob->getRobotNodeSet(s.name); auto& js = s.nodes; int tcp = s.tcp >= 0 ? s.tcp : s.nodes.back();
        if (r.p(0.5)) b.randomize(r);
        if (r.p(0.2)) b.rob->setUpdateVisualization(false); else { b.rob->setUpdateVisualization(true); b.rob->applyJointValues(); }
        auto q0 = b.q();
        // goal: reachable (another configuration of the set), near, or arbitrary
        auto qg = q0; int gk = r.i(0, 3); double spread = gk == 0 ? 1 : 0.1; for (int j : js) { auto& n = b.d.n[j]; double v = q0[j] + r.u(-1, 1) * spread * (n.type == REV ? 2 : 200); qg[j] = std::min(std::max(v, n.lo), n.hi); } M4 goal = gk == 3 ? r.pose(1500) : b.pose(tcp, M4::Identity(), qg); goal = toF(goal);
        int mode = r.pick({15, 7, 7, 8, 1, 3}); double tp = F(r.u(0.5, 10)), tr = F(r.u(0.01, 0.1)); auto meth = r.pick({JacobiProvider::eSVD, JacobiProvider::eSVDDamped, JacobiProvider::eSVD});
        Snap s0 = snap(b); int kind = r.i(0, 9); at(fmt("kind %d set %s mode %d goal %d", kind, s.name.c_str(), mode, gk));
        if (kind <= 1)
        {
            DifferentialIK ik(rns, RobotNodePtr(), meth); ik.setGoal(f4(goal), b.nd[tcp], (Sel)mode, tp, tr); std::vector<std::pair<int, M4>> extra; std::vector<int> em; if (r.p(0.3)) { int t2 = r.i(0, (int)b.d.n.size() - 1); if (t2 != tcp) { M4 g2 = toF(b.pose(t2, M4::Identity(), qg)); extra.push_back({t2, g2}); em.push_back(7); ik.setGoal(f4(g2), b.nd[t2], IKSolver::Position, tp, tr); } }
            ik.checkImprovements(r.p(0.5)); if (r.p(0.3)) ik.setMaxPositionStep(r.f(5, 100)); bool ok = ik.solveIK(r.f(0.1, 0.8), r.p(0.5) ? 0 : 1e-4f, r.i(5, 60)); judge(b, s0, js, "differential"); if (ok) { solved(b, tcp, goal, mode, tp, tr, "differential"); for (size_t e = 0; e < extra.size(); e++) solved(b, extra[e].first, extra[e].second, em[e], tp, tr, "differential-second"); } else count("differential-failed");
            if (gk == 1 && extra.empty() && meth == JacobiProvider::eSVD) count(ok ? "near-solved" : "near-failed");
        }
        else if (kind <= 4)
        {
            GenericIKSolver ik(rns, meth); ik.setMaximumError(tp, tr); ik.setupJacobian(r.f(0.2, 0.8), r.i(10, 40)); std::vector<ObstaclePtr> obs; bool col = false, has = false; for (int j : js) has |= !!b.nd[j]->getCollisionModel();
            if (has && r.p(0.7)) { col = true; SceneObjectSetPtr set(new SceneObjectSet("obs", b.rob->getCollisionChecker())); for (int k = 0; k < r.i(1, 3); k++) { ObstaclePtr ob = Obstacle::createBox(r.f(20, 200), r.f(20, 200), r.f(20, 200), VisualizationFactory::Color::Red(), "", b.rob->getCollisionChecker()); M4 p = b.pose(tcp, M4::Identity(), qg); p.block<3, 1>(0, 3) += r.dir() * r.u(0, 300); ob->setGlobalPose(f4(p)); obs.push_back(ob); set->addSceneObject(ob); } if (obs.size() == 1 && r.p(0.5)) ik.collisionDetection(obs[0]); else if (r.p(0.5)) ik.collisionDetection(set); else { CDManagerPtr cd(new CDManager(b.rob->getCollisionChecker())); cd->addCollisionModel(set); cd->addCollisionModel(rns); ik.collisionDetection(cd); } }
            std::string k = col ? "generic-collision" : "generic"; int loops = r.i(1, 6); int how = r.i(0, 3);
            if (how == 0) { auto v = ik.solveNoRNSUpdate(f4(goal), (Sel)mode); auto q1 = b.q(); for (int j : js) check(std::fabs(q1[j] - q0[j]) < 1e-5 * (1 + std::fabs(q0[j])), k + "/no-update", "solveNoRNSUpdate moved joint %d", j); judge(b, s0, js, k); if (!v.empty()) { if (check(v.size() == js.size(), k + "/no-update-size", "%zu values", v.size())) { rns->setJointValues(v); solved(b, tcp, goal, mode, tp, tr, k); check(!colliding(b, js, obs), k + "/in-collision", "the solution collides"); } } else count((k + "-failed").c_str()); }
            else if (how == 1) { bool ok = static_cast<AdvancedIKSolver&>(ik).solve(Eigen::Vector3f(goal.block<3, 1>(0, 3).cast<float>())); judge(b, s0, js, k); if (ok) { solved(b, tcp, goal, 7, tp, tr, k); check(!colliding(b, js, obs), k + "/in-collision", "the solution collides"); } else count((k + "-failed").c_str()); }
            else { bool ok = ik.solve(f4(goal), (Sel)mode, loops); judge(b, s0, js, k); if (ok) { solved(b, tcp, goal, mode, tp, tr, k); check(!colliding(b, js, obs), k + "/in-collision", "the solution collides"); if (col) count("collision-free"); } else count((k + "-failed").c_str()); }
        }
        else if (kind == 5)
        {   // grasps
            std::vector<EndEffectorActorPtr> ac; std::vector<RobotNodePtr> st; static int handNr = 0; std::string hand = fmt("hand%d", handNr++); EndEffectorPtr eef(new EndEffector(hand, ac, st, b.nd[0], b.nd[tcp])); b.rob->registerEndEffector(eef); GenericIKSolver ik(rns, meth); ik.setMaximumError(tp, tr);
            ManipulationObjectPtr ob(new ManipulationObject("obj", boxVis(V3(20, 20, 20)))); M4 op = toF(r.pose(500)); ob->setGlobalPose(f4(op)); GraspSetPtr gs(new GraspSet("gs", b.rob->getType(), hand)); std::vector<M4> gp; int n = r.i(0, 4);
            for (int k = 0; k < n; k++) { auto qq = q0; for (int j : js) { auto& nn = b.d.n[j]; qq[j] = std::min(std::max(q0[j] + r.u(-0.3, 0.3) * (nn.type == REV ? 1 : 100), nn.lo), nn.hi); } M4 t = r.p(0.3) ? r.pose(3000) : b.pose(tcp, M4::Identity(), qq); M4 in = toF(inv(t) * op); gp.push_back(in); gs->addGrasp(GraspPtr(new Grasp(fmt("g%d", k), b.rob->getType(), hand, f4(in)))); }
            bool reg = r.p(0.85); if (reg) ob->addGraspSet(gs);
            if (n && r.p(0.4)) { int k = r.i(0, n - 1); bool ok = ik.solve(ob, gs->getGrasp(k), (Sel)mode, r.i(1, 3)); judge(b, s0, js, "grasp"); if (ok) { solved(b, tcp, op * inv(gp[k]), mode, tp, tr, "grasp"); } else { auto q1 = b.q(); for (int j : js) check(std::fabs(q1[j] - q0[j]) < 1e-5 * (1 + std::fabs(q0[j])), "grasp/failed-moved", "failed solve moved joint %d", j); count("grasp-failed"); } }
            else { GraspPtr g = ik.solve(ob, (Sel)mode, r.i(1, 3)); judge(b, s0, js, "grasp-set"); if (g) { int k = -1; for (int i = 0; i < n; i++) if (gs->getGrasp(i) == g || gs->getGrasp(i)->getName() == g->getName()) k = i; if (check(k >= 0 && reg, "grasp-set/foreign-grasp", "grasp not of the object")) solved(b, tcp, op * inv(gp[k]), mode, tp, tr, "grasp-set"); } else count("grasp-set-failed"); check((int)gs->getSize() == n, "grasp-set/consumed", "solving removed grasps from the object"); }
        }
        else if (kind == 6)
        {   // centre of mass
            std::vector<int> bodies; double mass = 0; for (size_t i = 0; i < b.d.n.size(); i++) if (b.d.n[i].phys) { bodies.push_back(i); mass += b.d.n[i].mass; } if (mass <= 0) continue; std::vector<RobotNodePtr> bn; for (int i : bodies) bn.push_back(b.nd[i]); RobotNodeSetPtr bs = RobotNodeSet::createRobotNodeSet(b.rob, "bodies", bn); int dim = r.i(2, 3); V3 g = b.com(bodies, qg); CoMIK ik(rns, bs, RobotNodePtr(), dim); ik.setGoal(g.head(dim).cast<float>(), tp); ik.checkImprovements(r.p(0.5)); bool ok = ik.solveIK(r.f(0.1, 0.8), 0, r.i(5, 40)); judge(b, s0, js, "com");
            if (ok) { double e = (b.com(bodies, b.q()) - g).head(dim).norm(); check(e <= tp + 0.05 + 2e-5 * g.norm(), "com/solution", "error %g tolerance %g", e, tp); count("com-solved"); } else count("com-failed"); b.rob->deregisterRobotNodeSet(bs);
        }
        else if (kind == 7)
        {   // prioritised goals
            HierarchicalIKSolver ik(rns); DifferentialIKPtr a(new DifferentialIK(rns, RobotNodePtr(), meth)), c(new DifferentialIK(rns, RobotNodePtr(), meth)); int t2 = r.i(0, (int)b.d.n.size() - 1); M4 g2 = toF(b.pose(t2, M4::Identity(), qg)); a->setGoal(f4(goal), b.nd[tcp], (Sel)mode, tp, tr); c->setGoal(f4(g2), b.nd[t2], IKSolver::Position, tp, tr); ik.addIK(a); ik.addIK(c); bool ok = ik.solveIK(r.f(0.1, 0.8), 0, r.i(5, 40)); judge(b, s0, js, "hierarchical"); if (ok) { solved(b, tcp, goal, mode, tp, tr, "hierarchical"); solved(b, t2, g2, 7, tp, tr, "hierarchical-second"); } else count("hierarchical-failed");
        }
        else if (kind == 8)
        {   // constrained solvers
            bool st = r.p(0.5); boost::shared_ptr<ConstrainedIK> ik; if (st) ik.reset(new ConstrainedStackedIK(b.rob, rns, r.f(0.1, 0.6), r.i(5, 40), JacobiProvider::eSVD)); else ik.reset(new ConstrainedHierarchicalIK(b.rob, rns, r.f(0.1, 0.6), r.i(5, 40))); if (tcp == 0) continue; ConstraintPtr pc(new PoseConstraint(b.rob, rns, b.nd[tcp], f4(goal), (Sel)mode, tp, tr)); bool hard = r.p(0.8); ik->addConstraint(pc, 0, hard); int t2 = r.i(1, (int)b.d.n.size() - 1); M4 g2 = toF(b.pose(t2, M4::Identity(), qg)); bool two = r.p(0.3); if (two) ik->addConstraint(ConstraintPtr(new PoseConstraint(b.rob, rns, b.nd[t2], f4(g2), IKSolver::Position, tp, tr)), 1, true);
            if (!check(ik->initialize(), "constrained/initialize", "not initialized")) continue; bool ok = ik->solve(); judge(b, s0, js, "constrained"); if (ok) { if (hard) solved(b, tcp, goal, mode, tp, tr, "constrained"); if (two) solved(b, t2, g2, 7, tp, tr, "constrained-second"); } else count("constrained-failed");
        }
        else
        {   // optimisation
            if (js.empty()) continue; ConstrainedOptimizationIK ik(b.rob, rns, 0.05f, 0.1f); ik.setMaxIterations(r.i(1, 3)); std::vector<ConstraintPtr> keep; bool hasPose = r.p(0.7), hasPos = r.p(0.4), hasOri = r.p(0.3), hasCom = false; double t3 = F(r.u(0.5, 5)), t4 = F(r.u(0.01, 0.1)); Sel sl = r.pick({IKSolver::Position, IKSolver::All, IKSolver::X, IKSolver::Z, IKSolver::Orientation}), s2 = r.pick({IKSolver::Position, IKSolver::X, IKSolver::Y, IKSolver::Z});
            int t2 = r.i(0, (int)b.d.n.size() - 1); M4 g2 = toF(b.pose(t2, M4::Identity(), qg));
            if (hasPose) ik.addConstraint(ConstraintPtr(new PoseConstraint(b.rob, rns, b.nd[tcp], f4(goal), sl, tp, tr))); if (hasPos) ik.addConstraint(ConstraintPtr(new PositionConstraint(b.rob, rns, b.nd[t2], g2.block<3, 1>(0, 3).cast<float>(), s2, t3))); if (hasOri) ik.addConstraint(ConstraintPtr(new OrientationConstraint(b.rob, rns, b.nd[t2], g2.block<3, 3>(0, 0).cast<float>(), IKSolver::Orientation, t4)));
            if (r.p(0.4)) ik.addConstraint(ConstraintPtr(new JointLimitAvoidanceConstraint(b.rob, rns)));
            std::vector<int> bodies; double mass = 0; for (size_t i = 0; i < b.d.n.size(); i++) if (b.d.n[i].phys) { bodies.push_back(i); mass += b.d.n[i].mass; } V3 cg = b.com(bodies, qg); RobotNodeSetPtr bs; if (mass > 0 && r.p(0.3)) { hasCom = true; std::vector<RobotNodePtr> bn; for (int i : bodies) bn.push_back(b.nd[i]); bs = RobotNodeSet::createRobotNodeSet(b.rob, "bodies", bn); ik.addConstraint(ConstraintPtr(new CoMConstraint(b.rob, rns, bs, Eigen::Vector3f(cg.cast<float>()), t3))); }
            std::vector<ObstaclePtr> obs; bool has = false; for (int j : js) has |= !!b.nd[j]->getCollisionModel(); if (has && r.p(0.4)) { CDManagerPtr cd(new CDManager(b.rob->getCollisionChecker())); ObstaclePtr ob = Obstacle::createBox(r.f(20, 200), r.f(20, 200), r.f(20, 200), VisualizationFactory::Color::Red(), "", b.rob->getCollisionChecker()); M4 p = b.pose(tcp, M4::Identity(), qg); p.block<3, 1>(0, 3) += r.dir() * r.u(0, 300); ob->setGlobalPose(f4(p)); obs.push_back(ob); cd->addCollisionModel(ob); cd->addCollisionModel(rns); ik.addConstraint(ConstraintPtr(new CollisionCheckConstraint(rns, cd))); }
            if (!ik.initialize()) continue; bool ok = ik.solve(); judge(b, s0, js, "optimization");
            if (ok) { if (hasPose) solved(b, tcp, goal, sl, tp, tr, "optimization"); if (hasPos) solved(b, t2, g2, s2, t3, 10, "optimization-position"); if (hasOri) solved(b, t2, g2, 8, 1e9, t4, "optimization-orientation"); if (hasCom) { double e = (b.com(bodies, b.q()) - cg).norm(); check(e <= t3 + 0.05 + 2e-5 * cg.norm(), "optimization-com/solution", "error %g tolerance %g", e, t3); } check(!colliding(b, js, obs), "optimization/in-collision", "the solution collides"); if (!obs.empty()) count("optimization-collision-free"); } else count("optimization-failed");
            if (bs) b.rob->deregisterRobotNodeSet(bs);
        }
        { auto q = b.q(); uint64_t h = 9; for (double v : q) h = hmix(h, (uint64_t)(int64_t)(v * 1e5)); sig(h); }
    }
    // gaze
    if (r.p(0.3))
    {
        RobotDef d; int n = r.i(2, 4); for (int i = 0; i <= n; i++) { NodeDef x; x.name = fmt("G%d", i); x.parent = i - 1; x.type = i == n ? PRI : REV; M4 l = toF(r.pose(80)); if (r.p(0.5)) l.block<3, 3>(0, 0).setIdentity(); x.local = l; x.xmlTransform = xmlMat(l); x.axis = i == n ? V3(0, 0, 1) : V3(V3::Unit(r.i(0, 2))); x.lo = i == n ? 0 : F(r.u(-3, -0.3)); x.hi = i == n ? 4000 : F(r.u(0.3, 3)); x.init = i == n ? 500 : 0; d.n.push_back(x); }
        SetDef s; s.name = "Gaze"; for (int i = 0; i <= n; i++) s.nodes.push_back(i); s.tcp = n; d.sets.push_back(s); Bot g; g.d = d; g.build_(r); RobotNodeSetPtr rns = g.rob->getRobotNodeSet("Gaze");
        for (int rep = 0; rep < 2; rep++) { GazeIK ik(rns, boost::dynamic_pointer_cast<RobotNodePrismatic>(g.nd[n])); double te = F(r.u(1, 20)); ik.setup(te, r.i(1, 4), r.i(5, 30)); ik.enableJointLimitAvoidance(r.p(0.6)); V3 goal = g.root.block<3, 1>(0, 3) + r.dir() * r.u(100, 2500); Snap s0 = snap(g); bool ok = ik.solve(goal.cast<float>(), r.f(0.2, 0.8)); judge(g, s0, s.nodes, "gaze"); double e = (g.pose(n, M4::Identity(), g.q()).block<3, 1>(0, 3) - goal).norm(); if (ok) { check(e <= te + 0.05 + 2e-5 * goal.norm(), "gaze/solution", "error %g tolerance %g", e, te); count("gaze-solved"); } else count("gaze-failed"); }
    }
    sample(fmt("%zu nodes, %zu sets, models %d", b.d.n.size(), b.d.sets.size(), (int)o.models));
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C06", c06, 12000, 300000}, {"C07", c07, 12000, 200000}}); }
