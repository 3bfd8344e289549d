// C18 rotation representations, C19 geometric primitives
#include "rob.h"
#include <Eigen/SVD>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/Transformation/DHParameter.h>
#include <VirtualRobot/math/Helpers.h>
#include <VirtualRobot/math/Line.h>
#include <VirtualRobot/math/Plane.h>
#include <VirtualRobot/math/Triangle.h>
#include <VirtualRobot/math/Primitive.h>
#include <VirtualRobot/math/Bezier.h>
#include <VirtualRobot/math/LinearContinuedBezier.h>
#include <VirtualRobot/math/LineStrip.h>
#include <VirtualRobot/math/FitPlane.h>
#include <VirtualRobot/math/ImplicitPlane.h>
#include <VirtualRobot/math/LinearInterpolatedOrientation.h>
static std::vector<Eigen::Vector3f> vl(std::initializer_list<Eigen::Vector3f> l) { std::vector<Eigen::Vector3f> o; for (auto& x : l) o.push_back(x); return o; }
using namespace vh;
namespace MT = VirtualRobot::MathTools;
using math::Helpers;
typedef Eigen::Vector3f V3f;
typedef Eigen::Quaterniond Qd;
static Qd q2d(const MT::Quaternion& q) { return Qd(q.w, q.x, q.y, q.z); }
static MT::Quaternion d2q(const Qd& q) { MT::Quaternion r; r.w = q.w(); r.x = q.x(); r.y = q.y(); r.z = q.z(); return r; }
static Qd fq(const Qd& q) { return Qd(F(q.w()), F(q.x()), F(q.y()), F(q.z())); }
static double ang(const M3& a, const M3& b) { return rotAngle((a.transpose() * b).eval()); }
// rotation with deliberate coverage of identity, half turns, gimbal lock and their neighbourhoods
static M3 hardRot(Rng& r, int& kind)
{
    kind = r.i(0, 8); double e = std::pow(10.0, r.u(-9, -1)) * (r.p(0.5) ? 1 : -1);
    switch (kind)
    {
        case 0: return Eigen::AngleAxisd(e, r.dir()).toRotationMatrix();
        case 1: return Eigen::AngleAxisd(M_PI + e, r.dir()).toRotationMatrix();
        case 2: return Eigen::AngleAxisd(M_PI / 2 * r.i(-4, 4), V3(V3::Unit(r.i(0, 2)))).toRotationMatrix();
        case 3: case 4: return (Eigen::AngleAxisd(r.u(-M_PI, M_PI), V3::UnitZ()) * Eigen::AngleAxisd((kind == 3 ? 1 : -1) * M_PI / 2 + e, V3::UnitY()) * Eigen::AngleAxisd(r.u(-M_PI, M_PI), V3::UnitX())).toRotationMatrix();
        case 5: return Eigen::AngleAxisd(M_PI, V3(V3::Unit(r.i(0, 2)))).toRotationMatrix();
        case 6: return Eigen::AngleAxisd(M_PI, V3(V3::Unit(r.i(0, 2)) + e * r.dir()).normalized()).toRotationMatrix();
        default: return Eigen::AngleAxisd(r.u(-M_PI, M_PI), r.dir()).toRotationMatrix();
    }
}
static M3 rpyRef(double a, double b, double c) { return (R(V3::UnitZ(), c) * R(V3::UnitY(), b) * R(V3::UnitX(), a)).block<3, 3>(0, 0); }
static M3 r3(const Eigen::Matrix4f& m) { return m.block<3, 3>(0, 0).cast<double>(); }
static void affine(const Eigen::Matrix4f& m, const V3& p, const char* key)
{
    check(m(3, 0) == 0 && m(3, 1) == 0 && m(3, 2) == 0 && m(3, 3) == 1, key, "last row");
    checkMat(m.block<3, 1>(0, 3), p, 0, key, "position");
}
static void c18(Rng& r)
{
    const double T = 2e-5;
    for (int rep = 0; rep < 40; rep++)
    {
        int kind; M3 A = hardRot(r, kind); V3 p(F(r.u(-3000, 3000)), F(r.u(-3000, 3000)), F(r.u(-3000, 3000)));
        M4 m = M4::Identity(); m.block<3, 3>(0, 0) = A; m.block<3, 1>(0, 3) = p; Eigen::Matrix4f mf = f4(m); Eigen::Matrix3f m3 = A.cast<float>();
        at(fmt("rotation kind %d [%s]", kind, ms(A).c_str())); sig(hm(kind, A));
        // RPY
        float x6[6]; MT::eigen4f2rpy(mf, x6); V3f rpy; MT::eigen4f2rpy(mf, rpy); V3f rpy2 = MT::eigen4f2rpy(mf), rpy3 = MT::eigen3f2rpy(m3); Eigen::Matrix<float, 6, 1> pr = MT::eigen4f2posrpy(mf);
        checkMat(rpyRef(x6[3], x6[4], x6[5]), A, T, "rpy/from-matrix", "rpy of matrix");
        check(rpy == rpy2 && rpy == rpy3 && rpy(0) == x6[3] && rpy(1) == x6[4] && rpy(2) == x6[5] && pr.tail<3>() == rpy && pr.head<3>() == V3f(p.cast<float>()) && x6[0] == (float)p(0) && x6[1] == (float)p(1) && x6[2] == (float)p(2), "rpy/overloads", "overloads differ");
        check(std::fabs(x6[4]) <= M_PI / 2 + 1e-6, "rpy/pitch-range", "pitch %g", x6[4]);
        double a = F(r.p(0.2) ? M_PI / 2 * r.i(-4, 4) : r.u(-7, 7)), b = F(r.p(0.3) ? M_PI / 2 * r.i(-4, 4) : r.u(-7, 7)), c = F(r.p(0.2) ? M_PI / 2 * r.i(-4, 4) : r.u(-7, 7)); M3 W = rpyRef(a, b, c);
        Eigen::Matrix4f o; o.setConstant(7); MT::rpy2eigen4f(a, b, c, o); checkMat(r3(o), W, T, "rpy/to-matrix"); affine(o, V3(0, 0, 0), "rpy/to-matrix-position");
        o = MT::rpy2eigen4f(a, b, c); checkMat(r3(o), W, T, "rpy/to-matrix"); affine(o, V3(0, 0, 0), "rpy/to-matrix-position");
        checkMat(MT::rpy2eigen3f(a, b, c), W, T, "rpy/to-matrix3");
        float y6[6] = {(float)p(0), (float)p(1), (float)p(2), (float)a, (float)b, (float)c}; V3f pf = p.cast<float>(), af(a, b, c);
        o.setConstant(7); MT::posrpy2eigen4f(y6, o); checkMat(r3(o), W, T, "posrpy/array"); affine(o, p, "posrpy/array-pos");
        o.setConstant(7); MT::posrpy2eigen4f(pf, af, o); checkMat(r3(o), W, T, "posrpy/vec"); affine(o, p, "posrpy/vec-pos");
        o.setConstant(7); MT::posrpy2eigen4f(p(0), p(1), p(2), a, b, c, o); checkMat(r3(o), W, T, "posrpy/scalars"); affine(o, p, "posrpy/scalars-pos");
        o = MT::posrpy2eigen4f(pf, af); checkMat(r3(o), W, T, "posrpy/vec"); affine(o, p, "posrpy/vec-pos");
        o = MT::posrpy2eigen4f(p(0), p(1), p(2), a, b, c); checkMat(r3(o), W, T, "posrpy/scalars"); affine(o, p, "posrpy/scalars-pos");
        o = MT::posrpy2eigen4f(p(0), p(1), p(2), x6[3], x6[4], x6[5]); checkMat(r3(o), A, 3e-5, "rpy/roundtrip"); affine(o, p, "rpy/roundtrip");
        checkMat(MT::getTranslation(mf), p, 0, "pose/translation"); V3f tt; MT::getTranslation(mf, tt); checkMat(tt, p, 0, "pose/translation");
        // quaternions
        Qd q(A); q.normalize(); if (r.p(0.5)) q.coeffs() *= -1; q = fq(q);
        MT::Quaternion lq = MT::eigen4f2quat(mf), lq2; MT::eigen4f2quat(mf, lq2);
        check(lq.x == lq2.x && lq.y == lq2.y && lq.z == lq2.z && lq.w == lq2.w, "quat/overloads", "differ");
        checkNear(q2d(lq).norm(), 1, 1e-5, "quat/unit"); checkMat(q2d(lq).normalized().toRotationMatrix(), A, T, "quat/from-matrix");
        o = MT::quat2eigen4f(q.x(), q.y(), q.z(), q.w()); checkMat(r3(o), A, T, "quat/to-matrix"); affine(o, V3(0, 0, 0), "quat/to-matrix-pos");
        o.setConstant(7); MT::quat2eigen4f(q.x(), q.y(), q.z(), q.w(), o); checkMat(r3(o), A, T, "quat/to-matrix"); affine(o, V3(0, 0, 0), "quat/to-matrix-pos");
        o = MT::quat2eigen4f(d2q(q)); checkMat(r3(o), A, T, "quat/to-matrix"); o.setConstant(7); MT::quat2eigen4f(d2q(q), o); checkMat(r3(o), A, T, "quat/to-matrix"); affine(o, V3(0, 0, 0), "quat/to-matrix-pos");
        checkMat(MT::quat2eigen3f(q.x(), q.y(), q.z(), q.w()), A, T, "quat/to-matrix3");
        o = MT::posquat2eigen4f(p(0), p(1), p(2), q.x(), q.y(), q.z(), q.w()); checkMat(r3(o), A, T, "quat/pos"); affine(o, p, "quat/pos-pos");
        int k2; M3 B = hardRot(r, k2); Qd qb(B); qb.normalize(); if (r.p(0.5)) qb.coeffs() *= -1; qb = fq(qb);
        double th = ang(A, B); MT::Quaternion Q = d2q(q), QB = d2q(qb);
        checkMat(q2d(MT::multiplyQuaternions(Q, QB)).normalized().toRotationMatrix(), (A * B).eval(), T, "quat/product");
        checkMat(q2d(MT::getInverse(Q)).normalized().toRotationMatrix(), A.transpose().eval(), T, "quat/inverse");
        checkMat(q2d(MT::getConjugated(Q)).normalized().toRotationMatrix(), A.transpose().eval(), T, "quat/conjugate");
        checkMat(q2d(MT::getDelta(Q, QB)).normalized().toRotationMatrix(), (B * A.transpose()).eval(), T, "quat/delta");
        { double s = std::exp(r.u(-2, 2)); MT::Quaternion Z = d2q(fq(Qd(q.w() * s, q.x() * s, q.y() * s, q.z() * s))); Qd id = q2d(MT::multiplyQuaternions(Z, MT::getInverse(Z))); check((id.coeffs() - Qd::Identity().coeffs()).norm() < 1e-5, "quat/inverse-nonunit", "q*q^-1 = %g %g %g %g", id.w(), id.x(), id.y(), id.z()); }
        checkNear(MT::getDot(Q, QB), q.dot(qb), 1e-5, "quat/dot");
        // accuracy of an angle near zero / pi is the square root of float epsilon at worst
        double at_ = 1.5e-3;
        checkNear(MT::getAngle(Q), rotAngle(A), at_, "quat/angle");
        check(MT::getAngle(Q) >= 0 && MT::getAngle(Q) <= (float)M_PI + 1e-6, "quat/angle-range", "%g", MT::getAngle(Q));
        // slerp
        {
            float al = r.pick({0.f, 1.f, 0.5f, (float)r.u()}); Qd s = q2d(MT::slerp(Q, QB, al)); checkNear(s.norm(), 1, 1e-4, "slerp/unit"); M3 S_ = s.normalized().toRotationMatrix();
            if (al == 0) checkMat(S_, A, 1e-4, "slerp/start"); if (al == 1) checkMat(S_, B, 1e-4, "slerp/end");
            if (th < M_PI - 0.01) { checkNear(ang(A, S_), al * th, 2e-3, "slerp/proportional", "from start"); checkNear(ang(S_, B), (1 - al) * th, 2e-3, "slerp/proportional", "to end"); }
            else checkNear(ang(A, S_) + ang(S_, B), th, 0.03, "slerp/on-geodesic");
            for (float bad : {-0.1f, 1.1f}) { bool t = false; try { MT::slerp(Q, QB, bad); } catch (VirtualRobot::VirtualRobotException&) { t = true; } check(t, "slerp/alpha-range", "alpha %g accepted", bad); }
        }
        // mean: of equal rotations (any sign) is that rotation; of two rotations it is half way
        {
            std::vector<MT::Quaternion> v; int n = r.i(1, 5); for (int k = 0; k < n; k++) { Qd z = q; if (r.p(0.5)) z.coeffs() *= -1; v.push_back(d2q(z)); }
            checkMat(q2d(MT::getMean(v)).normalized().toRotationMatrix(), A, 1e-4, "mean/equal");
            if (th < 3) { M3 mm = q2d(MT::getMean({Q, QB})).normalized().toRotationMatrix(); checkNear(ang(A, mm), th / 2, 2e-3, "mean/half-way"); checkNear(ang(mm, B), th / 2, 2e-3, "mean/half-way"); }
        }
        // axis angle
        V3f ax; float an; MT::eigen4f2axisangle(mf, ax, an);
        checkNear(ax.norm(), 1, 1e-4, "axisangle/unit"); check(an >= 0 && an <= (float)M_PI + 1e-6f, "axisangle/range", "angle %g", an);
        checkMat(Eigen::AngleAxisd(an, ax.cast<double>().normalized()).toRotationMatrix(), A, 1e-4, "axisangle/from-matrix");
        V3 d = r.p(0.3) ? V3(V3::Unit(r.i(0, 2))) : r.dir(); double w = F(r.u(-7, 7)); M3 AA = Eigen::AngleAxisd(w, d).toRotationMatrix(); V3f df = d.cast<float>();
        checkMat(MT::axisangle2eigen3f(df, w), AA, T, "axisangle/to-matrix3"); o = MT::axisangle2eigen4f(df, w); checkMat(r3(o), AA, T, "axisangle/to-matrix"); affine(o, V3(0, 0, 0), "axisangle/to-matrix-pos");
        o.setIdentity(); MT::axisangle2eigen4f(df, w, o); checkMat(r3(o), AA, T, "axisangle/to-matrix-store"); affine(o, V3(0, 0, 0), "axisangle/to-matrix-store-pos");
        checkMat(q2d(MT::axisangle2quat(df, w)).normalized().toRotationMatrix(), AA, T, "axisangle/to-quat");
        // pose distances
        {
            V3 p2(F(r.u(-3000, 3000)), F(r.u(-3000, 3000)), F(r.u(-3000, 3000))); M4 n = M4::Identity(); n.block<3, 3>(0, 0) = B; n.block<3, 1>(0, 3) = p2; Eigen::Matrix4f nf = f4(n); float dp, dr, dp2, dr2;
            MT::getDelta(mf, nf, dp, dr); checkNear(dp, (p - p2).norm(), 0.01, "delta/position"); checkNear(dr, th, at_, "delta/rotation");
            MT::getPoseDiff(mf, nf, dp, dr); MT::getPoseDiff(nf, mf, dp2, dr2); checkNear(dp, (p - p2).norm(), 0.01, "posediff/position"); checkNear(dr, th, at_, "posediff/rotation"); checkNear(dp, dp2, 0.01, "posediff/symmetric"); checkNear(dr, dr2, at_, "posediff/symmetric");
            check(dr >= 0 && dr <= (float)M_PI + 1e-6f, "posediff/range", "%g", dr);
            MT::getPoseDiff(mf, mf, dp, dr); check(dp < 0.01 && dr < at_, "posediff/zero", "%g %g", dp, dr);
            float c1 = MT::getCartesianPoseDiff(mf, nf), c2 = MT::getCartesianPoseDiff(nf, mf); checkNear(c1, c2, 0.02, "cartdiff/symmetric"); check(c1 >= (p - p2).norm() - 0.01, "cartdiff/lower", "%g", c1); check(MT::getCartesianPoseDiff(mf, mf) < 0.05, "cartdiff/zero", "not zero");
            float k = F(r.u(0, 500)); checkNear(Helpers::Distance(mf, nf, k), (p - p2).norm() + th * k, 0.02 + at_ * k, "helpers/distance");
        }
        // Hopf coordinates
        { MT::Quaternion h = MT::hopf2quat(MT::quat2hopf(Q)); check(std::min((q2d(h).coeffs() - q.coeffs()).norm(), (q2d(h).coeffs() + q.coeffs()).norm()) < 2e-3, "hopf/roundtrip", "q %g %g %g %g got %g %g %g %g", q.x(), q.y(), q.z(), q.w(), h.x, h.y, h.z, h.w);
          V3f hc = MT::quat2hopf(Q); check(hc.minCoeff() >= 0 && hc(0) <= 2 * (float)M_PI + 1e-4 && hc(1) <= 2 * (float)M_PI + 1e-4, "hopf/range", "%g %g %g", hc(0), hc(1), hc(2)); }
        // vector-to-vector rotations (exactly opposite or not close to opposite)
        {
            V3 u = r.dir(), v = r.p(0.2) ? u : r.p(0.2) ? V3(-u) : r.dir(); if (r.p(0.2)) { u = V3::Unit(r.i(0, 2)); v = -u; } double l1 = r.u(0.01, 100), l2 = r.u(0.01, 100); V3f uf = (u * l1).cast<float>(), vf = (v * l2).cast<float>(); if (v == -u) vf = -uf;
            if (u.dot(v) > -0.99 || v == -u) { M3 g = q2d(MT::getRotation(uf, vf)).normalized().toRotationMatrix(); checkMat((g * u).eval(), v, 1.2e-3, "rotation/between"); double ex = std::acos(std::max(-1.0, std::min(1.0, u.dot(v)))); checkNear(rotAngle(g), ex, 3e-3, "rotation/minimal"); }
            if (u.dot(v) > -0.999) { checkMat((Helpers::GetRotationMatrix(uf, vf).cast<double>() * u).eval(), v, 3e-4, "helpers/rotation-between"); M3 g = Helpers::RotateOrientationToFitVector(m3, (A.transpose() * u).cast<float>(), vf).cast<double>(); checkMat((g * A.transpose() * u).eval(), v, 5e-4, "helpers/fit-vector"); }
            checkNear(MT::getAngle(uf, vf), std::atan2(u.cross(v).norm(), u.dot(v)), 1.5e-3, "angle/vectors"); checkNear(Helpers::SmallestAngle(uf, vf), std::atan2(u.cross(v).norm(), u.dot(v)), 1e-4, "helpers/smallest-angle");
        }
        // helper rotations
        {
            Eigen::AngleAxisf g = Helpers::GetAngleAxisFromTo(m3, B.cast<float>()); checkMat((g.toRotationMatrix().cast<double>() * A).eval(), B, 1e-4, "helpers/from-to");
            V3f rv = Helpers::GetRotationVector(m3, B.cast<float>()); checkMat((Helpers::RotationVectorToOrientation(rv).cast<double>() * A).eval(), B, 2e-4, "helpers/rotation-vector"); checkNear(rv.norm(), th, at_, "helpers/rotation-vector-length");
            check(Helpers::RotationVectorToOrientation(V3f::Zero()).isIdentity(0), "helpers/zero-rotation-vector", "not identity");
            M3 noisy = A; for (int k = 0; k < 9; k++) noisy(k) += r.u(-0.02, 0.02); M3 og = Helpers::Orthogonalize(Eigen::Matrix3f(noisy.cast<float>())).cast<double>(); check(mdiff((og * og.transpose()).eval(), M3::Identity().eval()) < 1e-5 && og.determinant() > 0 && mdiff(og, A) < 0.08, "helpers/orthogonalize", "bad");
            og = Helpers::OrthogonalizeQR(noisy.cast<float>()).cast<double>(); check(mdiff((og * og.transpose()).eval(), M3::Identity().eval()) < 1e-5 && og.determinant() > 0 && mdiff(og, A) < 0.12, "helpers/orthogonalize-qr", "bad");
            check(mdiff(Helpers::Orthogonalize(mf), m) < 1e-3 && Helpers::IsMatrixOrthogonal(m3, 1e-5f), "helpers/orthogonalize-pose", "changed a rigid pose");
            Eigen::Matrix4f iv = Helpers::InvertedPose(mf); checkPose(iv, inv(m), 1e-5, 5e-3, "helpers/inverted"); iv = mf; Helpers::InvertPose(iv); checkPose(iv, inv(m), 1e-5, 5e-3, "helpers/inverted");
            checkPose(Helpers::Pose(pf, m3), m, 1e-6, 1e-3, "helpers/pose"); checkPose(Helpers::Pose(pf), vh::T(p(0), p(1), p(2)), 0, 0, "helpers/pose"); checkPose(Helpers::CreatePose(pf, Eigen::Quaternionf(m3)), m, T, 1e-3, "helpers/pose"); checkMat(Helpers::GetPosition(mf), p, 0, "helpers/position"); checkMat(Helpers::GetOrientation(mf), m3, 0, "helpers/orientation");
            M4 off = m; off.block<3, 1>(0, 3) += d; checkPose(Helpers::TranslatePose(mf, df), off, 1e-6, 2e-3, "helpers/translate");
            V3 z = r.dir() * 100; checkMat(Helpers::TransformPosition(mf, z.cast<float>()), (A * z + p).eval(), 5e-3, "helpers/transform-position"); checkMat(Helpers::TransformDirection(mf, z.cast<float>()), (A * z).eval(), 1e-3, "helpers/transform-direction"); checkMat(Helpers::TransformOrientation(mf, B.cast<float>()), (A * B).eval(), T, "helpers/transform-orientation");
        }
        // interpolated orientations
        if (th < M_PI - 0.02)
        {
            double t0 = F(r.u(-20, 20)), t1 = F(t0 + std::exp(r.u(-4, 5))); math::LinearInterpolatedOrientation li(Eigen::Quaternionf(q.cast<float>()), Eigen::Quaternionf(qb.cast<float>()), t0, t1, true);
            double f = r.pick({0.0, 1.0, r.u()}); double tm = t0 + f * (t1 - t0); M3 g = li.Get(tm).cast<double>().normalized().toRotationMatrix();
            double ta = 2e-3 + 1e-5 * (std::fabs(t0) + std::fabs(t1)) / (t1 - t0) * th;
            checkNear(ang(A, g), f * th, ta, "interpolated-orientation/proportional", fmt("f %g T %g", f, t1 - t0)); checkNear(ang(g, B), (1 - f) * th, ta, "interpolated-orientation/proportional", fmt("f %g T %g", f, t1 - t0));
            checkMat(li.Get(t1 + 5).cast<double>().normalized().toRotationMatrix(), B, 3e-3, "interpolated-orientation/clamped"); checkMat(li.Get(t0 - 5).cast<double>().normalized().toRotationMatrix(), A, 3e-3, "interpolated-orientation/clamped");
            M3 h = Helpers::Lerp(Eigen::Quaternionf(q.cast<float>()), Eigen::Quaternionf(qb.cast<float>()), f).cast<double>().normalized().toRotationMatrix(); checkNear(ang(A, h), f * th, 2e-3, "helpers/quat-lerp"); checkNear(ang(h, B), (1 - f) * th, 2e-3, "helpers/quat-lerp");
            h = Helpers::LerpClamp(Eigen::Quaternionf(q.cast<float>()), Eigen::Quaternionf(qb.cast<float>()), 1 + r.u()).cast<double>().normalized().toRotationMatrix(); checkMat(h, B, 3e-3, "helpers/quat-lerp-clamp");
        }
        // angles
        {
            double v = F(r.p(0.2) ? M_PI * r.i(-9, 9) : r.u(-60, 60)), cc = F(r.u(-10, 10)); auto same = [&](double g, double t) { return std::fabs(std::remainder(g - t, 2 * M_PI)) < 3e-5; };
            float g = MT::angleMod2PI(v); check(same(g, v) && g >= 0 && g <= 2 * (float)M_PI + 1e-5, "angle/mod2pi", "%g -> %g", v, g); g = MT::angleModPI(v); check(same(g, v) && g >= -(float)M_PI - 1e-5 && g <= (float)M_PI + 1e-5, "angle/modpi", "%g -> %g", v, g);
            g = MT::angleModX(v, cc); check(same(g, v) && g >= cc - M_PI - 2e-5 && g <= cc + M_PI + 2e-5, "angle/modx", "%g around %g -> %g", v, cc, g); g = Helpers::AngleModPI(v); check(same(g, v) && g >= -M_PI - 2e-5 && g <= M_PI + 2e-5, "helpers/modpi", "%g -> %g", v, g);
            g = MT::AngleDelta(cc, v); check(same(cc + g, v) && std::fabs(g) <= M_PI + 2e-5, "angle/delta", "%g", g);
            float f = r.u(); g = MT::AngleLerp(cc, v, f); double sh = std::remainder(v - cc, 2 * M_PI); if (std::fabs(sh) < 3.14) check(same(g, cc + f * sh), "angle/lerp", "%g..%g at %g -> %g", cc, v, f, g); else count("skipped-halfturn");
            double lo = F(r.u(-10, 10)), hi = F(lo + r.u(0.1, 10)); g = MT::fmod(v, lo, hi); check(g >= lo - 1e-4 && g <= hi + 1e-4 && std::fabs(std::remainder(g - v, hi - lo)) < 2e-4, "angle/fmod", "%g in [%g,%g] -> %g", v, lo, hi, g);
            checkNear(MT::rad2deg(v), v * 180 / M_PI, 1e-2, "angle/deg"); checkNear(MT::deg2rad(v), v * M_PI / 180, 1e-5, "angle/rad"); checkNear(Helpers::rad2deg((float)v), v * 180 / M_PI, 1e-2, "angle/deg"); checkNear(Helpers::deg2rad((float)v), v * M_PI / 180, 1e-5, "angle/rad");
        }
        // DH
        {
            bool rad = r.p(0.5); double k = rad ? 1 : M_PI / 180, l = rad ? M_PI : 180; double th_ = F(r.u(-l, l)), al = F(r.u(-l, l)), dd = F(r.u(-1000, 1000)), aa = F(r.u(-1000, 1000));
            VirtualRobot::DHParameter dh(th_, dd, aa, al, rad); M4 w = R(V3::UnitZ(), th_ * k) * vh::T(0, 0, dd) * vh::T(aa, 0, 0) * R(V3::UnitX(), al * k); checkPose(dh.transformation(), w, T, 5e-3, "dh/transformation");
            checkNear(dh.thetaRadian(), th_ * k, 1e-5, "dh/theta"); checkNear(dh.alphaRadian(), al * k, 1e-5, "dh/alpha"); check(dh.dMM() == (float)dd && dh.aMM() == (float)aa, "dh/ad", "a d");
            VirtualRobot::DHParameter e2; e2.setAInMM(aa); e2.setAlphaRadian(al, rad); e2.setDInMM(dd); e2.setThetaRadian(th_, rad); checkPose(e2.transformation(), w, T, 5e-3, "dh/setters");
        }
    }
    sample(S().desc);
}
static double segDist2(const V3& a, const V3& b, const V3& p, V3* o = nullptr) { V3 d = b - a; double l = d.squaredNorm(); double t = l > 0 ? std::max(0.0, std::min(1.0, d.dot(p - a) / l)) : 0; V3 c = a + t * d; if (o) *o = c; return (p - c).norm(); }
static void c19(Rng& r)
{
    auto rv = [&](double s) { V3 v(F(r.u(-s, s)), F(r.u(-s, s)), F(r.u(-s, s))); if (r.p(0.15)) v(r.i(0, 2)) = 0; return v; };
    for (int rep = 0; rep < 25; rep++)
    {
        double s = std::pow(10.0, r.u(-1, 3.3)); double tol = 2e-5 * s + 1e-6;
        V3 a = rv(s), b = rv(s), c = rv(s), p = rv(s); V3 n = r.p(0.3) ? V3(V3::Unit(r.i(0, 2)) * (r.p(0.5) ? 1 : -1)) : r.dir(); V3f af = a.cast<float>(), bf = b.cast<float>(), cf = c.cast<float>(), pf = p.cast<float>(), nf = n.cast<float>();
        at(fmt("scale %g a [%s] b [%s] c [%s] p [%s] n [%s]", s, ms(a).c_str(), ms(b).c_str(), ms(c).c_str(), ms(p).c_str(), ms(n).c_str())); sig(hm(hm(hm(1, a), b), p));
        MT::Plane P(af, (nf * (float)r.u(0.5, 3)).eval());
        checkNear(MT::getDistancePointPlane(pf, P), n.dot(p - a), tol, "plane/distance"); checkMat(MT::projectPointToPlane(pf, P), (p - n * n.dot(p - a)).eval(), tol, "plane/projection");
        double dist = n.dot(p - a); if (std::fabs(dist) > tol) check(MT::onNormalPointingSide(pf, P) == (dist > 0), "plane/side", "side");
        { Eigen::Vector2f l2 = MT::projectPointToPlane2D(pf, P); bool near_pole = n(2) < -0.999 && n(2) > -1; if (!near_pole) { checkMat(MT::planePoint3D(l2, P), (p - n * n.dot(p - a)).eval(), 5e-4 * s + 1e-5, "plane/local-coordinates", "planePoint3D(projectPointToPlane2D)"); Eigen::Vector2f z(r.f(-s, s), r.f(-s, s)); V3 w = MT::planePoint3D(z, P).cast<double>(); checkNear(n.dot(w - a), 0, 5e-4 * s, "plane/point3d-on-plane"); checkNear((w - a).norm(), z.norm(), 5e-4 * s, "plane/point3d-isometric"); checkMat(MT::projectPointToPlane2D(w.cast<float>(), P), z, 1e-3 * s + 1e-5, "plane/local-inverse"); } }
        // lines and segments
        if ((b - a).norm() > 1e-2 * s)
        {
            MT::Line L(af, (bf - af).eval()); V3 d = (b - a).normalized(); V3 w = a + d * d.dot(p - a); checkMat(MT::nearestPointOnLine(L, pf), w, tol * 20, "line/nearest"); checkNear(MT::distPointLine(L, pf), (p - w).norm(), tol * 20, "line/distance"); check(L.isValid(), "line/valid", "invalid");
            V3 sn; double sd = segDist2(a, b, p, &sn); checkMat(MT::nearestPointOnSegment<V3f>(af, bf, pf), sn, tol * 20, "segment/nearest"); checkNear(MT::distPointSegment<V3f>(af, bf, pf), sd, tol * 20, "segment/distance");
            Eigen::Vector2f a2 = af.head<2>(), b2 = bf.head<2>(), p2 = pf.head<2>(); if ((b2 - a2).norm() > 1e-2 * s) { V3 q0(a2.x(), a2.y(), 0), q1(b2.x(), b2.y(), 0), q2(p2.x(), p2.y(), 0); checkNear(MT::distPointSegment<Eigen::Vector2f>(a2, b2, p2), segDist2(q0, q1, q2), tol * 20, "segment/distance2d"); }
            math::Line ml(af, (bf - af).eval()); checkMat(ml.GetClosestPoint(pf), w, tol * 20, "mathline/closest"); checkMat(ml.GetDistanceToPoint(pf), (p - w).eval(), tol * 20, "mathline/distance"); checkNear(ml.GetT(pf), (p - a).dot(b - a) / (b - a).squaredNorm(), 1e-3 * std::max(1.0, (p - a).norm() / (b - a).norm()), "mathline/t"); checkMat(math::Line::FromPoints(af, bf).Get(1), b, tol, "mathline/from-points"); float t = r.u(-2, 2); checkMat(ml.Get(t), (a + t * (b - a)).eval(), tol * 4, "mathline/get"); checkMat(ml.Normalized().GetClosestPoint(pf), w, tol * 20, "mathline/normalized");
            M4 tr = r.pose(s); checkMat(ml.Transform(f4(tr)).Get(t), (tr * (a + t * (b - a)).homogeneous()).head<3>().eval(), tol * 20, "mathline/transform");
        }
        { // zero-length segment: a point
            V3f z = MT::nearestPointOnSegment<V3f>(af, af, pf); checkMat(z, a, tol, "segment/zero-length"); checkNear(MT::distPointSegment<V3f>(af, af, pf), (p - a).norm(), tol, "segment/zero-length"); }
        // triangles
        double A2 = (b - a).cross(c - a).norm() / 2; double mn = std::min((b - a).norm(), (c - a).norm());
        checkNear(MT::getTriangleArea(af, bf, cf), A2, 1e-3 * s * s, "triangle/area");
        { double l = r.u(-2, 3); V3f col = (a + l * (b - a)).cast<float>(); checkNear(MT::getTriangleArea(af, bf, col), 0, 5e-3 * s * s * (1 + l * l), "triangle/area-collinear", "collinear"); checkNear(MT::getTriangleArea(af, af, bf), 0, 1e-3 * s * s, "triangle/area-collapsed"); checkNear(MT::getTriangleArea(af, bf, bf), 0, 1e-3 * s * s, "triangle/area-collapsed"); V3f dbl = af + 2 * (bf - af); checkNear(MT::getTriangleArea(af, bf, dbl), 0, 1e-3 * s * s, "triangle/area-collinear"); }
        if (A2 > 0.05 * s * s)
        {
            V3 tn = (b - a).cross(c - a).normalized(); V3 q = MT::randomPointInTriangle(af, bf, cf).cast<double>(); M3 m; m << a, b, c; check(std::fabs(tn.dot(q - a)) < tol * 5, "triangle/random-on-plane", "off plane");
            auto bary = [&](const V3& x) { double w = (b - a).cross(c - a).dot(tn); return V3((c - b).cross(x - b).dot(tn) / w, (a - c).cross(x - c).dot(tn) / w, (b - a).cross(x - a).dot(tn) / w); };
            V3 bb = bary(q); check(bb.minCoeff() > -1e-3 && bb.maxCoeff() < 1 + 1e-3, "triangle/random-inside", "bary %g %g %g", bb(0), bb(1), bb(2));
            std::vector<V3f> pl; pl.push_back(af); pl.push_back(bf); pl.push_back(cf); V3 fn = MT::findNormal(pl).cast<double>(); checkNear(std::fabs(fn.dot(tn)), 1, 1e-4, "plane/find-normal");
            if (s > 1) { check(!MT::collinear(af, bf, cf), "points/collinear", "proper triangle called collinear"); V3f e = af + 0.5f * (bf - af); std::vector<V3f> pl2 = vl({af, af, bf, cf}); (void)e; V3 f2 = MT::findNormal(pl2).cast<double>(); checkNear(std::fabs(f2.dot(tn)), 1, 1e-4, "plane/find-normal", "with repeated point"); }
            check(MT::collinear(af, af, bf) && MT::collinear(af, af, af), "points/collinear", "repeated points are collinear");
            math::Triangle mt(af, bf, cf); checkMat(mt.Normal().normalized(), tn, 1e-3, "mathtriangle/normal"); checkMat(mt.Centroid(), ((a + b + c) / 3).eval(), tol, "mathtriangle/centroid"); checkMat(mt.Flipped().Normal().normalized(), (-tn).eval(), 1e-3, "mathtriangle/flipped");
            int dep = r.i(0, 3); auto sub = mt.Subdivide(dep); double sum = 0; bool in = true; for (auto& t : sub) { sum += t.Normal().norm() / 2; in &= t.Normal().dot(mt.Normal()) > 0; } check(sub.size() == (size_t)std::pow(3, dep), "mathtriangle/subdivide-count", "%zu", sub.size()); checkNear(sum, A2, 1e-2 * A2, "mathtriangle/subdivide-area"); check(in, "mathtriangle/subdivide-orientation", "flipped part");
            // ray / triangle
            V3 dir = r.dir() * r.u(0.1, 3); math::Line ray(pf, dir.cast<float>()); float t = -1; double den = dir.normalized().dot(tn);
            V3 aim = a * 0.2 + b * 0.3 + c * 0.5; if (r.p(0.6)) { double u1 = r.u(-0.3, 1.3), u2 = r.u(-0.3, 1.3); aim = a + (b - a) * u1 + (c - a) * u2; dir = aim - p; if (r.p(0.2)) dir = -dir; ray = math::Line(pf, dir.cast<float>()); den = dir.normalized().dot(tn); }
            if (std::fabs(den) > 0.05 && dir.norm() > 1e-2 * s)
            {
                double tw = tn.dot(a - p) / tn.dot(dir); V3 h = p + tw * dir; V3 hb = bary(h); double marg = 1e-2;
                bool hit = ray.IntersectsTriangle(mt, t); if (hb.minCoeff() > marg && tw * dir.norm() > 1e-2 * s) { check(hit, "ray/missed", "bary %g %g %g t %g", hb(0), hb(1), hb(2), tw); if (hit) checkNear(t, tw, 2e-2 * (1 + std::fabs(tw)), "ray/distance"); count("ray-hit"); } else if (hb.minCoeff() < -marg || tw * dir.norm() < -1e-2 * s) { check(!hit, "ray/false-hit", "bary %g %g %g t %g", hb(0), hb(1), hb(2), tw); count("ray-miss"); }
                math::Primitive pr; pr.AddTriangle(af, bf, cf); V3f o3 = tn.cast<float>() * (float)s; pr.AddTriangle(af + o3, bf + o3, cf + o3); float tp; bool hp = ray.IntersectsPrimitive(boost::make_shared<math::Primitive>(pr), tp); float t2; bool h2 = ray.IntersectsTriangle(math::Triangle(af + o3, bf + o3, cf + o3), t2); check(hp == (hit || h2), "ray/primitive", "any"); if (hp) check(tp == std::min(hit ? t : 1e30f, h2 ? t2 : 1e30f), "ray/primitive-nearest", "%g", tp);
            }
            // implicit and parametric planes
            math::ImplicitPlane ip = math::ImplicitPlane::FromPositionNormal(af, nf); V3 w = p - n * n.dot(p - a); checkMat(ip.GetClosestPoint(pf), w, tol * 5, "implicitplane/closest"); double sd = ip.GetSignedDistance(pf); checkNear(sd, n.dot(p - a), tol * 5, "implicitplane/signed-distance"); checkNear(ip.Get(pf), n.dot(p - a), tol * 5, "implicitplane/get");
            math::ImplicitPlane ip2 = math::ImplicitPlane::FromPositionNormal(af, (nf * 3).eval()).Normalize(); checkMat(ip2.GetClosestPoint(pf), w, tol * 5, "implicitplane/normalize"); checkMat(ip.Flipped().GetClosestPoint(pf), w, tol * 5, "implicitplane/flipped");
            math::Plane mp = math::Plane::FromNormal(bf, tn.cast<float>()); { float u, v, w3; mp.GetUVW(pf, u, v, w3); checkMat((mp.GetPoint(u, v) + mp.GetNormal() * w3).eval(), p, tol * 10, "mathplane/uvw"); checkNear(std::fabs(w3), std::fabs(tn.dot(p - b)), tol * 5, "mathplane/w"); checkNear(std::fabs(mp.GetNormal().cast<double>().dot(tn)), 1, 1e-4, "mathplane/normal"); }
            if (std::fabs(n.dot(tn)) < 0.98) { math::Line il = ip.Intersect(mp); float t3 = r.u(-1, 1); V3 x = il.Get(t3).cast<double>(); double big = 1 + x.norm() / s; checkNear(n.dot(x - a), 0, 5e-4 * s * big, "implicitplane/intersect"); checkNear(tn.dot(x - b), 0, 5e-4 * s * big, "implicitplane/intersect"); check(il.Get(1) != il.Get(0), "implicitplane/intersect", "no direction"); }
            checkMat(mp.ToImplicit().GetClosestPoint(pf), (p - tn * tn.dot(p - b)).eval(), tol * 10, "mathplane/implicit");
            { std::vector<V3f> pts; int np = r.i(3, 12); for (int k = 0; k < np; k++) pts.push_back((a + (b - a) * r.u(-1, 1) + (c - a) * r.u(-1, 1)).cast<float>()); pts.push_back(af); pts.push_back(bf); pts.push_back(cf); math::Plane fp = math::FitPlane::Fit(pts); for (auto& x : pts) checkNear(fp.ToImplicit().GetClosestPoint(x).cast<double>().cast<float>().isApprox(x, 1e-3f) || (fp.ToImplicit().GetClosestPoint(x) - x).norm() < 1e-3 * s, 1, 0, "fitplane/contains"); checkNear(std::fabs(fp.GetNormal().cast<double>().dot(tn)), 1, 1e-3, "fitplane/normal"); }
        }
        // planes
        {
            V3 n2 = r.dir(); MT::Plane P2(bf, n2.cast<float>()); MT::Line L = MT::intersectPlanes(P, P2); if (std::fabs(n.dot(n2)) < 0.98) { check(L.isValid(), "planes/line-missing", "dot %g", n.dot(n2)); for (double t : {0.0, s, -s}) { V3 x = L.p.cast<double>() + L.d.cast<double>() * t; double big = (1 + x.norm() / s) / (1 - std::fabs(n.dot(n2))); checkNear(n.dot(x - a), 0, 1e-4 * s * big, "planes/line"); checkNear(n2.dot(x - b), 0, 1e-4 * s * big, "planes/line"); } checkNear(L.d.norm(), 1, 1e-4, "planes/unit-direction"); }
            MT::Plane par(bf, P.n), anti(bf, (-P.n).eval()); check(!MT::intersectPlanes(P, par).isValid() && !MT::intersectPlanes(P, anti).isValid(), "planes/parallel", "parallel planes intersect");
            V3f x; auto ir = MT::intersectSegmentPlane(MT::Segment(bf, cf), P, x); double d1 = n.dot(b - a), d2 = n.dot(c - a); if (std::fabs(d1) > 1e-3 * s && std::fabs(d2) > 1e-3 * s) { check((ir == MT::eIntersection) == (d1 * d2 < 0), "segment-plane/hit", "d %g %g", d1, d2); if (ir == MT::eIntersection) { checkNear(n.dot(x.cast<double>() - a), 0, 5e-4 * s, "segment-plane/on-plane"); checkNear(segDist2(b, c, x.cast<double>()), 0, 5e-4 * s, "segment-plane/on-segment"); count("segplane"); } }
            V3 mi = rv(s), ma = mi; for (int k = 0; k < 3; k++) ma(k) = F(ma(k) + r.u(0.05, 1) * s); M4 po = toF(r.pose(s)); MT::OOBB bx(mi.cast<float>(), ma.cast<float>(), f4(po)); auto pts = bx.getOOBBPoints(); double dmin = 1e30, dmax = -1e30; std::vector<V3> cor; for (int k = 0; k < 8; k++) { V3 l(k & 1 ? ma(0) : mi(0), k & 2 ? ma(1) : mi(1), k & 4 ? ma(2) : mi(2)); V3 g = (po * l.homogeneous()).head<3>(); cor.push_back(g); dmin = std::min(dmin, n.dot(g - a)); dmax = std::max(dmax, n.dot(g - a)); }
            for (auto& g : cor) { double best = 1e30; for (auto& o : pts) best = std::min(best, (o.cast<double>() - g).norm()); checkNear(best, 0, tol * 20, "oobb/points"); }
            auto segs = bx.getSegments(); check(segs.size() == 12, "oobb/segments", "count"); { double sum = 0; for (auto& sg : segs) sum += (sg.p1 - sg.p0).norm(); checkNear(sum, 4 * ((ma - mi).sum()), 1e-3 * s, "oobb/segments", "total edge length"); std::set<std::string> u; for (auto& sg : segs) u.insert(fmt("%.4g %.4g %.4g", (sg.p0 + sg.p1)(0) / s, (sg.p0 + sg.p1)(1) / s, (sg.p0 + sg.p1)(2) / s)); check(u.size() == 12, "oobb/segments", "not distinct: %zu", u.size()); }
            std::vector<V3f> is; auto ob = MT::intersectOOBBPlane(bx, P, is); bool cross = dmin < -1e-3 * s && dmax > 1e-3 * s, apart = dmin > 1e-3 * s || dmax < -1e-3 * s; if (cross || apart) check((ob == MT::eIntersection) == cross || (cross && is.size() < 3), "oobb-plane/hit", "dmin %g dmax %g", dmin, dmax); if (ob == MT::eIntersection && cross) { count("oobbplane"); check(is.size() >= 3 && is.size() <= 12, "oobb-plane/count", "%zu", is.size()); M4 ip = inv(po); for (auto& y : is) { V3 l = (ip * y.cast<double>().homogeneous()).head<3>(); checkNear(n.dot(y.cast<double>() - a), 0, 1e-3 * s, "oobb-plane/on-plane"); check(((l - mi).minCoeff() > -1e-3 * s) && ((ma - l).minCoeff() > -1e-3 * s), "oobb-plane/in-box", "outside"); } }
            M4 np = toF(r.pose(s)); MT::OOBB b2 = bx; b2.changeCoordSystem(f4(np)); V3 lo(1e30, 1e30, 1e30), hi = -lo; for (auto& g : cor) { V3 l = (inv(np) * g.homogeneous()).head<3>(); lo = lo.cwiseMin(l); hi = hi.cwiseMax(l); } checkMat(b2.minBB, lo, tol * 40, "oobb/change-frame"); checkMat(b2.maxBB, hi, tol * 40, "oobb/change-frame"); checkPose(b2.pose, np, 0, 0, "oobb/change-frame-pose");
        }
        // planar hull
        {
            int np = r.i(1, r.p(0.2) ? 60 : 12); std::vector<Eigen::Vector2f> pts; int mode = r.i(0, 5); for (int k = 0; k < np; k++) { Eigen::Vector2f v(r.f(-s, s), r.f(-s, s)); if (mode == 1) v = Eigen::Vector2f(r.i(-2, 2), r.i(-2, 2)) * (float)s; if (mode == 2) v(0) = (float)s; if (mode == 3) v(1) = (float)s; if (mode == 4 && k && r.p(0.5)) v = r.pick(pts); pts.push_back(v); }
            std::vector<Eigen::Vector2f> dis; for (auto& v : pts) { bool dup = false; for (auto& o : dis) dup |= (o - v).squaredNorm() < 1e-8; if (!dup) dis.push_back(v); }
            MT::ConvexHull2DPtr hull; bool threw = false; try { hull = MT::createConvexHull2D(pts); } catch (VirtualRobot::VirtualRobotException&) { threw = true; }
            if (dis.size() < 3) check(threw, "hull2d/too-few", "accepted %zu points", dis.size()); if (!threw && dis.size() >= 3) { count("hull2d"); auto& H = hull->vertices; check(H.size() >= 2 && hull->segments.size() == H.size(), "hull2d/size", "%zu vertices %zu segments", H.size(), hull->segments.size());
                for (auto& v : H) { bool f = false; for (auto& o : pts) f |= o == v; check(f, "hull2d/vertex-not-input", "vertex"); }
                for (size_t k = 0; k < hull->segments.size(); k++) check(hull->segments[k].id1 == (int)k && hull->segments[k].id2 == (int)((k + 1) % H.size()), "hull2d/segments", "segment %zu", k);
                double ext = 0; for (auto& v : pts) ext = std::max(ext, (double)(v - pts[0]).norm()); double area = 0; for (size_t k = 0; k < H.size(); k++) { auto& u = H[k]; auto& w = H[(k + 1) % H.size()]; area += (double)u(0) * w(1) - (double)u(1) * w(0); }
                for (auto& v : pts) for (size_t k = 0; k < H.size(); k++) { Eigen::Vector2d u = H[k].cast<double>(), w = H[(k + 1) % H.size()].cast<double>(), d = w - u; if (d.norm() < 1e-9) continue; double lf = (d(0) * (v(1) - u(1)) - d(1) * (v(0) - u(0))) / d.norm(); check(lf > -1e-4 * ext - 1e-6, "hull2d/point-outside", "point %g outside by %g", v(0), lf); }
                bool flat = area / 2 < 1e-3 * ext * ext; if (!flat) for (int k = 0; k < 8; k++) { Eigen::Vector2f t(r.f(-s, s), r.f(-s, s)); if (mode == 1 && k) t = Eigen::Vector2f(r.i(-3, 3), r.i(-3, 3)) * (float)s; double mlf = 1e30; for (size_t z = 0; z < H.size(); z++) { Eigen::Vector2d u = H[z].cast<double>(), w = H[(z + 1) % H.size()].cast<double>(), d = w - u; mlf = std::min(mlf, (d(0) * (t(1) - u(1)) - d(1) * (t(0) - u(0))) / d.norm()); } if (std::fabs(mlf) > 1e-4 * ext) { check(MT::isInside(t, hull) == (mlf > 0), "hull2d/inside", "margin %g", mlf); count(mlf > 0 ? "inside" : "outside"); } }
                Eigen::Vector2f lo = H[0], hi = H[0]; for (auto& v : H) { lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); } checkMat(MT::getConvexHullCenter(hull), ((lo + hi) / 2).eval(), 1e-5 * s, "hull2d/center"); }
        }
        // spherical, cylindrical
        { V3f q = MT::toPosition(MT::toSphericalCoords(pf)); checkMat(q, p, tol * 5 + 1e-3 * p.norm(), "spherical/roundtrip"); MT::SphericalCoord sc = MT::toSphericalCoords(pf); checkNear(sc.r, p.norm(), tol, "spherical/radius"); if (p.head<2>().norm() > 1e-2 * s) { checkNear(sc.phi, std::atan2(p(1), p(0)), 1e-4, "spherical/phi"); checkNear(sc.theta, std::atan2(p.head<2>().norm(), p(2)), 2e-3, "spherical/theta"); checkMat(q, p, 2e-3 * s, "spherical/roundtrip"); } V3f z = MT::toPosition(MT::toSphericalCoords(V3f::Zero())); check(z.norm() < 1e-6, "spherical/zero", "zero"); V3f pole = MT::toPosition(MT::toSphericalCoords(V3f(0, 0, -(float)s))); checkMat(pole, V3(0, 0, -F(s)), tol, "spherical/pole");
          checkMat(Helpers::CartesianFromSphere(sc.r, sc.theta, sc.phi), q, 1e-4 * s + 1e-6, "spherical/helpers"); float an = std::atan2(p(1), p(0)); checkMat(Helpers::CartesianFromCylinder(p.head<2>().norm(), an, p(2)), p, tol * 10, "cylinder"); checkMat(Helpers::CreateVectorFromCylinderCoords(p.head<2>().norm(), an, p(2)), p, tol * 10, "cylinder"); }
        // bases
        {
            V3 e1 = r.dir() * r.u(0.1, 5), e2 = r.dir() * r.u(0.1, 5), e3 = r.dir() * r.u(0.1, 5); if (r.p(0.35)) { M3 q = r.rot(); if (r.p(0.5)) q.setIdentity(); e1 = q.col(0) * r.u(0.1, 5); e2 = q.col(1) * r.u(0.1, 5); e3 = q.col(2) * r.u(0.1, 5); }
            M3 m; m << e1.normalized(), e2.normalized(), e3.normalized(); if (std::fabs(m.determinant()) > 0.05)
            {
                V3f x = e1.cast<float>(), y = e2.cast<float>(), z = e3.cast<float>(); bool ok = MT::ensureOrthonormalBasis(x, y, z); check(ok, "basis/refused", "independent vectors refused"); M3 g; g << x.cast<double>(), y.cast<double>(), z.cast<double>(); check(mdiff((g.transpose() * g).eval(), M3::Identity().eval()) < 1e-3, "basis/orthonormal", "G^T G [%s]", ms(M3(g.transpose() * g)).c_str()); checkNear(x.cast<double>().dot(e1.normalized()), 1, 1e-4, "basis/first-kept"); checkNear(std::fabs(y.cast<double>().dot(e1.cross(e2).normalized())), 0, 2e-3, "basis/span");
                int dim = r.pick({2, 4, 5}); std::vector<Eigen::VectorXf> bs; Eigen::MatrixXd mm(dim, dim); for (int k = 0; k < dim; k++) { Eigen::VectorXf v(dim); for (int j = 0; j < dim; j++) v(j) = r.f(-1, 1) + (j == k ? 2.f : 0.f); bs.push_back(v); mm.col(k) = v.cast<double>(); } Eigen::JacobiSVD<Eigen::MatrixXd> sv(mm); bool wellCond = sv.singularValues()(dim - 1) * 30 > sv.singularValues()(0); if (!wellCond) {} else if (MT::GramSchmidt(bs)) { Eigen::MatrixXd gg(dim, dim); for (int k = 0; k < dim; k++) gg.col(k) = bs[k].cast<double>(); check(mdiff((gg.transpose() * gg).eval(), Eigen::MatrixXd::Identity(dim, dim).eval()) < 1e-3, "basis/gram-schmidt", "dim %d", dim); } else viol("basis/gram-schmidt", "refused");
                // change of basis
                std::vector<Eigen::VectorXf> src, dst; for (auto& v : {e1, e2, e3}) src.push_back(v.cast<float>()); M3 q = r.rot(); for (int k = 0; k < 3; k++) dst.push_back(q.col(k).cast<float>()); Eigen::MatrixXf Tm = MT::getBasisTransformation(src, dst); V3 co = r.dir(); V3 world = e1 * co(0) + e2 * co(1) + e3 * co(2); checkMat((q * (Tm.cast<double>() * co)).eval(), world, 1e-4, "basis/transformation");
            }
            V3f d1, d2; V3f o = Helpers::GetOrthonormalVectors((n * r.u(0.01, 50)).cast<float>(), d1, d2); M3 g; g << o.cast<double>(), d1.cast<double>(), d2.cast<double>(); check(mdiff((g.transpose() * g).eval(), M3::Identity().eval()) < 1e-4, "helpers/orthonormal-vectors", "not orthonormal"); checkNear(o.cast<double>().dot(n), 1, 1e-4, "helpers/orthonormal-first");
        }
        // pseudo inverses
        {
            int m = r.i(1, 7), k = r.i(1, 7), rank = std::min(m, k); Eigen::MatrixXd X = Eigen::MatrixXd::Zero(m, k); if (r.p(0.25)) rank = r.i(1, rank); for (int i = 0; i < rank; i++) { Eigen::VectorXd u(m), v(k); for (int j = 0; j < m; j++) u(j) = r.n(); for (int j = 0; j < k; j++) v(j) = r.n(); X += u.normalized() * v.normalized().transpose() * r.u(0.3, 2); }
            Eigen::JacobiSVD<Eigen::MatrixXd> sv(X); double smin = 1e30; for (int i = 0; i < sv.singularValues().size(); i++) if (sv.singularValues()(i) > 1e-9) smin = std::min(smin, sv.singularValues()(i));
            if (smin > 0.05) { count("pinv"); for (int dbl = 0; dbl < 2; dbl++) { Eigen::MatrixXd Y = dbl ? MT::getPseudoInverseD(X) : MT::getPseudoInverse(X.cast<float>(), 1e-4f).cast<double>(); double t = dbl ? 1e-8 : 1e-2; check(Y.rows() == k && Y.cols() == m, "pinv/size", "size"); checkMat((X * Y * X).eval(), X, t, "pinv/AXA"); checkMat((Y * X * Y).eval(), Y, t * 20, "pinv/XAX"); checkMat((X * Y).eval(), (X * Y).transpose().eval(), t, "pinv/sym1"); checkMat((Y * X).eval(), (Y * X).transpose().eval(), t, "pinv/sym2");
                double la = r.u(0.1, 2); Eigen::MatrixXd D = dbl ? MT::getPseudoInverseDampedD(X, la) : MT::getPseudoInverseDamped(X.cast<float>(), (float)la).cast<double>(); Eigen::MatrixXd W = X.transpose() * (X * X.transpose() + la * la * Eigen::MatrixXd::Identity(m, m)).inverse(); checkMat(D, W, dbl ? 1e-7 : 2e-3, "pinv/damped"); } }
        }
        // curves and interpolation
        {
            V3 d = rv(s); V3f dfl = d.cast<float>(); math::Bezier bz(af, bf, cf, dfl); math::LinearContinuedBezier lb(af, bf, cf, dfl); checkMat(bz.Get(0), a, tol, "bezier/start"); checkMat(bz.Get(1), d, tol, "bezier/end"); double t = r.u(0.01, 0.99), h = 1e-4; auto ref = [&](double u) { return V3(std::pow(1 - u, 3) * a + 3 * u * std::pow(1 - u, 2) * b + 3 * u * u * (1 - u) * c + u * u * u * d); }; checkMat(bz.Get(t), ref(F(t)), tol * 4, "bezier/point"); V3 der = (ref(t + h) - ref(t - h)) / (2 * h); checkMat(bz.GetDerivative(t), der, 1e-3 * s, "bezier/derivative"); checkMat(lb.Get(t), ref(F(t)), tol * 4, "bezier/continued"); checkMat(lb.GetDerivative(t), der, 1e-3 * s, "bezier/continued-derivative");
            double t2 = r.p(0.5) ? r.u(-2, -0.01) : r.u(1.01, 3); V3 want = t2 < 0 ? V3(a + 3 * (b - a) * t2) : V3(d + 3 * (d - c) * (t2 - 1)); checkMat(lb.Get(t2), want, tol * 20, "bezier/linear-part"); checkMat(lb.GetDerivative(t2), (t2 < 0 ? V3(3 * (b - a)) : V3(3 * (d - c))), tol * 20, "bezier/linear-derivative");
            int np = r.i(2, 7); std::vector<V3f> pts; for (int k = 0; k < np; k++) pts.push_back(rv(s).cast<float>()); double t0 = r.u(-3, 3), t1 = t0 + r.u(0.5, 5); math::LineStrip ls(pts, t0, t1); for (int k = 0; k < np; k++) checkMat(ls.Get(t0 + (t1 - t0) * k / (np - 1)), pts[k], 2e-3 * s, "linestrip/vertices"); int i = r.i(0, np - 2); double f = r.u(); checkMat(ls.Get(t0 + (t1 - t0) * (i + f) / (np - 1)), (pts[i] * (1 - f) + pts[i + 1] * f).eval(), 2e-3 * s, "linestrip/interpolation"); check(ls.InLimits((t0 + t1) / 2) && !ls.InLimits(t0 - 0.1) && !ls.InLimits(t1 + 0.1), "linestrip/limits", "limits");
            float lo = r.f(-5, 5), hi = lo + r.f(0, 5), v = r.f(-12, 12); check(Helpers::Clamp(lo, hi, v) == std::min(std::max(v, lo), hi), "helpers/clamp", "clamp"); checkNear(Helpers::Lerp(lo, hi, 0.25f), lo + 0.25 * (hi - lo), 1e-5, "helpers/lerp"); if (hi - lo > 0.01) checkNear(Helpers::ILerp(lo, hi, v), (v - lo) / (hi - lo), 1e-3 * (1 + std::fabs((v - lo) / (hi - lo))), "helpers/ilerp"); checkNear(MT::Lerp(lo, hi, 0.75f), lo + 0.75 * (hi - lo), 1e-5, "helpers/lerp"); checkMat(Helpers::Lerp(af, bf, 0.3f), (a + 0.3 * (b - a)).eval(), tol, "helpers/lerp3");
            int steps = r.i(1, 9); auto fr = Helpers::FloatRange(lo, hi, steps); check((int)fr.size() == steps + 1 && fr[0] == lo && std::fabs(fr.back() - hi) < 1e-5, "helpers/range", "range"); check(Helpers::VectorRange(fr, {1, 2}, {3}).size() == fr.size() * 2, "helpers/vector-range", "size"); checkMat(Helpers::Average(vl({af, bf, cf})), ((a + b + c) / 3).eval(), tol, "helpers/average");
            // a vector is shortened, never lengthened, until every component respects its bound
            int m = r.i(1, 6); Eigen::VectorXf vec(m), mx(r.p(0.3) ? 1 : m); for (int k = 0; k < m; k++) vec(k) = r.f(-5, 5); for (int k = 0; k < mx.rows(); k++) mx(k) = r.p(0.15) ? -1.f : r.f(0.1, 4); Eigen::VectorXf lim = Helpers::LimitVectorLength(vec, mx); double sc = 1; for (int k = 0; k < m; k++) { float b = mx(mx.rows() == 1 ? 0 : k); if (b >= 0) sc = std::min(sc, (double)b / std::max(1e-9, (double)std::fabs(vec(k)))); } checkMat(lim, (vec * sc).eval(), 1e-4, "helpers/limit-vector");
        }
    }
    sample(S().desc);
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C18", c18, 12000, 400000}, {"C19", c19, 12000, 400000}}); }
