// C11: triangle mesh operations, bounding boxes, mesh import
#include "mesh.h"
#include <fstream>
#include <VirtualRobot/Visualization/TriMeshUtils.h>
#include <VirtualRobot/Import/MeshImport/STLReader.h>
using namespace vh;
using namespace VirtualRobot;
typedef VisualizationFactory::Color Col;
struct Tri { V3 p[3]; bool col[3]; float c[3][4]; V3 n; bool hasN; };   // hasN: an explicit face normal was given
struct Ref { std::vector<Tri> t; bool unused = false, flips = false; };
static Col rcol(Rng& r) { return Col(r.i(0, 8) / 8.f, r.i(0, 8) / 8.f, r.i(0, 8) / 8.f, r.i(0, 7) / 8.f); }
static void setc(Tri& t, int k, const Col& c) { t.col[k] = true; t.c[k][0] = c.r; t.c[k][1] = c.g; t.c[k][2] = c.b; t.c[k][3] = c.transparency; }
static V3 tn(const Tri& t) { return (t.p[1] - t.p[0]).cross(t.p[2] - t.p[0]); }
static bool fat(const Tri& t) { double l = std::max((t.p[1] - t.p[0]).norm(), std::max((t.p[2] - t.p[0]).norm(), (t.p[2] - t.p[1]).norm())); return tn(t).norm() > 1e-3 * l * l && tn(t).norm() > 1e-4; }
static V3 fv(Rng& r, double e) { return V3(F(r.u(-e, e)), F(r.u(-e, e)), F(r.u(-e, e))); }
static unsigned vid(const MathTools::TriangleFace& f, int k) { return k == 0 ? f.id1 : k == 1 ? f.id2 : f.id3; }
static unsigned cid(const MathTools::TriangleFace& f, int k) { return k == 0 ? f.idColor1 : k == 1 ? f.idColor2 : f.idColor3; }
static unsigned nid(const MathTools::TriangleFace& f, int k) { return k == 0 ? f.idNormal1 : k == 1 ? f.idNormal2 : f.idNormal3; }
static void boxCheck(const BoundingBox& b, const std::vector<V3>& pts, double tol, bool tight, const std::string& key)
{
    if (pts.empty()) { check(std::isnan(b.getMin()(0)) && b.getPoints().empty(), key + "/empty-box", "box of nothing has %d points", (int)b.getPoints().size()); return; }
    V3 lo = pts[0], hi = pts[0]; for (auto& p : pts) { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); }
    for (int k = 0; k < 3; k++)
    {
        double a = b.getMin()(k), c = b.getMax()(k);
        check(a <= lo(k) + tol && c >= hi(k) - tol, key + "/encloses", "axis %d: box [%.9g,%.9g], vertices reach [%.9g,%.9g]", k, a, c, lo(k), hi(k));
        if (tight) check(a >= lo(k) - tol && c <= hi(k) + tol, key + "/tight", "axis %d: box [%.9g,%.9g], vertices only reach [%.9g,%.9g]", k, a, c, lo(k), hi(k));
    }
}
static void meshCheck(TriMeshModel& m, const Ref& ref, double tol, const std::string& op)
{
    std::string k = "mesh/" + op;
    if (!check(m.faces.size() == ref.t.size(), k + "/face-count", "%d faces, expected %d", (int)m.faces.size(), (int)ref.t.size())) return;
    std::vector<V3> used;
    for (size_t i = 0; i < m.faces.size(); i++)
    {
        auto& f = m.faces[i]; const Tri& t = ref.t[i];
        for (int j = 0; j < 3; j++)
        {
            unsigned v = vid(f, j), c = cid(f, j), n = nid(f, j);
            if (!check(v < m.vertices.size(), k + "/vertex-index", "face %d corner %d refers to vertex %u of %d", (int)i, j, v, (int)m.vertices.size())) return;
            check(n == UINT_MAX || n < m.normals.size(), k + "/normal-index", "face %d corner %d refers to normal %u of %d", (int)i, j, n, (int)m.normals.size());
            V3 p = m.vertices[v].cast<double>(); used.push_back(p);
            checkMat(p, t.p[j], tol, k + "/triangle-corner", fmt("face %d corner %d", (int)i, j));
            if (t.col[j]) { if (check(c < m.colors.size(), k + "/color-index", "face %d corner %d refers to color %d of %d", (int)i, j, (int)c, (int)m.colors.size())) { auto& q = m.colors[c]; check(near_(q.r, t.c[j][0], 1e-6) && near_(q.g, t.c[j][1], 1e-6) && near_(q.b, t.c[j][2], 1e-6) && near_(q.transparency, t.c[j][3], 1e-6), k + "/color", "face %d corner %d color %.3f %.3f %.3f %.3f", (int)i, j, q.r, q.g, q.b, q.transparency); } }
            else check(c == UINT_MAX || c < m.colors.size(), k + "/color-index", "face %d corner %d refers to color %u of %d", (int)i, j, c, (int)m.colors.size());
        }
        if (t.hasN) checkMat(f.normal.cast<double>(), t.n, 2e-3, k + "/face-normal", fmt("face %d", (int)i));
    }
    std::vector<V3> all; for (auto& v : m.vertices) all.push_back(v.cast<double>());
    boxCheck(m.boundingBox, all, tol, !ref.unused, k + "/box");
    Eigen::Vector3f lo, hi; bool ok = m.getSize(lo, hi);
    check(ok == !all.empty(), k + "/getSize", "getSize %d with %d vertices", (int)ok, (int)all.size());
    if (ok)
    {
        V3 a = all[0], b = all[0], c = V3::Zero(); for (auto& p : all) { a = a.cwiseMin(p); b = b.cwiseMax(p); c += p / all.size(); }
        checkMat(lo.cast<double>(), a, tol, k + "/size-min"); checkMat(hi.cast<double>(), b, tol, k + "/size-max");
        double e = std::max(a.norm(), b.norm()); checkMat(m.getCOM().cast<double>(), c, 1e-4 + 1e-5 * e, k + "/com");
    }
    auto ar = m.getFaceAreas();
    if (check(ar.size() == ref.t.size(), k + "/area-count", "%d areas", (int)ar.size())) for (size_t i = 0; i < ar.size(); i++) { double w = tn(ref.t[i]).norm() / 2, l = (ref.t[i].p[1] - ref.t[i].p[0]).norm() + (ref.t[i].p[2] - ref.t[i].p[0]).norm(), e = ref.t[i].p[0].norm() + l; checkNear(ar[i], w, 1e-4 + tol * l + 1e-5 * l * l + 1e-6 * e * l, k + "/area"); }
}
static void opsCase(Rng& r)
{
    TriMeshModelPtr m(new TriMeshModel()); Ref ref; double e = r.pick({1.0, 100.0, 100.0, 1000.0}); std::string hist;
    int N = r.i(3, 14); std::vector<V3> pool; for (int i = 0; i < r.i(4, 20); i++) pool.push_back(fv(r, e));
    bool sep = true; for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < i; j++) sep &= (pool[i] - pool[j]).norm() > 0.05;   // merging threshold is 0.01
    double jit = 0, mag = 1; double sc = 1;
    for (int s = 0; s < N; s++)
    {
        int op = s < 2 ? r.i(0, 5) : r.i(0, 18); double tol = 1e-4 + 4e-6 * e * mag + jit; const char* nm = "add";
        auto corner = [&](bool dup) { V3 p = dup ? r.pick(pool) : fv(r, e); if (!dup) { for (auto& q : pool) if ((p - q).norm() <= 0.05) p = q; bool in = false; for (auto& q : pool) in |= q == p; if (!in) pool.push_back(p); } return V3(p); };
        auto tri = [&]() { Tri t; for (int k = 0; k < 3; k++) { t.col[k] = false; t.p[k] = corner(r.p(0.7)); } if (r.p(0.03)) t.p[2] = t.p[0]; t.hasN = false; return t; };
        std::string key;
        if (op <= 3 && sc == 1)   // add single triangles
        {
            int n = r.i(1, 6);
            for (int i = 0; i < n; i++)
            {
                Tri t = tri(); Eigen::Vector3f a = t.p[0].cast<float>(), b = t.p[1].cast<float>(), c = t.p[2].cast<float>();
                if (op == 0) { nm = "addTriangle"; m->addTriangleWithFace(a, b, c); for (int k = 0; k < 3; k++) setc(t, k, Col::Gray()); if (fat(t)) { t.hasN = true; t.n = tn(t).normalized(); } }
                else if (op == 1) { nm = "addTriangleNormal"; V3 nn = r.dir() * r.pick({1.0, 3.0, 0.2}); bool z = r.p(0.2); if (z) nn.setZero(); Col q[3] = {rcol(r), rcol(r), rcol(r)}; m->addTriangleWithFace(a, b, c, nn.cast<float>(), q[0], q[1], q[2]); for (int k = 0; k < 3; k++) setc(t, k, q[k]); if (!z || fat(t)) { t.hasN = true; t.n = z ? V3(tn(t).normalized()) : V3(nn.normalized()); } }
                else if (op == 2) { nm = "addTriangleColors"; Col q[3] = {rcol(r), rcol(r), rcol(r)}; auto v4 = [](const Col& c) { return Eigen::Vector4f(c.r, c.g, c.b, c.transparency); }; m->addTriangleWithFace(a, b, c, v4(q[0]), v4(q[1]), v4(q[2])); for (int k = 0; k < 3; k++) setc(t, k, q[k]); if (fat(t)) { t.hasN = true; t.n = tn(t).normalized(); } }
                else { nm = "addFace"; int v[3] = {m->addVertex(a), m->addVertex(b), m->addVertex(c)}; for (int k = 0; k < 3; k++) check(v[k] >= 0 && (size_t)v[k] < m->vertices.size(), "mesh/addVertex-index", "index %d of %d", v[k], (int)m->vertices.size()); if (r.p(0.5)) m->addFace(v[0], v[1], v[2]); else { MathTools::TriangleFace f; f.set(v[0], v[1], v[2]); bool wc = r.p(0.5); if (wc) { Col q = rcol(r); unsigned c = m->addColor(q); f.setColor(c, c, c); for (int k = 0; k < 3; k++) setc(t, k, q); } m->addFace(f); } }
                ref.t.push_back(t);
            }
        }
        else if (op == 4 && sc == 1)   // append another mesh, some of it indexed and without colors
        {
            nm = "addMesh"; TriMeshModel o; Ref oref; bool idx = r.p(0.5);
            if (idx) { std::vector<V3> loc; for (int q = 0; q < 5; q++) loc.push_back(corner(q % 2 == 0)); for (auto& p : loc) o.addVertex(p.cast<float>()); for (int i = 0; i < r.i(1, 6); i++) { Tri t; int a[3] = {r.i(0, 4), r.i(0, 4), r.i(0, 4)}; for (int k = 0; k < 3; k++) { t.p[k] = loc[a[k]]; t.col[k] = false; } t.hasN = false; o.addFace(a[0], a[1], a[2]); oref.t.push_back(t); } }
            else for (int i = 0; i < r.i(1, 6); i++) { Tri t = tri(); Col q = rcol(r); o.addTriangleWithFace(t.p[0].cast<float>(), t.p[1].cast<float>(), t.p[2].cast<float>(), Eigen::Vector3f::Zero(), q, q, q); for (int k = 0; k < 3; k++) setc(t, k, q); if (fat(t)) { t.hasN = true; t.n = tn(t).normalized(); } oref.t.push_back(t); }
            m->addMesh(o); for (auto& t : oref.t) ref.t.push_back(t); meshCheck(o, oref, tol, "addMesh-source"); count("addMesh");
        }
        else if (op == 5 || op == 6)
        {
            nm = "mergeVertices"; if (!sep || sc < 0.9 || 8e-6 * e * mag + jit > 0.006) continue; bool rem = r.p(0.7); size_t before = m->vertices.size();
            if (jit == 0 && r.p(0.3)) { jit = 0.004; for (auto& v : m->vertices) v += (r.dir() * 0.002).cast<float>(); ref.unused = true; tol += jit; }
            m->mergeVertices(0.0001f, rem); if (!rem) ref.unused = true;
            // corners that coincide must share one vertex now
            std::vector<std::pair<V3, unsigned>> seen; std::set<unsigned> ids; int bad = 0;
            for (size_t i = 0; i < m->faces.size() && i < ref.t.size(); i++) for (int k = 0; k < 3; k++) { unsigned v = vid(m->faces[i], k); ids.insert(v); bool f = false; for (auto& s2 : seen) if ((s2.first - ref.t[i].p[k]).norm() < 1e-6) { f = true; bad += s2.second != v; } if (!f) seen.push_back({ref.t[i].p[k], v}); }
            check(!bad, "mesh/mergeVertices/merged", "%d coinciding corners still use different vertices", bad);
            check(ids.size() == seen.size(), "mesh/mergeVertices/distinct", "%d vertices for %d distinct corners", (int)ids.size(), (int)seen.size());
            if (rem) check(m->vertices.size() == ids.size(), "mesh/mergeVertices/removed", "%d vertices left, %d used (before %d)", (int)m->vertices.size(), (int)ids.size(), (int)before);
            count("merge");
        }
        else if (op == 7) { nm = "removeUnused"; size_t b = m->vertices.size(); std::set<unsigned> ids; for (auto& f : m->faces) for (int k = 0; k < 3; k++) ids.insert(vid(f, k)); size_t n = m->removeUnusedVertices(); check(n == b - ids.size() && m->vertices.size() == ids.size(), "mesh/removeUnused/count", "removed %d of %d, %d used", (int)n, (int)b, (int)ids.size()); if (n) ref.unused = true; }
        else if (op == 8 || op == 9)
        {
            nm = "scale"; V3 f(F(r.u(0.3, 3)), F(r.u(0.3, 3)), F(r.u(0.3, 3))); if (r.p(0.3)) f = V3::Constant(f(0)); if (r.p(0.25)) f(r.i(0, 2)) *= -1;
            if (r.p(0.5)) m->scale(f.cast<float>()); else { nm = "cloneScaled"; TriMeshModelPtr c = m->clone(f.cast<float>()); meshCheck(*m, ref, tol, "cloneScaled-source"); m = c; }
            double ft = f.cwiseAbs().maxCoeff(); mag *= std::max(1.0, ft); sc *= f.cwiseAbs().minCoeff(); tol = 1e-4 + 4e-6 * e * mag + (jit *= std::max(1.0, ft));
            for (auto& t : ref.t) { for (auto& p : t.p) p = p.cwiseProduct(f); t.hasN = false; } for (auto& p : pool) p = p.cwiseProduct(f);
            sep = true; for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < i; j++) sep &= (pool[i] - pool[j]).norm() > 0.05 + jit;
            sc = std::max(sc, 0.0); if (f != V3::Ones()) sc = std::min(sc, 0.99);
            count("scale");
        }
        else if (op == 10)
        {
            nm = "clone"; TriMeshModelPtr c = m->clone(); meshCheck(*c, ref, tol, nm); if (!c->vertices.empty()) { c->vertices[0] += Eigen::Vector3f(1000, 0, 0); c->clear(); } nm = "clone-source";
        }
        else if (op == 11)
        {
            nm = "flip"; m->flipVertexOrientations();
            for (auto& t : ref.t) { std::swap(t.p[0], t.p[2]); std::swap(t.col[0], t.col[2]); for (int q = 0; q < 4; q++) std::swap(t.c[0][q], t.c[2][q]); t.n = -t.n; } ref.flips = true;
        }
        else if (op == 12)
        {
            nm = "addMissingNormals"; size_t b = m->normals.size(); std::vector<std::array<unsigned, 3>> old; for (auto& f : m->faces) old.push_back({{nid(f, 0), nid(f, 1), nid(f, 2)}});
            unsigned n = m->addMissingNormals(); check(m->normals.size() == b + n, "mesh/addMissingNormals/count", "reported %u created, %d -> %d", n, (int)b, (int)m->normals.size());
            for (size_t i = 0; i < m->faces.size() && i < ref.t.size(); i++) for (int k = 0; k < 3; k++)
            {
                unsigned q = nid(m->faces[i], k); if (!check(q < m->normals.size(), "mesh/addMissingNormals/missing", "face %d corner %d has no normal (index %d of %d)", (int)i, k, (int)q, (int)m->normals.size())) continue;
                if (old[i][k] != UINT_MAX) check(q == old[i][k], "mesh/addMissingNormals/existing", "existing normal index changed");
                else if (!ref.t[i].hasN && fat(ref.t[i]) && !ref.flips && sc == 1) checkMat(m->normals[q].cast<double>(), tn(ref.t[i]).normalized(), 2e-3 + 10 * jit / std::sqrt(tn(ref.t[i]).norm()), "mesh/addMissingNormals/value", fmt("face %d", (int)i));
            }
            count("addMissingNormals");
        }
        else if (op == 13)
        {
            nm = "addMissingColors"; if (!sep || sc < 0.9 || 8e-6 * e * mag + jit > 0.006) continue; Col q = rcol(r); std::vector<VirtualRobot::MathTools::TriangleFace> was(m->faces.begin(), m->faces.end()); m->addMissingColors(q); ref.unused = true; auto had = [&](size_t i, int k) { return i < was.size() && cid(was[i], k) != UINT_MAX; };
            std::map<unsigned, std::vector<Col>> atv; auto vid = [&](size_t i, int k) { auto& f = m->faces[i]; return k == 0 ? f.id1 : k == 1 ? f.id2 : f.id3; }; auto same = [](const Col& a, const Col& b) { return std::fabs(a.r - b.r) + std::fabs(a.g - b.g) + std::fabs(a.b - b.b) + std::fabs(a.transparency - b.transparency) < 1e-5; };
            for (size_t i = 0; i < m->faces.size() && i < ref.t.size(); i++) for (int k = 0; k < 3; k++) if (had(i, k)) { unsigned c = cid(m->faces[i], k); if (c < m->colors.size()) atv[vid(i, k)].push_back(m->colors[c]); }
            for (size_t i = 0; i < m->faces.size() && i < ref.t.size(); i++) for (int k = 0; k < 3; k++)
            {
                unsigned c = cid(m->faces[i], k); if (!check(c < m->colors.size(), "mesh/addMissingColors/missing", "face %d corner %d", (int)i, k)) continue;
                if (!ref.t[i].col[k]) { auto& w = atv[vid(i, k)]; bool f = w.empty() && same(m->colors[c], q); for (auto& x : w) f |= same(x, m->colors[c]); if (!had(i, k)) check(f, "mesh/addMissingColors/value", "face %d corner %d: neither a colour of its vertex nor the given one (%d known colours)", (int)i, k, (int)w.size()); setc(ref.t[i], k, m->colors[c]); }
            }
        }
        else if (op == 14)
        {
            nm = "setColor"; Col q = rcol(r); m->setColor(q); for (auto& t : ref.t) for (int k = 0; k < 3; k++) if (t.col[k]) setc(t, k, q);
        }
        else if (op == 15 && r.p(0.2)) { nm = "clear"; m->clear(); ref = Ref(); sc = 1; mag = 1; jit = 0; sep = false; check(m->normals.empty() && m->colors.empty() && m->materials.empty(), "mesh/clear/rest", "%d normals, %d colors left", (int)m->normals.size(), (int)m->colors.size()); }
        else if (op == 16)
        {
            nm = "addPartialNormals"; // give some corners explicit normals
            if (m->faces.empty()) continue; for (int i = 0; i < 3; i++) { auto& f = m->faces[r.i(0, (int)m->faces.size() - 1)]; unsigned q = m->addNormal(r.dir().cast<float>()); int k = r.i(0, 2); (k == 0 ? f.idNormal1 : k == 1 ? f.idNormal2 : f.idNormal3) = q; }
        }
        else if (op == 17)
        {
            nm = "toVisualization"; Eigen::Matrix4f id = Eigen::Matrix4f::Identity(); VisualizationNodePtr v = VisualizationFactory::first(nullptr)->createTriMeshModelVisualization(m, r.p(0.3), id, r.p(0.3)); check((bool)v, "mesh/toVisualization", "no visualization");
            VisualizationNodePtr w = VisualizationFactory::first(nullptr)->createTriMeshModelVisualization(m, id); TriMeshModelPtr b = w->getTriMeshModel(); size_t nz = 0; for (auto& t : ref.t) nz += fat(t); check(b && b->faces.size() <= ref.t.size() && b->faces.size() >= nz, "mesh/readback", "%d faces of %d", b ? (int)b->faces.size() : -1, (int)ref.t.size()); if (b && b->faces.size() == ref.t.size()) for (size_t i = 0; i < ref.t.size(); i++) for (int j = 0; j < 3; j++) checkMat(b->vertices[vid(b->faces[i], j)].cast<double>(), ref.t[i].p[j], tol * 3, "mesh/readback-corner"); count("visualization");
        }
        else continue;
        hist += std::string(nm) + " "; at("mesh ops: %s", hist.c_str()); meshCheck(*m, ref, tol, nm); sig(hmix(hmix(ref.t.size(), m->vertices.size()), op));
    }
    sample("mesh ops: " + hist); count("mesh-histories");
}
// inflating: every vertex of a merged mesh moves by the offset along the corner-angle weighted average of its face normals
static void fattenCase(Rng& r)
{
    double e = r.pick({20.0, 100.0, 400.0}); Mesh k = r.p(0.5) ? starMesh(r, e, 0.15, r.i(3, 6), r.i(4, 8)) : boxMesh(V3(F(e * r.u(.4, 2)), F(e * r.u(.4, 2)), F(e * r.u(.4, 2))));
    TriMeshModelPtr m = triModel(k); double off = F(r.pick({1.0, -1.0}) * r.u(0.1, 0.08 * e)); bool upd = r.p(0.5); at("fatten %d triangles by %.3f", (int)k.f.size(), off);
    m->mergeVertices(); check(m->vertices.size() == k.v.size(), "fatten/merged-vertices", "%d vertices, mesh has %d", (int)m->vertices.size(), (int)k.v.size());
    std::vector<V3> nrm(k.v.size(), V3::Zero());
    for (auto& f : k.f) { V3 n = (k.v[f[1]] - k.v[f[0]]).cross(k.v[f[2]] - k.v[f[0]]).normalized(); for (int j = 0; j < 3; j++) { V3 a = k.v[f[(j + 1) % 3]] - k.v[f[j]], b = k.v[f[(j + 2) % 3]] - k.v[f[j]]; nrm[f[j]] += n * std::atan2(a.cross(b).norm(), a.dot(b)); } }
    if (r.p(0.3)) { m->smoothNormalSurface(); for (size_t i = 0; i < m->faces.size(); i++) for (int j = 0; j < 3; j++) { unsigned q = nid(m->faces[i], j); if (check(q < m->normals.size(), "fatten/smooth-index", "normal %u of %d", q, (int)m->normals.size())) checkMat(m->normals[q].cast<double>(), nrm[k.f[i][j]].normalized(), 5e-3, "fatten/smooth-normal"); } upd = true; nrm.assign(k.v.size(), V3::Zero()); for (auto& f : k.f) { V3 n = (k.v[f[1]] - k.v[f[0]]).cross(k.v[f[2]] - k.v[f[0]]).normalized(); for (int j = 0; j < 3; j++) { V3 a = k.v[f[(j + 1) % 3]] - k.v[f[j]], b = k.v[f[(j + 2) % 3]] - k.v[f[j]]; nrm[f[j]] += n * std::atan2(a.cross(b).norm(), a.dot(b)); } } }
    m->fattenShrink(off, upd);
    std::vector<V3> all;
    for (size_t i = 0; i < m->faces.size() && i < k.f.size(); i++) for (int j = 0; j < 3; j++) { unsigned v = vid(m->faces[i], j); V3 p = m->vertices.at(v).cast<double>(); all.push_back(p); checkMat(p, V3(k.v[k.f[i][j]] + off * nrm[k.f[i][j]].normalized()), 2e-3 + 5e-3 * std::fabs(off), "fatten/vertex", fmt("offset %.3f", off)); }
    boxCheck(m->boundingBox, all, 1e-3, true, "fatten/box");
    // a consistently oriented surface needs no correction
    TriMeshModelPtr o = triModel(k); unsigned fl = o->checkAndCorrectNormals(false); check(fl == 0, "mesh/checkAndCorrectNormals", "%u faces of a consistently oriented closed surface were flipped", fl);
    count("fatten");
}
static void modelCase(Rng& r)   // collision models and visualizations: boxes in the frame they are reported in, across moves, clones, inflation and scaling
{
    double e = r.pick({20.0, 100.0, 500.0}); Mesh k = r.p(0.3) ? boxMesh(V3(F(e * r.u(.4, 2)), F(e * r.u(.4, 2)), F(e * r.u(.4, 2)))) : r.p(0.5) ? starMesh(r, e, 0.1, r.i(3, 5), r.i(4, 7)) : genMesh(r, e);
    V3 sh(F(e) * r.i(0, 1), 0, 0); for (auto& p : k.v) p += sh; for (auto& p : k.v) for (int q = 0; q < 3; q++) p(q) = F(p(q));
    CollisionModelPtr c = meshCol(k); std::vector<V3> loc = k.v; { std::set<int> u; for (auto& f : k.f) for (int q : f) u.insert(q); loc.clear(); for (int q : u) loc.push_back(k.v[q]); }
    M4 pose = M4::Identity(); std::string hist; double tol = 2e-3 + 1e-5 * e;
    bool inflated = false; double margin = 0; bool updVis = true; M4 visPose = M4::Identity();
    for (int s = 0; s < r.i(2, 8); s++)
    {
        int op = r.i(0, 7);
        if (op <= 2) { pose = toF(r.pose(r.pick({0.0, 300.0, 3000.0}))); c->setGlobalPose(f4(pose)); if (updVis) visPose = pose; hist += "move "; }
        else if (op == 3 && k.closed) { margin = F(r.u(0.5, 0.05 * e + 0.6)); c->inflateModel(margin); inflated = true; hist += "inflate "; }
        else if (op == 4) { bool deep = r.p(0.5); CollisionModelPtr d = c->clone(CollisionCheckerPtr(), 1.f, deep); hist += deep ? "clone-deep " : "clone-shallow "; if (r.p(0.6)) { c = d; visPose = pose; } }
        else if (op == 5 && !inflated) { float f = r.f(0.5, 2); c = c->clone(CollisionCheckerPtr(), f, r.p(0.5)); for (auto& p : loc) p *= f; for (auto& p : k.v) p *= f; tol *= std::max(1.f, f); visPose = pose; hist += "clone-scaled "; }
        else if (op == 6) { updVis = !updVis; c->setUpdateVisualization(updVis); hist += "toggle "; }
        else continue;
        at("collision model: %s", hist.c_str());
        checkMat(c->getGlobalPose(), f4(pose), 1e-6, "model/pose");
        TriMeshModelPtr t = c->getTriMeshModel(); if (!check((bool)t, "model/mesh", "no mesh")) return;
        std::vector<V3> mv; for (auto& v : t->vertices) mv.push_back(v.cast<double>());
        if (!inflated) { boxCheck(c->getBoundingBox(false), loc, tol, true, "model/local-box"); check(t->faces.size() == k.f.size(), "model/faces", "%d faces, %d expected", (int)t->faces.size(), (int)k.f.size()); double w = 0; for (auto& v : mv) { double b = INFINITY; for (auto& p : loc) b = std::min(b, (p - v).norm()); w = std::max(w, b); } checkNear(w, 0, tol, "model/vertices"); }
        else
        {
            boxCheck(c->getBoundingBox(false), mv, tol, true, "model/inflated-box"); check(std::fabs(c->getMargin() - margin) < 1e-4, "model/margin", "margin %.4g, set %.4g", c->getMargin(), margin);
            if (check(t->faces.size() == k.f.size(), "model/inflated-faces", "%d of %d", (int)t->faces.size(), (int)k.f.size())) for (size_t i = 0; i < k.f.size(); i++) for (int j = 0; j < 3; j++) checkNear((t->vertices.at(vid(t->faces[i], j)).cast<double>() - k.v[k.f[i][j]]).norm(), margin, tol + 0.02 * margin, "model/inflated-vertices", fmt("vertex %s face %d corner %d area %.3g normal %s", ms(k.v[k.f[i][j]].transpose()).c_str(), (int)i, j, (k.v[k.f[i][1]]-k.v[k.f[i][0]]).cross(k.v[k.f[i][2]]-k.v[k.f[i][0]]).norm(), ms(t->faces[i].normal.transpose()).c_str()));
        }
        // the global box encloses the local box's corners tightly; the model's world vertices lie in it
        std::vector<V3> lc, gv; for (auto& p : c->getBoundingBox(false).getPoints()) lc.push_back(pose.block<3, 3>(0, 0) * p.cast<double>() + pose.block<3, 1>(0, 3));
        double gt = tol + 2e-6 * pose.block<3, 1>(0, 3).norm();
        boxCheck(c->getBoundingBox(true), lc, gt, true, "model/global-box");
        for (auto& p : c->getModelVeticesGlobal()) gv.push_back(p.cast<double>());
        check(gv.size() == mv.size(), "model/global-vertex-count", "%d of %d", (int)gv.size(), (int)mv.size());
        double w = 0; for (size_t i = 0; i < gv.size() && i < mv.size(); i++) w = std::max(w, (gv[i] - (pose.block<3, 3>(0, 0) * mv[i] + pose.block<3, 1>(0, 3))).norm());
        checkNear(w, 0, gt, "model/global-vertices"); boxCheck(c->getBoundingBox(true), gv, gt, false, "model/global-box-vertices");
        // what the collision checker sees is the model at its pose: a probe box around one world vertex touches it
        if (k.closed && !gv.empty())
        {
            V3 q = gv[r.i(0, (int)gv.size() - 1)]; Mesh pb = boxMesh(V3::Constant(F(0.3 + 0.01 * e))); CollisionModelPtr p = meshCol(pb); M4 pp = toF(T(q(0), q(1), q(2))); p->setGlobalPose(f4(pp));
            check(CollisionChecker::getGlobalCollisionChecker()->checkCollision(c, p), "model/placed", "a small box around world vertex %s (pose %s) of the model does not collide with it", ms(q.transpose()).c_str(), ms(pose).c_str()); ev();
        }
        if (VisualizationNodePtr v = c->getVisualization()) { if (updVis && mdiff(visPose, pose) == 0) { BoundingBox vb = v->getBoundingBox(); std::vector<V3> vc; for (auto& p : v->getTriMeshModel()->boundingBox.getPoints()) vc.push_back(pose.block<3, 3>(0, 0) * p.cast<double>() + pose.block<3, 1>(0, 3)); boxCheck(vb, vc, gt, true, "visu/global-box"); if (!inflated) boxCheck(vb, gv, gt, false, "visu/encloses"); } check(v->getNumFaces() == (int)t->faces.size() && c->getNumFaces() == (int)t->faces.size(), "model/numFaces", "%d vs %d", v->getNumFaces(), (int)t->faces.size()); }
        sig(hm(op, f4(pose)));
    }
    count("model-histories"); sample("collision model: " + hist);
    // union of placed models
    if (r.p(0.4))
    {
        std::vector<CollisionModelPtr> cs; std::vector<V3> w; size_t nf = 0; for (int i = 0; i < r.i(1, 4); i++) { Mesh q = genMesh(r, e); cs.push_back(meshCol(q)); M4 p = toF(r.pose(e * 2)); cs.back()->setGlobalPose(f4(p)); nf += q.f.size(); for (auto& f : q.f) for (int a : f) w.push_back(p.block<3, 3>(0, 0) * q.v[a] + p.block<3, 1>(0, 3)); }
        at("united model of %d", (int)cs.size()); CollisionModelPtr u = CollisionModel::CreateUnitedCollisionModel(cs);
        if (check(u && u->getTriMeshModel(), "united/model", "none")) { check(u->getTriMeshModel()->faces.size() == nf, "united/faces", "%d faces, parts have %d", (int)u->getTriMeshModel()->faces.size(), (int)nf); boxCheck(u->getBoundingBox(false), w, tol * 3, true, "united/box"); } count("united");
    }
}
static void boxCase(Rng& r)
{
    double e = r.pick({1.0, 100.0, 2000.0}); std::vector<V3> pts; BoundingBox b; int n = r.i(0, 8); bool flat = r.p(0.2); int fa = r.i(0, 2); double fl = F(r.u(-e, e));
    auto pt = [&]() { V3 p = fv(r, e); if (flat) p(fa) = fl; return p; };
    if (r.p(0.5)) { std::vector<Eigen::Vector3f> v; for (int i = 0; i < n; i++) { pts.push_back(pt()); v.push_back(pts.back().cast<float>()); } b = BoundingBox(v); } else for (int i = 0; i < n; i++) { pts.push_back(pt()); b.addPoint(pts.back().cast<float>()); }
    at("bounding box of %d points flat %d", n, (int)flat); boxCheck(b, pts, 0, true, "bbox/points");
    for (int s = 0; s < r.i(0, 4); s++)
    {
        int op = r.i(0, 3);
        if (op == 0) { M4 m = toF(r.pose(e)); Eigen::Matrix4f m4 = f4(m); std::vector<V3> c; for (auto& p : b.getPoints()) c.push_back(m.block<3, 3>(0, 0) * p.cast<double>() + m.block<3, 1>(0, 3)); b.transform(m4); boxCheck(b, c, 1e-5 * e, true, "bbox/transform"); pts = c; flat = false; }
        else if (op == 1) { V3 f(F(r.u(0.2, 3)), F(r.u(0.2, 3)), F(r.u(0.2, 3))); if (r.p(0.4)) f(r.i(0, 2)) *= -1; b.scale(f.cast<float>()); for (auto& p : pts) p = p.cwiseProduct(f); boxCheck(b, pts, 1e-4 * e, true, "bbox/scale"); e *= 3; fl *= f(fa); }
        else if (op == 2) { BoundingBox o; std::vector<V3> op2; for (int i = 0; i < r.i(0, 5); i++) { op2.push_back(fv(r, e)); o.addPoint(op2.back().cast<float>()); } if (!op2.empty()) flat = false; b.addPoints(o); for (auto& p : op2) pts.push_back(p); boxCheck(b, pts, 1e-4 * e, true, "bbox/union"); }
        else if (r.p(0.2)) { b.clear(); pts.clear(); boxCheck(b, pts, 0, true, "bbox/clear"); }
    }
    if (!pts.empty())
    {
        Eigen::Vector3f lo = b.getMin(), hi = b.getMax();
        for (int i = 0; i < 30; i++)
        {
            V3 p; for (int k = 0; k < 3; k++) { double w = std::max((double)(hi(k) - lo(k)), 0.02 * e); p(k) = r.u(lo(k) - 0.5 * w, hi(k) + 0.5 * w); if (hi(k) == lo(k) && r.p(0.5)) p(k) = lo(k); }
            Eigen::Vector3f q = p.cast<float>(); int nanAx = r.i(0, 8); if (nanAx < 3) q(nanAx) = NAN;
            bool in = true, edge = false; for (int k = 0; k < 3; k++) if (k != nanAx) { double d = std::min(q(k) - lo(k), hi(k) - q(k)); if (d < 0) in = false; if (std::fabs(d) < 1e-4 * e && !(hi(k) == lo(k) && q(k) == lo(k))) edge = true; }
            if (edge) continue;
            check(b.isInside(q) == in, "bbox/isInside", "point %s in box [%s]-[%s]: reported %d", ms(q.transpose()).c_str(), ms(lo.transpose()).c_str(), ms(hi.transpose()).c_str(), (int)!in); count("inside-queries");
        }
        for (int i = 0; i < 10; i++)
        {
            V3 n2 = r.p(0.3) ? V3(V3::Unit(r.i(0, 2))) : r.dir(); V3 p0; for (int k = 0; k < 3; k++) p0(k) = F(r.u(lo(k) - 0.3 * e, hi(k) + 0.3 * e)); MathTools::Plane pl(p0.cast<float>(), n2.cast<float>());
            double mn = INFINITY, mx = -INFINITY; for (auto& p : b.getPoints()) { double d = n2.dot(p.cast<double>() - p0); mn = std::min(mn, d); mx = std::max(mx, d); }
            if (std::fabs(mn) < 1e-4 * e || std::fabs(mx) < 1e-4 * e) continue; check(b.planeGoesThrough(pl) == (mn < 0 && mx > 0), "bbox/plane", "corner distances %.4g..%.4g", mn, mx);
        }
    }
    else { MathTools::Plane pl(Eigen::Vector3f::Zero(), Eigen::Vector3f(0, 0, 1)); check(!b.planeGoesThrough(pl), "bbox/plane-empty", "a plane goes through nothing"); }
    sig(hmix(n, (uint64_t)(fl * 100))); count("boxes");
}
static void primCase(Rng& r)
{
    auto vf = VisualizationFactory::first(nullptr); int kind = r.i(0, 4); std::vector<V3> want; double tol = 1e-2;
    if (kind == 0 || kind == 1)
    {
        M4 p = toF(r.pose(500)); double w = F(r.u(1, 300)), h = F(r.u(1, 300)), d = F(r.u(1, 300)); TriMeshModelPtr m; size_t boxes = 1; std::vector<V3> pos(1, V3(0, 0, 0)); std::vector<Col> cols; for (int i = 0; i < r.i(0, 4); i++) cols.push_back(rcol(r)); Col def = rcol(r);
        if (kind == 0) m = TriMeshUtils::CreateBox(f4(p), w, h, d, def, cols); else { std::vector<Eigen::Vector3f> ps; pos.clear(); for (int i = 0; i < r.i(0, 5); i++) { pos.push_back(fv(r, 400)); ps.push_back(pos.back().cast<float>()); } boxes = pos.size(); m = TriMeshUtils::CreateSparseBoxGrid(f4(p), ps, w, h, d, def, cols); }
        at("box mesh kind %d %.2f %.2f %.2f", kind, w, h, d);
        if (!check(m && m->faces.size() == 12 * boxes, "prim/box-faces", "%d faces for %d boxes", m ? (int)m->faces.size() : -1, (int)boxes)) return;
        for (size_t b = 0; b < boxes; b++)
        {
            double vol = 0, area = 0; for (int i = 0; i < 12; i++)
            {
                auto& f = m->faces[b * 12 + i]; V3 q[3]; for (int k = 0; k < 3; k++) { if (!check(vid(f, k) < m->vertices.size() && cid(f, k) < m->colors.size(), "prim/box-index", "bad index")) return; q[k] = inv(p).block<3, 3>(0, 0) * (m->vertices[vid(f, k)].cast<double>() - p.block<3, 1>(0, 3)) - pos[b]; checkMat(V3(q[k].cwiseAbs()), V3(w / 2, h / 2, d / 2), tol, "prim/box-corner");
                    Col want = kind == 0 ? ((size_t)i < cols.size() ? cols[i] : def) : (b < cols.size() ? cols[b] : def); const Col& g = m->colors[cid(f, k)]; check(g.r == want.r && g.g == want.g && g.b == want.b && g.transparency == want.transparency, "prim/box-color", "box %d face %d", (int)b, i); }
                V3 n = (q[1] - q[0]).cross(q[2] - q[0]); area += n.norm() / 2; vol += q[0].dot(q[1].cross(q[2])) / 6; checkMat(V3(p.block<3, 3>(0, 0) * n.normalized()), V3(f.normal.cast<double>()), 2e-2, "prim/box-normal"); }
            checkNear(area, 2 * (w * h + h * d + w * d), 1e-3 * area + 1e-2, "prim/box-area"); checkNear(std::fabs(vol), w * h * d, 1e-3 * w * h * d + 0.1, "prim/box-volume");
        }
    }
    else if (kind == 2) { double w = F(r.u(1, 300)), h = F(r.u(1, 300)), d = F(r.u(1, 300)); at("createBox"); VisualizationNodePtr v = vf->createBox(w, h, d); want.push_back(V3(w / 2, h / 2, d / 2)); want.push_back(V3(-w / 2, -h / 2, -d / 2)); std::vector<V3> g; for (auto& p : v->getTriMeshModel()->vertices) g.push_back(p.cast<double>()); boxCheck(v->getBoundingBox(), want, tol, true, "prim/visu-box"); boxCheck(v->getTriMeshModel()->boundingBox, g, 0, true, "prim/visu-box-mesh"); }
    else if (kind == 3) { double rad = F(r.u(1, 200)); at("createSphere"); VisualizationNodePtr v = vf->createSphere(rad); double mx = 0; V3 lo = V3::Constant(1e9), hi = -lo; for (auto& p : v->getTriMeshModel()->vertices) { mx = std::max(mx, (double)p.norm()); check(p.norm() <= rad * 1.001 + 1e-3, "prim/sphere-outside", "vertex at %.4g of radius %.4g", p.norm(), rad); lo = lo.cwiseMin(p.cast<double>()); hi = hi.cwiseMax(p.cast<double>()); } checkNear(mx, rad, 1e-3 * rad + 1e-3, "prim/sphere-radius"); for (int k = 0; k < 3; k++) check(hi(k) > 0.9 * rad && lo(k) < -0.9 * rad, "prim/sphere-extent", "axis %d [%.3g %.3g] radius %.3g", k, lo(k), hi(k), rad); }
    else { double rad = F(r.u(1, 100)), h = F(r.u(1, 300)); at("createCylinder"); VisualizationNodePtr v = vf->createCylinder(rad, h); double mx = 0, my = 0; for (auto& p : v->getTriMeshModel()->vertices) { mx = std::max(mx, std::hypot((double)p(0), (double)p(2))); my = std::max(my, std::fabs((double)p(1))); } checkNear(mx, rad, 1e-3 * rad + 1e-3, "prim/cylinder-radius"); checkNear(my, h / 2, 1e-3 * h, "prim/cylinder-height"); }
    count("primitives"); sig(hmix(kind, r.next()));
}
static void put(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }
static void stlCase(Rng& r)
{
    double e = r.pick({0.01, 1.0, 200.0}); int n = r.pick({0, 1, 2, r.i(1, 40)}); std::vector<V3> pool; for (int i = 0; i < 3 + n; i++) pool.push_back(fv(r, e));
    if (r.p(0.3)) for (auto& p : pool) p(r.i(0, 2)) = 0;
    struct T2 { V3 p[3], n; bool deg; }; std::vector<T2> ts; for (int i = 0; i < n; i++) { T2 t; for (auto& p : t.p) p = r.pick(pool); if (r.p(0.06)) t.p[r.i(1, 2)] = t.p[0]; t.deg = t.p[0] == t.p[1] || t.p[0] == t.p[2] || t.p[1] == t.p[2]; V3 nn = (t.p[1] - t.p[0]).cross(t.p[2] - t.p[0]); t.n = r.p(0.1) ? V3(0, 0, 0) : nn.norm() > 1e-9 ? V3(nn.normalized()) : V3(0, 0, 1); for (int k = 0; k < 3; k++) t.n(k) = F(t.n(k)); ts.push_back(t); }
    bool bin = r.p(0.5); std::string s;
    if (bin)
    {
        s = r.p(0.3) ? "solid exported by some tool" : "binary"; s.resize(80, r.p(0.5) ? ' ' : '\0'); uint32_t c = n; put(s, &c, 4);
        for (auto& t : ts) { auto pv = [&](const V3& v) { for (int k = 0; k < 3; k++) { float f = v(k); put(s, &f, 4); } }; pv(t.n); for (auto& p : t.p) pv(p); uint16_t a = r.p(0.3) ? r.i(0, 65535) : 0; put(s, &a, 2); }
    }
    else
    {
        int style = r.i(0, 3); bool up = style == 3; const char* nl = r.p(0.3) ? "\r\n" : "\n"; std::string ind = r.pick({std::string("  "), std::string("\t"), std::string("")}); auto K = [&](const char* k) { std::string o = k; if (up) for (auto& c : o) c = toupper(c); return o; };
        auto num = [&](double v) { return style == 1 ? fmt("%.9e", v) : style == 2 ? fmt("%+.9g", v) : fmt("%.9g", v); };
        s = K("solid") + (r.p(0.5) ? " name" : "") + nl;
        for (auto& t : ts) { s += ind + K("facet normal") + " " + num(t.n(0)) + " " + num(t.n(1)) + " " + num(t.n(2)) + nl + ind + ind + K("outer loop") + nl; for (auto& p : t.p) s += ind + ind + ind + K("vertex") + " " + num(p(0)) + (r.p(0.1) ? "   " : " ") + num(p(1)) + " " + num(p(2)) + nl; s += ind + ind + K("endloop") + nl + ind + K("endfacet") + nl; }
        s += K("endsolid") + (r.p(0.5) ? " name" : "") + (r.p(0.8) ? nl : ""); if (up) count("stl-uppercase");
    }
    double sc = r.pick({1.0, 1000.0, 0.5}); TriMeshModelPtr m(new TriMeshModel()); STLReader rd; rd.setScaling(sc); bool ok; int via = r.i(0, 2); std::string fn;
    at("stl %s %d triangles via %d extent %.3g", bin ? "binary" : "text", n, via, e);
    if (via == 0) { std::istringstream is(s); ok = rd.read(is, bin ? STLReader::STLB : STLReader::STLA, m); }
    else { fn = S().scratch + fmt("/m%ld", S().caseIdx) + (via == 1 ? (r.p(0.3) ? ".STL" : ".stl") : bin ? ".stlb" : ".stla"); { std::ofstream f(fn, std::ios::binary); f << s; } ok = rd.read(fn, m); }
    std::string k = std::string("stl/") + (bin ? "binary" : "text");
    if (check(ok, k + "/read", "a valid file was not read"))
    {
        std::vector<const T2*> keep; for (auto& t : ts) if (!t.deg) keep.push_back(&t);
        if (check(m->faces.size() == keep.size(), k + "/faces", "%d faces, file holds %d (non-degenerate)", (int)m->faces.size(), (int)keep.size()))
            for (size_t i = 0; i < keep.size(); i++)
            {
                auto& f = m->faces[i]; for (int j = 0; j < 3; j++)
                {
                    if (!check(vid(f, j) < m->vertices.size(), k + "/vertex-index", "%u of %d", vid(f, j), (int)m->vertices.size())) break;
                    checkMat(m->vertices[vid(f, j)].cast<double>(), V3(keep[i]->p[j] * sc), 1e-6 * e * sc + 1e-9, k + "/vertex", fmt("face %d corner %d", (int)i, j));
                    if (check(nid(f, j) < m->normals.size(), k + "/normal-index", "face %d normal %d of %d", (int)i, (int)nid(f, j), (int)m->normals.size())) checkMat(m->normals[nid(f, j)].cast<double>(), keep[i]->n, 1e-5, k + "/normal", fmt("face %d", (int)i));
                }
            }
        std::vector<V3> all; for (auto& v : m->vertices) all.push_back(v.cast<double>()); boxCheck(m->boundingBox, all, 0, true, k + "/box");
        std::set<std::vector<float>> d; for (auto& v : m->vertices) d.insert({v(0), v(1), v(2)}); check(d.size() == m->vertices.size(), k + "/shared-vertices", "%d vertices, %d distinct", (int)m->vertices.size(), (int)d.size());
    }
    if (via && n > 0 && ok && r.p(0.3) && via == 1)   // through the visualization factory: metres to millimetres
    {
        VisualizationNodePtr v = VisualizationFactory::first(nullptr)->getVisualizationFromFile(fn); std::vector<V3> w; for (auto& t : ts) if (!t.deg) for (auto& p : t.p) w.push_back(p * 1000); size_t nf = w.size() / 3;
        if (check((bool)v, k + "/visualization", "none") && !w.empty() && e < 10 && v->getTriMeshModel()) { check(v->getTriMeshModel()->faces.size() == nf, k + "/visu-faces", "%d of %d", (int)v->getTriMeshModel()->faces.size(), (int)nf); boxCheck(v->getBoundingBox(), w, 1e-5 * e * 1000 + 1e-3, true, k + "/visu-box"); count("stl-visualization"); }
    }
    if (bin && n > 0)   // a file that ends early does not hold the announced triangles
    {
        std::string cut = s.substr(0, r.i(0, (int)s.size() - 3)); std::istringstream is(cut); TriMeshModelPtr q(new TriMeshModel()); bool got = false, threw = false; at("truncated stl %d of %d bytes", (int)cut.size(), (int)s.size());
        try { got = rd.read(is, STLReader::STLB, q); } catch (std::exception&) { threw = true; } check(!got || threw, "stl/truncated", "a binary file cut at byte %d of %d was read as complete (%d faces)", (int)cut.size(), (int)s.size(), (int)q->faces.size()); count("stl-truncated");
    }
    if (!fn.empty()) unlink(fn.c_str()); count(bin ? "stl-binary" : "stl-text"); sig(s.substr(0, 400)); sample(fmt("stl %s with %d triangles", bin ? "binary" : "text", n));
}
static void c11(Rng& r)
{
    switch (r.i(0, 9)) { case 0: case 1: case 2: opsCase(r); break; case 3: fattenCase(r); break; case 4: case 5: modelCase(r); break; case 6: boxCase(r); break; case 7: primCase(r); break; default: stlCase(r); }
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C11", c11, 24000, 600000}}); }
