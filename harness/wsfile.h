// C17: files of every version, written and read back, truncated and damaged
namespace {
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
void spit(const std::string& f, const std::string& s) { std::ofstream(f, std::ios::binary) << s; }
struct Out { std::string s; std::vector<size_t> cut; std::map<std::string, size_t> field; void i32(int32_t v) { cut.push_back(s.size()); s.append((char*)&v, 4); } void f32(float v) { cut.push_back(s.size()); s.append((char*)&v, 4); } void str(const std::string& v) { i32(v.size()); s += v; } void mark(const char* n) { field[n] = s.size(); } };
std::string pairs(const std::string& d) { std::string o; for (size_t i = 0; i < d.size();) { size_t n = 1; while (i + n < d.size() && n < 255 && d[i + n] == d[i]) n++; o += (char)n; o += d[i]; i += n; } return o; }
WorkspaceRepresentationPtr fresh(int kind, RobotPtr rob) { if (kind == 1) return WorkspaceRepresentationPtr(new Manipulability(rob)); if (kind == 0) return WorkspaceRepresentationPtr(new Reachability(rob)); return WorkspaceRepresentationPtr(new WorkspaceRepresentation(rob)); }
struct Old { Fixture* f; int maj, min, kind; std::string type, measure = "PoseQualityManipulability"; float maxManip = 1; bool jl = false, sd = false; float alpha = 40, beta = 1; std::map<Vox, int> m; int loops = 5, cols = 0; bool noBase = false; };
std::string hist(const Old& o, Out* keep = nullptr)
{
    Out w; Fixture& f = *o.f; int ver = o.maj * 100 + o.min; w.str(o.type); w.mark("version"); w.i32(o.maj); w.i32(o.min); w.mark("robot"); w.str(f.s.rob->getType()); w.str("arm");
    if (ver > 100) { auto n = f.s.set->getAllRobotNodes(); w.mark("nodes"); w.i32(n.size()); for (auto& x : n) { w.f32(x->getJointLimitLo()); w.f32(x->getJointLimitHi()); } }
    w.str(f.s.tcp->getName()); if (ver > 100) w.str(f.s.base ? f.s.base->getName() : std::string()); w.str(f.w->getCollisionModelStatic() ? "colA" : "not set"); w.str(f.w->getCollisionModelDynamic() ? "colB" : "not set"); w.i32(o.loops); w.i32(o.cols); w.f32(f.dt); w.f32(f.dr); w.mark("voxels");
    for (int i = 0; i < 6; i++) w.i32(f.m.n[i]); int top = 0; for (auto& e : o.m) top = std::max(top, e.second); w.i32(o.m.size()); w.i32(top); for (int i = 0; i < 6; i++) { w.f32(f.mn[i]); w.f32(f.mx[i]); } for (int i = 0; i < 6; i++) { w.f32(f.mn[i] * 0.5f + f.mx[i] * 0.5f - 1); w.f32(f.mx[i] + 0.25f); }
    if (o.kind == 1 && ver >= 202) { w.str(o.measure); w.i32(o.jl); w.f32(o.maxManip); if (ver >= 203) { w.i32(o.sd); w.str(o.sd ? "colA" : "<not set>"); w.str(o.sd ? "colB" : "<not set>"); } if (ver >= 209) { w.f32(o.alpha); w.f32(o.beta); } }
    w.mark("data"); w.str("DATA_START"); size_t rot = (size_t)f.m.n[3] * f.m.n[4] * f.m.n[5], tr = (size_t)f.m.n[0] * f.m.n[1] * f.m.n[2]; std::string d(rot * tr, '\0');
    for (auto& e : o.m) { size_t p = 0; for (int i = 0; i < 6; i++) p = p * f.m.n[i] + e.first[i]; d[p] = (char)e.second; }
    auto rle = [](const std::string& x) { std::vector<unsigned char> b(x.size() * 3 + 16); int n = CompressionRLE::RLE_Compress((const unsigned char*)x.data(), b.data(), x.size()); return std::string((char*)b.data(), n); };
    w.mark("payload");
    if (ver <= 102) w.s += d; else if (ver <= 200) { auto c = pairs(d); w.i32(c.size()); w.s += c; } else if (ver <= 203) { auto c = rle(d); w.i32(c.size()); w.s += c; } else for (size_t t = 0; t < tr; t++) { auto c = rle(d.substr(t * rot, rot)); w.i32(c.size()); w.s += c; }
    w.mark("end"); w.str("DATA_END"); if (keep) *keep = w; return w.s;
}
template<class A> void sameMap(Rng& r, WorkspaceRepresentationPtr a, WorkspaceRepresentationPtr b, Fixture& f, const std::string& k, A)
{
    auto nm = [](auto p) { return p ? p->getName() : std::string("-"); }; check(nm(a->getBaseNode()) == nm(b->getBaseNode()), k + "/base", "base %s became %s", nm(a->getBaseNode()).c_str(), nm(b->getBaseNode()).c_str()); check(nm(a->getTcp()) == nm(b->getTcp()) && nm(a->getNodeSet()) == nm(b->getNodeSet()), k + "/nodes", "tcp or node set changed");
    check(nm(a->getCollisionModelStatic()) == nm(b->getCollisionModelStatic()) && nm(a->getCollisionModelDynamic()) == nm(b->getCollisionModelDynamic()), k + "/collision-sets", "collision sets changed"); check(a->getDiscretizeParameterRotation() == b->getDiscretizeParameterRotation() && a->getDiscretizeParameterTranslation() == b->getDiscretizeParameterTranslation(), k + "/steps", "steps changed");
    for (int i = 0; i < 6; i++) check(a->getMinBound(i) == b->getMinBound(i) && a->getMaxBound(i) == b->getMaxBound(i) && a->getNumVoxels(i) == b->getNumVoxels(i) && a->getVoxelSize(i) == b->getVoxelSize(i), k + "/bounds", "axis %d", i); auto oa = a->getOOBB(true), ob = b->getOOBB(true); check(oa.minBB == ob.minBB && oa.maxBB == ob.maxBB, k + "/achieved", "achieved extents changed");
    auto ma = boost::dynamic_pointer_cast<Manipulability>(a), mb = boost::dynamic_pointer_cast<Manipulability>(b); if (ma && mb) { bool ca, cb; RobotNodeSetPtr a1, a2, b1, b2; ma->getSelfDistConfig(ca, a1, a2); mb->getSelfDistConfig(cb, b1, b2); check(ma->getMeasureName() == mb->getMeasureName() && ma->getMaxManipulability() == mb->getMaxManipulability() && ma->consideringJointLimits() == mb->consideringJointLimits(), k + "/measure", "measure %s max %g limits %d became %s %g %d", ma->getMeasureName().c_str(), ma->getMaxManipulability(), (int)ma->consideringJointLimits(), mb->getMeasureName().c_str(), mb->getMaxManipulability(), (int)mb->consideringJointLimits()); check(ca == cb && (!ca || (nm(a1) == nm(b1) && nm(a2) == nm(b2))), k + "/self-distance", "self distance setup changed"); float p[2] = {0, 0}, q[2] = {0, 0}; auto ea = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(ma->getManipulabilityMeasure()), eb = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(mb->getManipulabilityMeasure()); if (ea && eb && ca) { ea->getSelfDistParameters(p[0], p[1]); eb->getSelfDistParameters(q[0], q[1]); check(p[0] == q[0] && p[1] == q[1], k + "/self-distance-weights", "%g,%g became %g,%g", p[0], p[1], q[0], q[1]); } }
    check(a->getData()->getVoxelFilledCount() == b->getData()->getVoxelFilledCount() && a->getMaxEntry() == b->getMaxEntry(), k + "/counters", "filled %u max %d became %u %d", a->getData()->getVoxelFilledCount(), a->getMaxEntry(), b->getData()->getVoxelFilledCount(), b->getMaxEntry()); long diff = 0; uint64_t h = 9; auto& m = f.m;
    for (int x = 0; x < m.n[0]; x++) for (int y = 0; y < m.n[1]; y++) for (int z = 0; z < m.n[2]; z++) for (int d = 0; d < m.n[3]; d++) for (int e = 0; e < m.n[4]; e++) for (int g = 0; g < m.n[5]; g++) { int p = a->getVoxelEntry(x, y, z, d, e, g), q = b->getVoxelEntry(x, y, z, d, e, g); if (p != q && diff++ < 2) check(false, k + "/entry", "entry of voxel %d,%d,%d,%d,%d,%d: %d became %d", x, y, z, d, e, g, p, q); if (p) h = hmix(hmix(h, p), ((x * 31 + y) * 31 + z) * 97 + d * 10 + e * 3 + g); }
    sig(h); count("compared");
}
void fill(Rng& r, Fixture& f)
{
    auto& m = f.m; int k = r.i(0, 4); int n = k == 0 ? 0 : k == 1 ? 1 : r.i(2, 80); for (int t = 0; t < n; t++) { if (r.p(0.4)) { randomConf(r, f.s); f.w->addCurrentTCPPose(); continue; } unsigned u[6]; for (int i = 0; i < 6; i++) u[i] = r.i(0, m.n[i] - 1); f.w->setVoxelEntry(u, r.p(0.3) ? r.pick({1, 255, 128}) : r.i(1, 255)); }
    if (k == 4) { for (int x = 0; x < m.n[0]; x++) for (int y = 0; y < m.n[1]; y++) for (int z = 0; z < m.n[2]; z++) for (int d = 0; d < m.n[3]; d++) for (int e = 0; e < m.n[4]; e++) for (int g = 0; g < m.n[5]; g++) { unsigned u[6] = {(unsigned)x, (unsigned)y, (unsigned)z, (unsigned)d, (unsigned)e, (unsigned)g}; if (r.p(0.8)) f.w->setVoxelEntry(u, r.i(1, 255)); } count("dense"); }
    if (r.p(0.1)) f.w->binarize();
}
void useLoaded(Rng& r, Fixture& f, WorkspaceRepresentationPtr w, const std::string& k)
{   // a loaded map goes on working
    Fixture g = f; g.w = w; g.m.m.clear(); g.m.touched.clear(); auto& m = g.m; for (int x = 0; x < m.n[0]; x++) for (int y = 0; y < m.n[1]; y++) for (int z = 0; z < m.n[2]; z++) { m.touched.insert({x, y, z}); for (int d = 0; d < m.n[3]; d++) for (int e = 0; e < m.n[4]; e++) for (int q = 0; q < m.n[5]; q++) { int v = w->getVoxelEntry(x, y, z, d, e, q); if (v) m.m[{x, y, z, d, e, q}] = v; } }
    m.mx = w->getMaxEntry(); m.staleMax = true; m.adjust = true; g.s.base = w->getBaseNode(); for (int t = 0; t < 6; t++) { M4 p = posNear(r, g); query(r, g, p, k); Vox v; M4 l = inv(baseG(g.s)) * p; int c = m.find(l, v, r); if (c < 0) continue; int e = r.i(1, 255); w->setEntry(f4(p), e); if (c == 1) m.set(v, e); query(r, g, p, k); } compareAll(r, g, k, true);
}
}
static void c17(Rng& r)
{
    seedLibrary(r.next()); srand(r.next()); std::string fn = S().scratch + fmt("/w%ld.bin", S().caseIdx), fn2 = fn + "2"; int kind = r.i(0, 2); Fixture f; f.s = genScene(r, r.p(0.2), r.p(0.5));
    int mode = r.i(0, 9);
    if (mode <= 3 || mode >= 8)
    {
        setup(r, f, r.p(0.05) ? 12 : 6, r.p(0.05) ? 10 : 4, r.p(0.5), kind == 0 ? -1 : kind == 1 ? 1 : 2, r.p(0.5)); if (f.m.ot != oHopf) { f.m.ot = oHopf; f.w->setOrientationType(WorkspaceRepresentation::Hopf); }
        if (kind == 1) { auto mp = boost::static_pointer_cast<Manipulability>(f.w); boost::shared_ptr<PoseQualityManipulability> me; if (r.p(0.5)) me.reset(new PoseQualityExtendedManipulability(f.s.set)); else me.reset(new PoseQualityManipulability(f.s.set)); if (r.p(0.4)) me->penalizeJointLimits(true); mp->setManipulabilityMeasure(me); mp->setMaxManipulability(r.f(0.1, 50)); if (r.p(0.4)) { mp->initSelfDistanceCheck(f.s.rob->getRobotNodeSet("colA"), f.s.rob->getRobotNodeSet("colB")); if (auto pe = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(me)) pe->considerObstacles(true, r.f(1, 60), r.f(0.1, 3)); count("self-distance"); } }
        if (kind == 1 && f.s.rob->getRobotNode(f.s.d.n[0].name)->getCollisionModel() == nullptr) boost::static_pointer_cast<Manipulability>(f.w)->initSelfDistanceCheck(RobotNodeSetPtr(), RobotNodeSetPtr()); if (kind == 1) boost::static_pointer_cast<Manipulability>(f.w)->initSelfDistanceCheck(f.s.rob->getRobotNode(f.s.d.n.back().name)->getCollisionModel() && f.s.rob->getRobotNode(f.s.d.n[0].name)->getCollisionModel() && r.p(0.5) ? f.s.rob->getRobotNodeSet("colA") : RobotNodeSetPtr(), f.s.rob->getRobotNodeSet("colB"));
        fill(r, f); at("save"); f.w->save(fn); RobotPtr rob = f.s.rob; WorkspaceRepresentationPtr b = fresh(kind, rob); at("load"); try { b->load(fn); } catch (std::exception& e) { check(false, "file/load", "a saved map could not be loaded: %s", e.what()); return; }
        sameMap(r, f.w, b, f, "file", 0); count("reloaded"); b->save(fn2); { std::string x = slurp(fn), y = slurp(fn2); size_t dp = x.find("DATA_START"); if (kind == 1) { bool cs; RobotNodeSetPtr p1, p2; boost::static_pointer_cast<Manipulability>(f.w)->getSelfDistConfig(cs, p1, p2); if (!cs && y.size() == x.size()) y.replace(dp - 12, 8, x, dp - 12, 8); /* weights that are not in use */ } dp = 0; while (dp < x.size() && dp < y.size() && x[dp] == y[dp]) dp++; check(x == y, "file/stable", "saving a loaded map gives another file (%zu and %zu bytes, from byte %zu, data from %zu)", x.size(), y.size(), dp, x.find("DATA_START")); }
        if (r.p(0.4)) { b->load(fn2); sameMap(r, f.w, b, f, "file-reload", 0); } else if (r.p(0.3)) { auto c = b->clone(); sameMap(r, b, c, f, "file-clone", 0); }
        if (mode <= 3) { useLoaded(r, f, b, "file-used"); sample(fmt("kind %d, %u filled of %dx%dx%dx%dx%dx%d, %zu bytes", kind, f.w->getData()->getVoxelFilledCount(), f.m.n[0], f.m.n[1], f.m.n[2], f.m.n[3], f.m.n[4], f.m.n[5], slurp(fn).size())); std::remove(fn.c_str()); std::remove(fn2.c_str()); return; }
        std::string s = slurp(fn); int n = r.i(3, 6);
        for (int t = 0; t < n; t++)
        {   // truncated and damaged files
            std::string q = s; bool cut = r.p(0.5); size_t dp = s.find("DATA_START"); size_t pos = 0; int32_t i32 = 0;
            if (cut) { q.resize(r.p(0.3) ? s.size() - r.i(1, std::min<int>(40, s.size())) : r.p(0.4) ? r.i(0, (int)std::min<size_t>(s.size() - 1, dp + 40)) : r.i(0, (int)s.size() - 1)); at("truncated to %zu of %zu", q.size(), s.size()); }
            else
            {
                int k = r.i(0, 5); if (k <= 2) { int m = r.i(1, 4); for (int j = 0; j < m; j++) { pos = dp + 10 + r.i(0, (int)(s.size() - dp - 11)); q[pos] ^= 1 << r.i(0, 7); } }
                else if (k == 3) { pos = r.i(0, 3); q[pos] ^= 1 << r.i(0, 7); pos = 0; }      // length of the type string
                else { size_t ty = 4 + *(int32_t*)&s[0]; int32_t rl = *(int32_t*)&s[ty + 8]; size_t rp = ty + 8 + 4 + rl; int w = r.i(0, 3); if (w == 0) { i32 = r.i(-5, 40); memcpy(&q[ty + (r.p(0.5) ? 0 : 4)], &i32, 4); pos = ty; } else if (w == 1) { i32 = r.pick({-1, 0, 1, 1000, INT_MAX, INT_MIN, 1 << 20}); memcpy(&q[ty + 8], &i32, 4); pos = ty + 8; } else if (w == 2) { i32 = r.pick({-1, 0, 1, 2, 1000, INT_MAX, INT_MIN}); memcpy(&q[rp], &i32, 4); pos = rp; } else { // a voxel count
                        float dt = f.dt; size_t vp = s.find(std::string((char*)&dt, 4)); if (vp == std::string::npos) continue; vp += 8; i32 = r.pick({-1, 0, 1, -1000, INT_MIN, f.m.n[0] + 1, f.m.n[0] - 1, 100000}); int ax = r.i(0, 5); memcpy(&q[vp + 4 * ax], &i32, 4); if (i32 == 100000) memcpy(&q[vp + 4 * (ax % 3 ? ax - 1 : ax + 1)], &i32, 4); pos = vp; count("bad-voxels"); } }
                at("damaged at %zu (data at %zu) value %d", pos, dp, (int)i32);
            }
            spit(fn2, q); auto c = fresh(kind, rob); bool threw = false; try { c->load(fn2); } catch (std::exception& e) { threw = true; } count(cut ? "truncated" : "damaged"); if (threw) count(cut ? "truncated-rejected" : "damaged-rejected");
            if (cut && q.size() < s.size()) check(threw, "file/truncated", "a file cut to %zu of %zu bytes (data from %zu) was loaded without an error", q.size(), s.size(), dp);
            if (!threw && q == s) sameMap(r, f.w, c, f, "file", 0); else { unsigned u[6]; for (int k = 0; k < 6; k++) u[k] = 0; if (!threw) { c->getEntry(Eigen::Matrix4f::Identity()); c->getVoxelEntry(0, 0, 0, 0, 0, 0); } else if (r.p(0.5)) c->getEntry(Eigen::Matrix4f::Identity()); }
            if (threw && r.p(0.3)) { c->load(fn); sameMap(r, f.w, c, f, "file-after-failure", 0); count("recovered"); }
        }
        std::remove(fn.c_str()); std::remove(fn2.c_str()); return;
    }
    // files of earlier versions
    static const int V[][2] = {{1, 0}, {1, 2}, {1, 3}, {2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}}; Old o; int vi = r.i(0, 7); o.maj = V[vi][0]; o.min = V[vi][1]; o.kind = kind; o.f = &f; setup(r, f, 6, 4, r.p(0.5), kind, true); f.m.ot = oRPY;
    f.w->setOrientationType(WorkspaceRepresentation::RPY); if (o.maj == 1 && o.min == 0 && f.s.base) { f.s.base.reset(); }
    o.type = kind == 1 ? "Manipulability Binary File" : kind == 2 ? r.pick({"WorkspaceRepresentation Binary File", "ReachabilitySpace Binary File"}) : r.pick({"Reachability Binary File", "Reachbaility Binary File", "ReachabilitySpace Binary File"}); if (kind == 2 && r.p(0.5)) o.type = "WorkspaceRepresentation Binary File";
    int n = r.p(0.2) ? 0 : r.i(1, 60); for (int t = 0; t < n; t++) { Vox v; for (int i = 0; i < 6; i++) v[i] = r.i(0, f.m.n[i] - 1); o.m[v] = r.p(0.2) ? 255 : r.i(1, 255); } if (kind == 1) { o.maxManip = r.f(0.1, 30); o.jl = r.p(0.5); o.sd = r.p(0.4); if (r.p(0.3)) o.measure = PoseQualityExtendedManipulability::getTypeName(); else o.measure = PoseQualityManipulability::getTypeName(); }
    Out lay; spit(fn, hist(o, &lay)); at("version %d.%d", o.maj, o.min); auto b = fresh(kind, f.s.rob); try { b->load(fn); } catch (std::exception& e) { check(false, "old/load", "a version %d.%d file was rejected: %s", o.maj, o.min, e.what()); return; } count("old"); count(fmt("old-%d.%d", o.maj, o.min).c_str());
    check((b->getBaseNode() ? b->getBaseNode()->getName() : "-") == (f.s.base ? f.s.base->getName() : "-"), "old/base", "base node of a version %d.%d file", o.maj, o.min); for (int i = 0; i < 6; i++) check(b->getMinBound(i) == f.mn[i] && b->getMaxBound(i) == f.mx[i] && b->getNumVoxels(i) == f.m.n[i], "old/bounds", "axis %d", i);
    if (kind == 1 && o.min >= 2 && o.maj == 2) { auto mp = boost::static_pointer_cast<Manipulability>(b); bool c; RobotNodeSetPtr x, y; mp->getSelfDistConfig(c, x, y); check(mp->getMaxManipulability() == o.maxManip && mp->getMeasureName() == o.measure && mp->consideringJointLimits() == o.jl && c == (o.sd && o.min >= 3), "old/measure", "version %d.%d: max %g measure %s limits %d self distance %d", o.maj, o.min, mp->getMaxManipulability(), mp->getMeasureName().c_str(), (int)mp->consideringJointLimits(), (int)c); }
    f.m.m = o.m; Fixture g = f; g.w = b; g.m.mx = g.m.top(); for (auto& e : o.m) g.m.touched.insert({e.first[0], e.first[1], e.first[2]}); for (int x = 0; x < f.m.n[0]; x++) for (int y = 0; y < f.m.n[1]; y++) for (int z = 0; z < f.m.n[2]; z++) g.m.touched.insert({x, y, z}); if (g.m.range < 1) g.m.range = 1;
    compareAll(r, g, "old", true); for (int k = 0; k < 8; k++) query(r, g, posNear(r, g), "old");
    if (r.p(0.5)) { b->save(fn2); auto c = fresh(kind, f.s.rob); try { c->load(fn2); sameMap(r, b, c, f, "old-saved", 0); Fixture h = g; h.w = c; for (int k = 0; k < 4; k++) query(r, h, posNear(r, h), "old-saved"); } catch (std::exception& e) { check(false, "old/resave", "a version %d.%d map could not be read again after saving: %s", o.maj, o.min, e.what()); } count("old-resaved"); }
    for (int t = 0; t < 3; t++)
    {
        std::string q = slurp(fn); size_t full = q.size(); bool cut = r.p(0.5); size_t pay = lay.field["payload"]; int mode2 = 0; size_t pos = 0;
        if (cut) q.resize(r.p(0.4) ? lay.cut[r.i(0, (int)lay.cut.size() - 1)] + r.i(0, 3) : r.i(0, (int)full - 1)); else { mode2 = r.i(0, 2); if (mode2 == 0 || lay.field["end"] <= pay + 1) { int32_t x = r.pick({-1, 0, INT_MAX, INT_MIN, 7, 100000}); pos = r.p(0.5) ? lay.field["robot"] : pay; memcpy(&q[pos], &x, 4); } else { for (int j = 0; j < 3; j++) { pos = pay + r.i(0, (int)(lay.field["end"] - pay - 1)); q[pos] = (char)r.i(0, 255); } } }
        if (cut && q.size() >= full) continue; spit(fn2, q); at("version %d.%d, cut %zu of %zu, damage %d at %zu (payload at %zu)", o.maj, o.min, q.size(), full, mode2, pos, pay); auto c = fresh(kind, f.s.rob); bool threw = false; try { c->load(fn2); } catch (std::exception&) { threw = true; } count(cut ? "old-truncated" : "old-damaged"); if (threw) count("old-rejected"); if (cut) check(threw, "old/truncated", "a version %d.%d file cut to %zu of %zu bytes was loaded without an error", o.maj, o.min, q.size(), full);
    }
    std::remove(fn.c_str()); std::remove(fn2.c_str());
}
