// Common runtime for all monitors: PRNG, event/violation recording, case driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <stdexcept>
#include <mutex>
#include <unistd.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace vh
{
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; i++) next(); }
        uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        double u(double a, double b) { return a + (b - a) * u(); }
        float f(double a, double b) { return (float)u(a, b); }
        int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
        bool p(double pr) { return u() < pr; }
        template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
        template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + next() % v.size()); }
        double n() { double a = u(), b = u(); return std::sqrt(-2 * std::log(a + 1e-300)) * std::cos(6.283185307179586 * b); }
        Eigen::Vector3d dir() { Eigen::Vector3d v; do { v = Eigen::Vector3d(n(), n(), n()); } while (v.norm() < 1e-3); return v.normalized(); }
        Eigen::Matrix3d rot()   // uniform rotation, with emphasis on special ones
        {
            int k = i(0, 9);
            double ang = k == 0 ? 0 : k == 1 ? M_PI / 2 * i(-2, 2) : k == 2 ? u(-1e-3, 1e-3) : u(-M_PI, M_PI);
            Eigen::Vector3d ax = k <= 1 ? Eigen::Vector3d::Unit(i(0, 2)) : dir();
            return Eigen::AngleAxisd(ang, ax).toRotationMatrix();
        }
        Eigen::Matrix4d pose(double ext) { Eigen::Matrix4d m = Eigen::Matrix4d::Identity(); m.block<3, 3>(0, 0) = rot(); m.block<3, 1>(0, 3) = Eigen::Vector3d(u(-ext, ext), u(-ext, ext), u(-ext, ext)); return m; }
        template<class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[next() % k]); }
    };
    inline std::string fmt(const char* f, ...)
    {
        char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
    }
    struct State
    {
        FILE* log = nullptr; std::string prop; long caseIdx = -1; uint64_t seed = 1; bool thorough = false;
        std::map<std::string, long> counters; std::map<std::string, long> violCount; std::unordered_set<uint64_t> sigs;
        long evals = 0; int samples = 0; std::mutex mtx; std::string desc; std::string scratch;
    };
    inline State& S() { static State s; return s; }
    inline std::string esc(const std::string& s)
    {
        std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o;
    }
    inline void ev(long n = 1) { S().evals += n; }
    inline void count(const char* k, long n = 1) { std::lock_guard<std::mutex> l(S().mtx); S().counters[k] += n; }
    inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
    inline void sig(uint64_t h) { std::lock_guard<std::mutex> l(S().mtx); if (S().sigs.size() < 4000000) S().sigs.insert(h); }
    inline void sig(const std::string& s) { sig((uint64_t)std::hash<std::string>()(s)); }
    template<class M> uint64_t hm(uint64_t h, const M& m) { for (int i = 0; i < m.size(); i++) { h = hmix(h, (uint64_t)(int64_t)std::llround((double)m(i) * 1e4)); } return h; }
    // what the current case is doing, for crash reports
    inline void at(const std::string& s) { S().desc = s; }
    template<class... A> void at(const char* f, A... a) { S().desc = fmt(f, a...); }
    inline void sample(const std::string& s)
    {
        std::lock_guard<std::mutex> l(S().mtx);
        if (S().samples++ < 2 && S().log) { fprintf(S().log, "{\"t\":\"sample\",\"case\":%ld,\"v\":\"%s\"}\n", S().caseIdx, esc(s).c_str()); fflush(S().log); }
    }
    inline void viol(const std::string& key, const std::string& msg)
    {
        std::lock_guard<std::mutex> l(S().mtx);
        long& c = S().violCount[key];
        if (c++ < 3 && S().log) { fprintf(S().log, "{\"t\":\"viol\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\",\"at\":\"%s\"}\n", S().caseIdx, esc(key).c_str(), esc(msg).c_str(), esc(S().desc).c_str()); fflush(S().log); }
    }
    inline bool check(bool ok, const std::string& key, const char* f, ...)
    {
        S().evals++;
        if (ok) return true;
        char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        viol(key, b);
        return false;
    }
    inline bool near_(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }
    inline bool checkNear(double got, double want, double tol, const std::string& key, const std::string& what = "")
    {
        return check(near_(got, want, tol), key, "%s got %.9g want %.9g tol %.3g", what.c_str(), got, want, tol);
    }
    template<class A> std::string ms(const A& m) { std::ostringstream s; s.precision(9); Eigen::IOFormat f(9, Eigen::DontAlignCols, ",", ";"); s << m.format(f); return s.str(); }
    template<class A, class B> double mdiff(const A& a, const B& b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return INFINITY;
        double d = 0; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) { double e = std::fabs((double)a(i, j) - (double)b(i, j)); if (!(e <= d)) d = std::isnan(e) ? INFINITY : e; } return d;
    }
    template<class A, class B> bool checkMat(const A& got, const B& want, double tol, const std::string& key, const std::string& what = "")
    {
        S().evals++;
        double d = mdiff(got, want);
        if (d <= tol) return true;
        viol(key, fmt("%s maxdiff %.6g tol %.3g got [%s] want [%s]", what.c_str(), d, tol, ms(got).c_str(), ms(want).c_str()));
        return false;
    }
    // poses: rotation tolerance and translation tolerance
    template<class A, class B> bool checkPose(const A& got, const B& want, double rtol, double ptol, const std::string& key, const std::string& what = "")
    {
        S().evals++;
        double dr = mdiff(got.block(0, 0, 3, 3), want.block(0, 0, 3, 3)), dp = mdiff(got.block(0, 3, 3, 1), want.block(0, 3, 3, 1));
        double dl = mdiff(got.block(3, 0, 1, 4), want.block(3, 0, 1, 4));
        if (dr <= rtol && dp <= ptol && dl <= 1e-6) return true;
        viol(key, fmt("%s rotdiff %.6g posdiff %.6g got [%s] want [%s]", what.c_str(), dr, dp, ms(got).c_str(), ms(want).c_str()));
        return false;
    }
    struct Prop { const char* id; std::function<void(Rng&)> fn; long quick; long thorough; };
    inline uint64_t caseSeed(uint64_t seed, const std::string& p, long c) { uint64_t h = hmix(seed, 77); for (char ch : p) h = hmix(h, ch); return hmix(h, (uint64_t)c); }
    void seedLibrary(unsigned s);   // each harness seeds the library's own generators
    inline int run(int argc, char** argv, const std::vector<Prop>& props)
    {
        std::string prop, logf; long only = -1; int shard = 0, shards = 1; long cases = -1; long start = 0;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto nx = [&]() { return std::string(argv[++i]); };
            if (a == "--prop") prop = nx(); else if (a == "--log") logf = nx(); else if (a == "--seed") S().seed = strtoull(nx().c_str(), 0, 10);
            else if (a == "--case") only = atol(nx().c_str()); else if (a == "--shard") shard = atoi(nx().c_str()); else if (a == "--shards") shards = atoi(nx().c_str());
            else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--tier") S().thorough = nx() == "thorough"; else if (a == "--scratch") S().scratch = nx();
            else if (a == "--start") start = atol(nx().c_str());
        }
        if (S().scratch.empty()) S().scratch = ".";
        S().prop = prop;
        S().log = logf.empty() ? stderr : fopen(logf.c_str(), "a");
        if (!S().log) { perror("log"); return 3; }
        const Prop* P = nullptr; for (auto& p : props) if (prop == p.id) P = &p;
        if (!P) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 3; }
        long N = cases >= 0 ? cases : (S().thorough ? P->thorough : P->quick);
        long done = 0;
        auto one = [&](long c)
        {
            S().caseIdx = c; S().desc = "";
            fprintf(S().log, "{\"t\":\"case\",\"n\":%ld}\n", c); fflush(S().log);
            uint64_t cs = caseSeed(S().seed, prop, c);
            Rng rng(cs);
            srand((unsigned)cs); seedLibrary((unsigned)cs);
            try { P->fn(rng); }
            catch (std::exception& e) { viol(std::string("exception/") + std::string(e.what()).substr(0, 60), fmt("unexpected exception: %s", e.what())); }
            done++;
        };
        if (only >= 0) one(only);
        else for (long c = start; c < N; c++) { if (c % shards != shard) continue; one(c); if (S().violCount.size() >= 25) break; }
        fprintf(S().log, "{\"t\":\"stat\",\"cases\":%ld,\"evals\":%ld,\"counters\":{", done, S().evals);
        bool first = true; for (auto& k : S().counters) { fprintf(S().log, "%s\"%s\":%ld", first ? "" : ",", esc(k.first).c_str(), k.second); first = false; }
        fprintf(S().log, "}}\n{\"t\":\"sigs\",\"v\":[");
        first = true; for (auto h : S().sigs) { fprintf(S().log, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 16)); first = false; }
        fprintf(S().log, "]}\n{\"t\":\"end\"}\n"); fclose(S().log);
        fflush(stdout); fflush(stderr);
        _exit(0);   // skip static destructors of GUI libraries; every monitored object has been destroyed by its case
    }
}
