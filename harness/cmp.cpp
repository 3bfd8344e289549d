// C15: the two compressors used for stored data. Oracle: the input bytes themselves, and libbz2 as an independent peer.
#include "rob.h"
#include <VirtualRobot/VirtualRobot.h>
#include <VirtualRobot/VirtualRobotException.h>
#include <VirtualRobot/Compression/CompressionBZip2.h>
#include <VirtualRobot/Compression/CompressionRLE.h>
#include <bzlib.h>
#include <memory>
using namespace vh;
using namespace VirtualRobot;
typedef std::vector<unsigned char> Bytes;
typedef std::unique_ptr<unsigned char[]> Buf;   // exact-size heap blocks: any overrun is seen by the address sanitizer
static Buf exact(const Bytes& b) { Buf p(new unsigned char[b.size() ? b.size() : 1]); if (!b.empty()) memcpy(p.get(), b.data(), b.size()); return p; }

static Bytes genData(Rng& r, size_t n, int kind)
{
    Bytes b; b.reserve(n);
    int alpha = r.pick({1, 2, 3, 5, 16, 255, 256});
    switch (kind)
    {
        case 0: while (b.size() < n) b.push_back(r.i(0, alpha - 1)); break;                              // uniform over an alphabet
        case 1: while (b.size() < n) { int c = r.i(0, alpha - 1); int l = r.p(0.3) ? r.i(1, 6) : r.p(0.6) ? r.i(1, 300) : r.pick({127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 260, 32766, 32767, 32768, 32769, 65536}); while (l-- && b.size() < n) b.push_back(c); } break;  // runs
        case 2: while (b.size() < n) b.push_back(r.p(0.95) ? 0 : r.i(0, 255)); break;                   // sparse voxel rows
        case 3: { Bytes w; int wl = r.i(1, 40); for (int i = 0; i < wl; i++) w.push_back(r.i(0, 255)); while (b.size() < n) b.push_back(w[b.size() % wl]); } break;  // periodic
        case 4: while (b.size() < n) { for (int c = 0; c < 256 && b.size() < n; c++) for (int k = r.i(1, 4); k-- && b.size() < n;) b.push_back(c); } break;          // all symbols, short runs: marker escapes
        default: { int c = 0; while (b.size() < n) { c = r.p(0.7) ? c : (c + r.i(-3, 3)) & 255; b.push_back(c); } }
    }
    return b;
}
static void rle(Rng& r, const Bytes& d)
{
    Buf in = exact(d);
    size_t bound = d.size() * 257 / 256 + 1 + (d.size() * 257 % 256 ? 1 : 0);
    Buf out(new unsigned char[bound]);
    at(fmt("RLE %zu bytes", d.size()));
    int n = CompressionRLE::RLE_Compress(in.get(), out.get(), d.size());
    check(n >= 0 && (size_t)n <= bound, "rle-size", "RLE_Compress(%zu bytes) returned %d, worst case %zu", d.size(), n, bound);
    if (d.empty()) { check(n == 0, "rle-empty", "empty input gave %d bytes", n); return; }
    Bytes cb(out.get(), out.get() + n); Buf c2 = exact(cb);
    Buf back(new unsigned char[d.size()]); memset(back.get(), 0xA5, d.size());
    CompressionRLE::RLE_Uncompress(c2.get(), back.get(), n);
    check(!memcmp(back.get(), d.data(), d.size()), "rle-roundtrip", "RLE round trip of %zu bytes differs", d.size());
    Bytes in2(in.get(), in.get() + d.size()); check(in2 == d, "rle-input", "RLE_Compress changed its input");
    count("rle"); if (n > (int)d.size()) count("rle-expanded");
    sig(hmix(d.size(), hmix(n, d.size() ? d[d.size() / 2] : 0)));
}
static std::string compress(Rng& r, const Bytes& d, bool& ok, const std::string& prefix, int chunkMode)
{
    std::ostringstream os; os << prefix; ok = true;
    {
        CompressionBZip2 bz(&os); size_t p = 0;
        while (p < d.size())
        {
            size_t l = chunkMode == 0 ? d.size() : chunkMode == 1 ? r.i(1, 7) : chunkMode == 2 ? r.i(1, 6000) : r.pick({1, 4999, 5000, 5001, 10000, 100000});
            l = std::min(l, d.size() - p);
            Buf b = exact(Bytes(d.begin() + p, d.begin() + p + l));
            ok = ok && bz.write(b.get(), l); p += l;
        }
        char dummy; int got = 0;
        if (r.p(0.2)) check(!bz.read(&dummy, 1, got), "bz-mode", "reading from a compressor succeeded");
        if (r.p(0.2)) { check(!bz.write(nullptr, 5), "bz-null", "write(null) succeeded"); }
        if (r.p(0.5)) { ok = ok && bz.close(); if (r.p(0.3)) { check(!bz.write(&dummy, 1), "bz-closed", "write after close succeeded"); ok = ok && bz.close(); } }
    }
    return os.str();
}
enum End { DONE, FAIL, RUNAWAY };
// reads until a short read (end of data) or failure
static End expand(Rng& r, const std::string& s, size_t skip, Bytes& out, int chunkMode, size_t limit, bool& afterEnd)
{
    std::istringstream is(s); is.seekg(skip); afterEnd = false;
    CompressionBZip2 bz(&is);
    out.clear();
    for (long guard = 0; guard < 50000000; guard++)
    {
        int l = chunkMode == 0 ? (int)std::min<size_t>(limit + 10, 100000000) : chunkMode == 1 ? r.i(1, 7) : chunkMode == 2 ? r.i(1, 6000) : r.pick({1, 4999, 5000, 5001, 10000, 100000});
        Buf b(new unsigned char[l]); int got = -1;
        if (!bz.read(b.get(), l, got)) return FAIL;
        if (got < 0 || got > l) { viol("bz-readlen", fmt("read(maxLen=%d) stored length %d", l, got)); return RUNAWAY; }
        out.insert(out.end(), b.get(), b.get() + got);
        if (got < l) { int g2 = 0; bool again = bz.read(b.get(), l, g2); afterEnd = again && g2 > 0; return DONE; }
        if (out.size() > limit + 1000) return RUNAWAY;
    }
    return RUNAWAY;
}
static void bz(Rng& r, const Bytes& d)
{
    bool ok; std::string prefix(r.p(0.3) ? r.i(1, 200) : 0, 'x'); int wm = r.i(0, 3), rm = r.i(0, 3);
    if (d.size() > 100000) { if (wm == 1) wm = 2; if (rm == 1) rm = 2; }
    at(fmt("bzip2 %zu bytes, write mode %d, read mode %d", d.size(), wm, rm));
    std::string s = compress(r, d, ok, prefix, wm);
    check(ok, "bz-write", "compressing %zu bytes failed", d.size());
    check(s.size() > prefix.size() && s.compare(0, prefix.size(), prefix) == 0, "bz-prefix", "bytes already in the stream changed, or nothing written for %zu bytes", d.size());
    Bytes out; bool after;
    End e = expand(r, s, prefix.size(), out, rm, d.size(), after);
    // when the data end falls on a read boundary, the end shows as a short (possibly empty) read or as a failing one
    if (e == FAIL) check(out.size() == d.size(), "bz-read", "reading failed after %zu of %zu bytes (write mode %d, read mode %d)", out.size(), d.size(), wm, rm);
    check(e != RUNAWAY, "bz-runaway", "reader of %zu bytes delivered %zu and more", d.size(), out.size());
    check(out == d, "bz-roundtrip", "bzip2 round trip of %zu bytes gave %zu %s bytes (write mode %d, read mode %d)", d.size(), out.size(), out.size() == d.size() ? "different" : "", wm, rm);
    check(!after, "bz-after-end", "data delivered after the end");
    count("bz"); if (d.size() > 900000) count("bz-multiblock");
    sig(hmix(d.size(), hmix(s.size(), s.size() > 20 ? (unsigned char)s[s.size() / 2] : 0)));
    // independent peer reads our stream, we read the peer's
    {
        std::vector<char> pb(d.size() + 100); unsigned len = pb.size(); std::string body = s.substr(prefix.size());
        int rc = BZ2_bzBuffToBuffDecompress(pb.data(), &len, (char*)body.data(), body.size(), 0, 0);
        check(rc == BZ_OK && len == d.size() && !memcmp(pb.data(), d.data(), d.size()), "bz-peer-reads", "libbz2 reading our stream of %zu bytes: code %d, %u bytes", d.size(), rc, len);
        std::vector<char> cb(d.size() * 1.02 + 1000); len = cb.size();
        rc = BZ2_bzBuffToBuffCompress(cb.data(), &len, (char*)d.data(), d.size(), r.i(1, 9), 0, r.i(0, 250));
        if (rc == BZ_OK)
        {
            std::string ps(cb.data(), len); e = expand(r, ps, 0, out, rm, d.size(), after);
            check(e != RUNAWAY && out == d, "bz-reads-peer", "reading libbz2's stream of %zu bytes gave %zu bytes", d.size(), out.size()); count("bz-peer");
        }
    }
}
static void corrupt(Rng& r, const Bytes& d)
{
    bool ok; std::string s = compress(r, d, ok, "", 0); if (!ok) return;
    if (r.p(0.4)) { std::vector<char> cb(d.size() * 1.02 + 1000); unsigned len = cb.size(); if (BZ2_bzBuffToBuffCompress(cb.data(), &len, (char*)d.data(), d.size(), 1, 0, 0) == BZ_OK) s.assign(cb.data(), len); }
    for (int k = 0; k < 12; k++)
    {
        std::string t = s; std::string what; bool trunc = false;
        auto flip = [&](size_t bit) { if (bit / 8 < t.size()) t[bit / 8] ^= 0x80 >> (bit % 8); };
        switch (r.i(0, 5))
        {
            case 0: { size_t n = r.i(0, (int)t.size() - 1); t.resize(n); trunc = true; what = fmt("truncated to %zu of %zu", n, s.size()); } break;
            case 1: { size_t b = r.i(0, (int)t.size() * 8 - 1); flip(b); what = fmt("bit %zu of %zu flipped", b, t.size() * 8); } break;
            case 2: { size_t b = r.i(0, std::min<int>(t.size() * 8 - 1, 700)); flip(b); what = fmt("bit %zu (header) flipped", b); } break;
            case 3: { int n = r.i(2, 30); for (int i = 0; i < n; i++) flip(r.i(32, (int)t.size() * 8 - 1)); what = "several bits flipped"; } break;
            case 4: { size_t p = r.i(4, (int)t.size() - 1); for (size_t i = p; i < t.size() && i < p + 400; i++) t[i] = r.i(0, 255); what = fmt("garbage from byte %zu", p); } break;
            case 5:
            {
                // too many selectors: the count field is set to its maximum and the list that follows consists of zero bits
                std::string body = s; size_t bit = 32 + 48 + 32 + 1 + 24; auto get = [&](size_t b) { return b / 8 < body.size() ? (body[b / 8] >> (7 - b % 8)) & 1 : 0; };
                int used = 0; for (int i = 0; i < 16; i++) used += get(bit + i); bit += 16 + 16 * used + 3;
                if (t.size() * 8 > bit + 15) { int v = r.pick({18001, 18002, 18003, 18004, 20000, 32767}); for (int i = 0; i < 15; i++) if (get(bit + i) != ((v >> (14 - i)) & 1)) flip(bit + i); size_t nb = (bit + 15) / 8 + 1; t.resize(nb); t.append(6000, '\0'); t.append(s.substr(std::min(s.size() - 1, nb))); what = fmt("%d selectors", v); }
            } break;
        }
        if (t == s) continue;
        at("corrupted bzip2 stream: " + what + fmt(" (%zu bytes of data)", d.size()));
        Bytes out; bool after; End e = FAIL;
        try { e = expand(r, t, 0, out, r.pick({2, 3}), 200000000, after); } catch (VirtualRobotException&) { count("rejected-open"); continue; }
        if (e == FAIL && out.size() == d.size() && out == d) { count("end-as-failure"); continue; }
        if (e == FAIL) { count("rejected"); ev(); continue; }
        check(e == DONE && out == d && !trunc, "bz-corrupt-accepted", "%s: read reported success with %zu bytes, original %zu bytes", what.c_str(), out.size(), d.size());
    }
    count("corrupted"); sig(hmix(s.size(), r.next()));
}
static void C15(Rng& r)
{
    long c = S().caseIdx; bool big = c % 40 == 7;
    size_t n = big ? r.i(800000, 2000000) : r.p(0.1) ? r.i(0, 3) : r.p(0.4) ? r.i(1, 600) : r.i(1, 70000);
    Bytes d = genData(r, n, r.i(0, 5));
    if (c == 0) sample(fmt("%zu bytes", n));
    rle(r, d);
    for (int i = 0; i < 8; i++) rle(r, genData(r, r.i(0, 300), r.i(0, 5)));
    bz(r, d);
    if (!big && d.size() > 0) corrupt(r, r.p(0.3) ? genData(r, r.i(1, 20000), 0) : d);
}
int main(int c, char** v) { VirtualRobot::init("vh"); return run(c, v, {{"C15", C15, 600, 6000}}); }
