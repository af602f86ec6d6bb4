// Check-sums over a noisy link (P18, P19) and bit-fields (P20), also interrupted (P21).
#include "core.hpp"
#include <qlibs.h>
#include <algorithm>
#include <csetjmp>
using namespace sim;
using namespace qlibs;

namespace {
// ------------------------------------------------------------------ catalogue (published parameters and check values)
struct Alg { const char* name; int width; uint32_t poly, init; bool refIn, refOut; uint32_t xorOut, check; uint32_t (*fn)(const void*, size_t); };
#define A8(n) [](const void* d, size_t l) -> uint32_t { return crc::n(d, l); }
const Alg CAT[] = {
    {"crc8", 8, 0x07, 0, false, false, 0, 0xF4, A8(crc8)},
    {"crc8_CDMA2000", 8, 0x9B, 0xFF, false, false, 0, 0xDA, A8(crc8_CDMA2000)},
    {"crc8_DARC", 8, 0x39, 0, true, true, 0, 0x15, A8(crc8_DARC)},
    {"crc8_DVS_S2", 8, 0xD5, 0, false, false, 0, 0xBC, A8(crc8_DVS_S2)},
    {"crc8_EBU", 8, 0x1D, 0xFF, true, true, 0, 0x97, A8(crc8_EBU)},
    {"crc8_I_CODE", 8, 0x1D, 0xFD, false, false, 0, 0x7E, A8(crc8_I_CODE)},
    {"crc8_ITU", 8, 0x07, 0, false, false, 0x55, 0xA1, A8(crc8_ITU)},
    {"crc8_MAXIM", 8, 0x31, 0, true, true, 0, 0xA1, A8(crc8_MAXIM)},
    {"crc8_ROHC", 8, 0x07, 0xFF, true, true, 0, 0xD0, A8(crc8_ROHC)},
    {"crc8_WCDMA", 8, 0x9B, 0, true, true, 0, 0x25, A8(crc8_WCDMA)},
    {"crc16_CCITT_FALSE", 16, 0x1021, 0xFFFF, false, false, 0, 0x29B1, A8(crc16_CCITT_FALSE)},
    {"crc16_ARC", 16, 0x8005, 0, true, true, 0, 0xBB3D, A8(crc16_ARC)},
    {"crc16_AUG_CCITT", 16, 0x1021, 0x1D0F, false, false, 0, 0xE5CC, A8(crc16_AUG_CCITT)},
    {"crc16_BUYPASS", 16, 0x8005, 0, false, false, 0, 0xFEE8, A8(crc16_BUYPASS)},
    {"crc16_CDMA2000", 16, 0xC867, 0xFFFF, false, false, 0, 0x4C06, A8(crc16_CDMA2000)},
    {"crc16_DDS_110", 16, 0x8005, 0x800D, false, false, 0, 0x9ECF, A8(crc16_DDS_110)},
    {"crc16_DECT_R", 16, 0x0589, 0, false, false, 1, 0x007E, A8(crc16_DECT_R)},
    {"crc16_DECT_X", 16, 0x0589, 0, false, false, 0, 0x007F, A8(crc16_DECT_X)},
    {"crc16_DNP", 16, 0x3D65, 0, true, true, 0xFFFF, 0xEA82, A8(crc16_DNP)},
    {"crc16_EN_13757", 16, 0x3D65, 0, false, false, 0xFFFF, 0xC2B7, A8(crc16_EN_13757)},
    {"crc16_GENIBUS", 16, 0x1021, 0xFFFF, false, false, 0xFFFF, 0xD64E, A8(crc16_GENIBUS)},
    {"crc16_MAXIM", 16, 0x8005, 0, true, true, 0xFFFF, 0x44C2, A8(crc16_MAXIM)},
    {"crc16_MCRF4XX", 16, 0x1021, 0xFFFF, true, true, 0, 0x6F91, A8(crc16_MCRF4XX)},
    {"crc16_RIELLO", 16, 0x1021, 0xB2AA, true, true, 0, 0x63D0, A8(crc16_RIELLO)},
    {"crc16_T10_DIF", 16, 0x8BB7, 0, false, false, 0, 0xD0DB, A8(crc16_T10_DIF)},
    {"crc16_TELEDISK", 16, 0xA097, 0, false, false, 0, 0x0FB3, A8(crc16_TELEDISK)},
    {"crc16_TMS37157", 16, 0x1021, 0x89EC, true, true, 0, 0x26B1, A8(crc16_TMS37157)},
    {"crc16_USB", 16, 0x8005, 0xFFFF, true, true, 0xFFFF, 0xB4C8, A8(crc16_USB)},
    {"crc16_A", 16, 0x1021, 0xC6C6, true, true, 0, 0xBF05, A8(crc16_A)},
    {"crc16_KERMIT", 16, 0x1021, 0, true, true, 0, 0x2189, A8(crc16_KERMIT)},
    {"crc16_MODBUS", 16, 0x8005, 0xFFFF, true, true, 0, 0x4B37, A8(crc16_MODBUS)},
    {"crc16_X_25", 16, 0x1021, 0xFFFF, true, true, 0xFFFF, 0x906E, A8(crc16_X_25)},
    {"crc16_XMODEM", 16, 0x1021, 0, false, false, 0, 0x31C3, A8(crc16_XMODEM)},
    {"crc32", 32, 0x04C11DB7, 0xFFFFFFFF, true, true, 0xFFFFFFFF, 0xCBF43926, A8(crc32)},
    {"crc32_BZIP2", 32, 0x04C11DB7, 0xFFFFFFFF, false, false, 0xFFFFFFFF, 0xFC891918, A8(crc32_BZIP2)},
    {"crc32_C", 32, 0x1EDC6F41, 0xFFFFFFFF, true, true, 0xFFFFFFFF, 0xE3069283, A8(crc32_C)},
    {"crc32_D", 32, 0xA833982B, 0xFFFFFFFF, true, true, 0xFFFFFFFF, 0x87315576, A8(crc32_D)},
    {"crc32_JAMCRC", 32, 0x04C11DB7, 0xFFFFFFFF, true, true, 0, 0x340BC6D9, A8(crc32_JAMCRC)},
    {"crc32_MPEG2", 32, 0x04C11DB7, 0xFFFFFFFF, false, false, 0, 0x0376E6E7, A8(crc32_MPEG2)},
    {"crc32_POSIX", 32, 0x04C11DB7, 0, false, false, 0xFFFFFFFF, 0x765E7680, A8(crc32_POSIX)},
    {"crc32_Q", 32, 0x814141AB, 0, false, false, 0, 0x3010BF7F, A8(crc32_Q)},
    {"crc32_XFER", 32, 0x000000AF, 0, false, false, 0, 0xBD0BE338, A8(crc32_XFER)},
};
constexpr int NCAT = int(sizeof CAT / sizeof CAT[0]);

// Remote node: bit-serial shift register fed with the bits in transmission order.
uint32_t refCrc(const uint8_t* d, size_t n, int w, uint32_t poly, uint32_t init, bool rin, bool rout, uint32_t xo) {
    const uint64_t m = (w == 32) ? 0xFFFFFFFFull : ((1ull << w) - 1);
    uint64_t reg = init & m, pl = poly & m;
    for (size_t i = 0; i < n; ++i) for (int b = 0; b < 8; ++b) {
        unsigned bit = rin ? (d[i] >> b) & 1u : (d[i] >> (7 - b)) & 1u;
        unsigned fb = unsigned(reg >> (w - 1)) & 1u;
        reg = (reg << 1) & m;
        if (bit ^ fb) reg ^= pl;
    }
    uint64_t o = reg;
    if (rout) { o = 0; for (int b = 0; b < w; ++b) if (reg >> b & 1) o |= 1ull << (w - 1 - b); }
    return uint32_t((o ^ xo) & m);
}
uint32_t refCrc(const Alg& a, const uint8_t* d, size_t n) { return refCrc(d, n, a.width, a.poly, a.init, a.refIn, a.refOut, a.xorOut); }
// remainder of an error pattern (bits in transmission order) modulo the polynomial
uint32_t errRem(const std::vector<uint8_t>& bits, int w, uint32_t poly) {
    const uint64_t m = (w == 32) ? 0xFFFFFFFFull : ((1ull << w) - 1);
    uint64_t reg = 0;
    for (uint8_t b : bits) { unsigned top = unsigned(reg >> (w - 1)) & 1u; reg = ((reg << 1) | b) & m; if (top) reg ^= poly & m; }
    return uint32_t(reg);
}
void selfCheck() {
    for (auto& a : CAT) if (refCrc(a, reinterpret_cast<const uint8_t*>("123456789"), 9) != a.check) { fprintf(stderr, "oracle catalogue wrong for %s\n", a.name); abort(); }
}
// message contents
void fillMsg(uint8_t* d, size_t n, int kind, uint64_t seed) {
    Rng r(seed);
    switch (kind) {
        case 0: memset(d, 0, n); break;
        case 1: memset(d, 0xFF, n); break;
        case 2: memset(d, 0, n); if (n) { size_t b = size_t(r.next() % (n * 8)); d[b / 8] = uint8_t(1u << (b % 8)); } break;
        case 3: for (size_t i = 0; i < n; ++i) d[i] = uint8_t(i + seed); break;
        case 4: for (size_t i = 0; i < n; ++i) d[i] = uint8_t(r.chance(0.9) ? 0 : r.next()); break;
        case 5: { uint8_t v = uint8_t(seed); memset(d, v, n); break; }
        default: for (size_t i = 0; i < n; ++i) d[i] = uint8_t(r.next()); break;
    }
}
// Rewrites the bytes before position 'at' so that the shift register holds a chosen value there (0, ones, a value whose
// check-sum is zero, half-empty ones): values random messages practically never reach at width 32.
void steer(uint8_t* d, size_t n, int w, uint32_t poly, uint32_t init, bool rin, bool rout, uint32_t xo, int target, uint64_t pos) {
    size_t k = size_t(w) / 8; if (n < k || target <= 0) return;
    size_t at = pos % 3 == 0 ? n : k + size_t(pos / 3) % (n - k + 1); const uint32_t m = w == 32 ? 0xFFFFFFFFu : (1u << w) - 1;
    uint32_t zero = xo & m; if (rout) { uint32_t o = 0; for (int b = 0; b < w; ++b) if (zero >> b & 1) o |= 1u << (w - 1 - b); zero = o; }      // register giving check-sum 0
    const uint32_t T[] = {0, 0, 0xFFFFFFFFu, zero, 0x0000FFFFu, 0xFFFF0000u, 0x80000000u >> (32 - w), 1, 0xFFu, 0xFF000000u >> (32 - w), init, poly, ~zero};
    uint32_t want = T[target % 13] & m, cur = refCrc(d, at - k, w, poly, init, rin, false, 0); std::vector<uint8_t> z(k, 0);
    want ^= refCrc(z.data(), k, w, poly, cur, rin, false, 0);
    std::vector<uint64_t> row;      // low half: effect on the register, high half: which input bit
    for (int b = 0; b < w; ++b) { z.assign(k, 0); z[size_t(b) / 8] = uint8_t(1u << (b % 8)); row.push_back(uint64_t(refCrc(z.data(), k, w, poly, 0, rin, false, 0)) | (uint64_t(1) << (32 + b))); }
    uint64_t sol = want;
    for (int bit = w - 1; bit >= 0; --bit) {
        size_t q = 0; while (q < row.size() && !(row[q] >> bit & 1)) ++q;
        if (q == row.size()) continue;
        uint64_t v = row[q]; row.erase(row.begin() + long(q)); for (auto& o : row) if (o >> bit & 1) o ^= v; if (sol >> bit & 1) sol ^= v;
    }
    if (uint32_t(sol) != 0) return;                                                   // this polynomial cannot get there
    for (size_t i = 0; i < k; ++i) d[at - k + i] = uint8_t(sol >> (32 + 8 * i));
}
size_t genLen(Rng& r) { double c = r.uni(); if (c < 0.5) return size_t(r.range(1, 16)); if (c < 0.8) return size_t(r.range(1, 80)); if (c < 0.97) return size_t(r.range(60, 600)); if (c < 0.995) return size_t(r.range(600, 5000)); return size_t(r.range(65500, 70000)); }

// ------------------------------------------------------------------ P18 link
// Sender node and receiver node; each may run the library or be a remote bit-serial implementation.
struct Frame { std::vector<uint8_t> wire, sent; bool damaged = false; };
void exec18(const Plan& p) {
    selfCheck();
    int alg = 0; bool libTx = true, libRx = true; std::vector<Frame> ch; std::vector<std::vector<uint8_t>> sent;
    auto sum = [&](bool useLib, const uint8_t* d, size_t n, int off) -> uint32_t {
        const Alg& a = CAT[alg];
        if (!useLib) return refCrc(a, d, n);
        uint8_t* buf = arr<uint8_t>(n + size_t(off)); memcpy(buf + off, d, n);       // exact-size buffer, any alignment
        lib(); uint32_t v = a.fn(buf + off, n);
        if (memcmp(buf + off, d, n) != 0) fail("link.modified", "%s modified the frame", a.name);
        return v;
    };
    auto deliver = [&](const Frame& f, int off) {
        const Alg& a = CAT[alg]; size_t w = size_t(a.width) / 8; if (f.wire.size() <= w) return;
        size_t n = f.wire.size() - w; uint32_t v = sum(libRx, f.wire.data(), n, off), got = 0;
        for (size_t i = 0; i < w; ++i) got |= uint32_t(f.wire[n + i]) << (8 * (a.refOut ? i : w - 1 - i));
        bool acc = v == got; observe(uint64_t(v)); sh->compares++;
        if (f.damaged && acc) fail("link.accepted", "%s accepted a %zu-byte frame with an error it must detect (check-sum %#x)", a.name, n, v);
        if (!f.damaged && !acc) fail("link.rejected", "%s rejected an intact %zu-byte frame (sent %#x, computed %#x)", a.name, n, got, v);
        cover(1800, uint64_t(alg), n < 20 ? n : 20 + uint64_t(std::log2(double(n))), (f.damaged ? 1 : 0) + 2 * uint64_t(off));
    };
    for (auto& s : p.s) {
        const Alg& a = CAT[alg]; size_t w = size_t(a.width) / 8;
        switch (s.h) {
            case H("alg"): alg = int(s.n(0, 0, NCAT - 1)); libTx = s.n(1, 0, 3) != 1; libRx = s.n(1, 0, 3) != 2; ch.clear(); break;
            case H("send"): {
                size_t n = size_t(s.n(0, 1, 80000)); Frame f; f.wire.resize(n); fillMsg(f.wire.data(), n, int(s.n(1, 0, 6)), uint64_t(s.arg(2)));
                steer(f.wire.data(), n, a.width, a.poly, a.init, a.refIn, a.refOut, a.xorOut, int(s.n(4, 0, 12)), uint64_t(s.arg(5)));
                uint32_t v = sum(libTx, f.wire.data(), n, int(s.n(3, 0, 7)));
                for (size_t i = 0; i < w; ++i) f.wire.push_back(uint8_t(v >> (8 * (a.refOut ? i : w - 1 - i))));
                f.sent = f.wire; ch.push_back(f); simtime(0.001 * double(n)); break;
            }
            case H("burst"): case H("bits"): {                                        // damage a frame in flight
                if (ch.empty()) break;
                Frame& f = ch[size_t(s.n(0, 0, 1000000)) % ch.size()]; size_t nb = f.wire.size() * 8; Rng r(uint64_t(s.arg(1)));
                std::vector<size_t> pos;
                if (s.h == H("burst")) {
                    int len = int(s.n(2, 1, a.width)); size_t at = size_t(r.next() % (nb - size_t(len) + 1)); if (s.n(3, 0, 3) == 1) at = nb - size_t(len) - size_t(r.below(uint32_t(std::min<size_t>(nb - size_t(len) + 1, size_t(a.width))))); if (s.n(3, 0, 3) == 2) at = 0;
                    pos.push_back(at); if (len > 1) pos.push_back(at + size_t(len) - 1);
                    for (int i = 1; i + 1 < len; ++i) if (r.chance(0.5)) pos.push_back(at + size_t(i));
                    fault(F_LINK_BURST);
                } else {
                    long k = s.n(2, 1, 64, 1); for (long i = 0; i < k; ++i) { size_t q = size_t(r.next() % nb); if (std::find(pos.begin(), pos.end(), q) == pos.end()) pos.push_back(q); }
                    fault(F_LINK_BITS);
                }
                for (size_t q : pos) f.wire[q / 8] ^= uint8_t(a.refIn ? 1u << (q % 8) : 0x80u >> (q % 8));
                break;
            }
            case H("dup"): if (!ch.empty()) { ch.push_back(ch[size_t(s.n(0, 0, 1000000)) % ch.size()]); fault(F_LINK_DUP); } break;
            case H("swap"): if (ch.size() > 1) { size_t i = size_t(s.n(0, 0, 1000000)) % ch.size(); std::swap(ch[0], ch[i]); fault(F_LINK_REORDER); } break;
            case H("trunc"): if (!ch.empty()) { Frame f = ch[0]; size_t k = size_t(s.n(0, 1, 100000)); if (f.wire.size() > k) { f.wire.resize(f.wire.size() - k); if (f.wire.size() > w) { lib(); volatile uint32_t z = sum(true, f.wire.data(), f.wire.size() - w, 0); (void)z; fault(F_LINK_TRUNC); } } } break;
            case H("recv"): {
                while (!ch.empty()) {
                    Frame f = ch.front(); ch.erase(ch.begin());
                    std::vector<uint8_t> e; e.reserve(f.wire.size() * 8); bool any = false;
                    for (size_t i = 0; i < f.wire.size(); ++i) { uint8_t x = uint8_t(f.wire[i] ^ f.sent[i]); any |= x != 0; for (int b = 0; b < 8; ++b) e.push_back(uint8_t(a.refIn ? x >> b & 1 : x >> (7 - b) & 1)); }
                    f.damaged = any;
                    if (any && errRem(e, a.width, a.poly) == 0) { sh->skipped++; continue; }  // beyond what any check-sum of this polynomial can detect
                    deliver(f, int(s.n(0, 0, 7)));
                }
                break;
            }
        }
    }
}
void gen18(Rng& r, Plan& p) {
    int rounds = r.range(1, 4);
    while (rounds--) {
        p.add("alg", {double(r.below(NCAT)), double(r.below(4))});
        int n = r.range(2, 12);
        for (int i = 0; i < n; ++i) {
            int k = r.range(1, 3);
            while (k--) p.add("send", {double(genLen(r)), double(r.below(10)), double(r.next() >> 16), double(r.below(8)), r.chance(0.5) ? 0 : double(r.range(1, 12)), double(r.below(100000))});
            k = r.range(0, 3);
            while (k--) {
                double c = r.uni();
                if (c < 0.5) p.add("burst", {double(r.below(1000)), double(r.next() >> 16), double(r.range(1, 32)), double(r.below(4))});
                else if (c < 0.85) p.add("bits", {double(r.below(1000)), double(r.next() >> 16), double(r.chance(0.6) ? r.range(1, 3) : r.range(1, 40))});
                else if (c < 0.90) p.add("dup", {double(r.below(1000))});
                else if (c < 0.95) p.add("swap", {double(r.below(1000))});
                else p.add("trunc", {double(r.range(1, 8))});
            }
            p.add("recv", {double(r.below(8))});
        }
    }
}
Reg r18("P18", gen18, exec18);

// ------------------------------------------------------------------ P19 catalogue and generic parameter sets
const crcMode MODES[3] = {CRC8, CRC16, CRC32}; const int WIDTHS[3] = {8, 16, 32};
void exec19(const Plan& p) {
    selfCheck();
    uint8_t* msg = nullptr; size_t n = 0; int kind = 0;
    for (auto& s : p.s) switch (s.h) {
        case H("msg"): { n = size_t(s.n(0, 1, 80000)); int off = int(s.n(3, 0, 7)); kind = int(s.n(1, 0, 6)); uint8_t* b = arr<uint8_t>(n + size_t(off)); msg = b + off; fillMsg(msg, n, kind, uint64_t(s.arg(2))); break; }
        case H("flip"): if (msg) { size_t b = size_t(s.n(0, 0, 1000000000)) % (n * 8); msg[b / 8] ^= uint8_t(1u << (b % 8)); fault(F_LINK_BITS); } break;
        case H("named"): {
            if (!msg) break;
            int a = int(s.n(0, 0, NCAT - 1)); size_t len = n - size_t(s.n(1, 0, 1000000)) % n; lib(); steer(msg, len, CAT[a].width, CAT[a].poly, CAT[a].init, CAT[a].refIn, CAT[a].refOut, CAT[a].xorOut, int(s.n(2, 0, 12)), uint64_t(s.arg(3)));
            uint32_t v = CAT[a].fn(msg, len), e = refCrc(CAT[a], msg, len); observe(uint64_t(v)); sh->compares++; sh->tight++;
            if (v != e) fail("crc.value", "%s of %zu bytes is %#x, the catalogue defines %#x", CAT[a].name, len, v, e);
            cover(1900, uint64_t(a), len < 20 ? len : 20 + uint64_t(std::log2(double(len))), uint64_t(kind)); break;
        }
        case H("gen"): {
            if (!msg) break;
            int m = int(s.n(0, 0, 2)); uint32_t poly = uint32_t(s.n(1, 0, 0xFFFFFFFFl)), init = uint32_t(s.n(2, 0, 0xFFFFFFFFl)), xo = uint32_t(s.n(4, 0, 0xFFFFFFFFl)); int fl = int(s.n(3, 0, 3)); size_t len = n - size_t(s.n(5, 0, 1000000)) % n; lib(); steer(msg, len, WIDTHS[m], poly, init, fl & 1, fl >> 1 & 1, xo, int(s.n(6, 0, 12)), uint64_t(s.arg(7)));
            uint32_t v = crc::generic(MODES[m], msg, len, poly, init, fl & 1, (fl >> 1) & 1, xo), e = refCrc(msg, len, WIDTHS[m], poly, init, fl & 1, fl >> 1 & 1, xo); observe(uint64_t(v)); sh->compares++; sh->tight++;
            if (v != e) fail("crc.generic", "generic width %d poly %#x init %#x refIn %d refOut %d xorOut %#x of %zu bytes is %#x instead of %#x", WIDTHS[m], poly, init, fl & 1, fl >> 1 & 1, xo, len, v, e);
            cover(1901, uint64_t(m) * 4 + uint64_t(fl), len < 20 ? len : 20 + uint64_t(std::log2(double(len))), (init ? 1 : 0) + (xo ? 2 : 0) + 4 * (poly & 1) + 8 * uint64_t(kind)); break;
        }
        case H("none"): {
            int a = int(s.n(0, 0, NCAT - 1)), k = int(s.n(1, 0, 3)); lib(); fault(F_BADCFG); uint8_t d = 0x5A; uint32_t v;
            switch (k) { case 0: v = CAT[a].fn(nullptr, size_t(s.n(2, 0, 1000))); break; case 1: v = CAT[a].fn(msg ? msg : &d, 0); break; case 2: v = crc::generic(MODES[a % 3], nullptr, size_t(s.n(2, 0, 1000)), CAT[a].poly, 0xFFFFFFFFu, true, true, 0xFFFFFFFFu); break; default: v = crc::generic(MODES[a % 3], &d, 0, CAT[a].poly, 0xFFFFFFFFu, false, true, 0xFFFFFFFFu); break; }
            if (v != 0) fail("crc.empty", "%s of no data gives %#x", CAT[a].name, v);
            break;
        }
    }
}
void gen19(Rng& r, Plan& p) {
    int rounds = r.range(1, 5);
    while (rounds--) {
        p.add("msg", {double(genLen(r)), double(r.below(10)), double(r.next() >> 16), double(r.below(8))});
        int n = r.range(5, 40); double P = 0, I = 0, X = 0; int m = 0, fl = 0; bool have = false;
        for (int i = 0; i < n; ++i) {
            double c = r.uni();
            if (c < 0.40) { int k = r.range(1, 3); int a = int(r.below(NCAT)); while (k--) { p.add("named", {double(a), double(r.chance(0.6) ? 0 : r.below(100000)), r.chance(0.5) ? 0 : double(r.range(1, 12)), double(r.below(100000))}); if (r.chance(0.3)) a = int(r.below(NCAT)); } }
            else if (c < 0.85) {
                if (!have || r.chance(0.35)) { const Alg& a = CAT[r.below(NCAT)]; m = int(r.below(3)); if (r.chance(0.4)) { m = a.width == 8 ? 0 : a.width == 16 ? 1 : 2; P = a.poly; I = a.init; fl = a.refIn ? 3 : 0; X = a.xorOut; } else { P = double(uint32_t(r.next())); I = double(uint32_t(r.next())); X = double(uint32_t(r.next())); fl = int(r.below(4)); if (r.chance(0.3)) I = 0; if (r.chance(0.3)) X = 0; } have = true; }
                else switch (r.below(6)) { case 0: m = int(r.below(3)); break; case 1: fl ^= 1; break; case 2: fl ^= 2; break; case 3: X = double(uint32_t(r.next())); break; case 4: I = double(uint32_t(r.next())); break; default: P = double(uint32_t(r.next())); break; }
                p.add("gen", {double(m), P, I, double(fl), X, double(r.chance(0.6) ? 0 : r.below(100000)), r.chance(0.5) ? 0 : double(r.range(1, 12)), double(r.below(100000))});
            }
            else if (c < 0.93) p.add("flip", {double(r.below(1000000))});
            else p.add("none", {double(r.below(NCAT)), double(r.below(4)), double(r.below(100))});
        }
    }
}
Reg r19("P19", gen19, exec19);

// ------------------------------------------------------------------ P20 bit-fields
struct Model {
    std::vector<uint8_t> b;                                  // one byte per bit
    void set(size_t i, uint32_t v, int n) { for (int k = 0; k < n; ++k) b[i + size_t(k)] = uint8_t(v >> k & 1); }
    uint32_t get(size_t i, int n) const { uint32_t v = 0; for (int k = 0; k < n; ++k) v |= uint32_t(b[i + size_t(k)]) << k; return v; }
    uint8_t byte(size_t k) const { return uint8_t(get(8 * k, 8)); }
};
struct Field { bitfield* f = nullptr; uint8_t* area = nullptr; size_t bytes = 0; Model m; };
void whole(Field& x, const char* op, size_t lo, size_t hi) {    // the area equals the model in bytes lo..hi
    for (size_t k = lo; k < hi && k < x.bytes; ++k) if (x.area[k] != x.m.byte(k)) fail("bitfield.area", "after %s byte %zu of a %zu-byte field is %#x instead of %#x", op, k, x.bytes, x.area[k], x.m.byte(k));
}
// setup through an area declared with the bitArea alias
template <size_t N> bool sizedField(Field& x) {
    using A = bitArea<N>; if (sizeof(A) * 8 < N || sizeof(A) % 4) fail("bitfield.area", "bitArea<%zu> holds %zu bytes", N, sizeof(A));
    x.bytes = sizeof(A); x.area = static_cast<uint8_t*>(memGet(x.bytes, 4)); if (!x.f) x.f = make<bitfield>();
    lib(); return x.f->setup(*reinterpret_cast<A*>(x.area));
}
bool sizedField(Field& x, long k) {
    switch (k) { case 1: return sizedField<1>(x); case 2: return sizedField<31>(x); case 3: return sizedField<32>(x); case 4: return sizedField<33>(x); case 5: return sizedField<64>(x); case 6: return sizedField<65>(x); case 7: return sizedField<96>(x); case 8: return sizedField<130>(x); default: return sizedField<1024>(x); }
}
float asF(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }
uint32_t asU(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
size_t at(const Step& s, size_t i, size_t bits, size_t width) { size_t room = bits - width + 1; return size_t(s.n(i, 0, 1l << 40)) % room; }
void exec20(const Plan& p) {
    Field F[3]; size_t nop = 0;
    for (auto& s : p.s) {
        Field& x = F[s.n(0, 0, 2)]; size_t bits = x.bytes * 8; ++nop;
        if (s.h == H("setup")) {
            size_t slots = size_t(s.n(1, 1, 8192)); 
            if (long via = s.n(2, 0, 9)) { if (!sizedField(x, via)) fail("bitfield.config", "setup rejected"); }
            else { x.bytes = slots * 4; x.area = static_cast<uint8_t*>(memGet(x.bytes, 4)); if (!x.f) x.f = make<bitfield>(); lib(); if (!x.f->setup(x.area, x.bytes)) fail("bitfield.config", "setup rejected"); }
            x.m.b.assign(x.bytes * 8, 0); for (size_t k = 0; k < x.bytes; ++k) x.m.set(8 * k, x.area[k], 8);
            fault(F_RECONF); continue;
        }
        if (s.h == H("bad")) {
            fault(F_BADCFG); lib(2);
            if (!x.f) { bitfield* g = make<bitfield>(); uint8_t t[8]; if (g->setBit(3) || g->clearBit(3) || g->toggleBit(3) || g->readBit(3) || g->writeBit(3, true) || g->readUINTn(3, 5) || g->writeUINTn(3, 5, 1) || g->writeFloat(3, 1.0f) || g->readFloat(3) != 0.0f || g->clearAll() || g->setAll() || g->dump(t, 4)) fail("bitfield.unset", "a call on a field never set up reported success"); continue; }
            switch (s.n(1, 0, 5)) {
                case 0: if (x.f->setup(nullptr, 8)) fail("bitfield.config", "setup of a null area accepted"); break;
                case 1: if (x.f->setup(x.area, 0)) fail("bitfield.config", "setup of an empty area accepted"); break;
                case 2: if (x.f->writeUINTn(at(s, 2, bits, 1), size_t(s.n(3, 33, 100)), 0xFFFFFFFFu)) fail("bitfield.width", "write of more than 32 bits accepted"); break;
                case 3: if (x.f->readUINTn(at(s, 2, bits, 1), size_t(s.n(3, 33, 100))) != 0) fail("bitfield.width", "read of more than 32 bits gives data"); break;
                case 4: { uint8_t* d = arr<uint8_t>(4); memset(d, 0x11, 4); if (x.f->dump(d, x.bytes + 1 + size_t(s.n(3, 0, 1000)))) fail("bitfield.dump", "dump larger than the field accepted"); for (int i = 0; i < 4; ++i) if (d[i] != 0x11) fail("bitfield.dump", "rejected dump wrote data"); break; }
                default: if (x.f->dump(nullptr, 1)) fail("bitfield.dump", "dump to null accepted"); break;
            }
            whole(x, "a rejected call", 0, x.bytes); continue;
        }
        if (!x.f) continue;
        lib(); simtime(1e-6); size_t lo = 0, hi = 0; sh->compares++; sh->tight++;
        switch (s.h) {
            case H("set"): { size_t i = at(s, 1, bits, 1); if (!x.f->setBit(i)) fail("bitfield.config", "setBit failed"); x.m.b[i] = 1; lo = i; hi = i + 1; break; }
            case H("clr"): { size_t i = at(s, 1, bits, 1); if (!x.f->clearBit(i)) fail("bitfield.config", "clearBit failed"); x.m.b[i] = 0; lo = i; hi = i + 1; break; }
            case H("tgl"): { size_t i = at(s, 1, bits, 1); if (!x.f->toggleBit(i)) fail("bitfield.config", "toggleBit failed"); x.m.b[i] ^= 1; lo = i; hi = i + 1; break; }
            case H("wbit"): { size_t i = at(s, 1, bits, 1); bool v = s.n(2, 0, 1); if (!x.f->writeBit(i, v)) fail("bitfield.config", "writeBit failed"); x.m.b[i] = v; lo = i; hi = i + 1; break; }
            case H("rbit"): { size_t i = at(s, 1, bits, 1); bool v = x.f->readBit(i); observe(uint64_t(v)); if (v != bool(x.m.b[i])) fail("bitfield.read", "bit %zu of %zu reads %d", i, bits, v); break; }
            case H("wu"): { int n = int(s.n(2, 1, 32, 1)); size_t i = at(s, 1, bits, size_t(n)); uint32_t v = uint32_t(s.n(3, 0, 0xFFFFFFFFl)); if (!x.f->writeUINTn(i, size_t(n), v)) fail("bitfield.config", "writeUINTn(%zu,%d) failed", i, n); x.m.set(i, n == 1 ? v != 0 : v, n); lo = i; hi = i + size_t(n); cover(2000, uint64_t(n), i % 32, (i / 32 == (i + size_t(n) - 1) / 32) + 2 * (i + size_t(n) == bits)); break; }
            case H("ru"): { int n = int(s.n(2, 1, 32, 1)); size_t i = at(s, 1, bits, size_t(n)); uint32_t v = x.f->readUINTn(i, size_t(n)), e = x.m.get(i, n); observe(uint64_t(v)); if (v != e) fail("bitfield.read", "%d bits at %zu of %zu read %#x instead of %#x", n, i, bits, v, e); cover(2001, uint64_t(n), i % 32, (i / 32 == (i + size_t(n) - 1) / 32) + 2 * (i + size_t(n) == bits)); break; }
            case H("wf"): { if (bits < 32) break; size_t i = at(s, 1, bits, 32); uint32_t v = uint32_t(s.n(2, 0, 0xFFFFFFFFl)); if (!x.f->writeFloat(i, asF(v))) fail("bitfield.config", "writeFloat failed"); x.m.set(i, v, 32); lo = i; hi = i + 32; break; }
            case H("rf"): { size_t i = at(s, 1, bits, 32); uint32_t v = asU(x.f->readFloat(i)), e = x.m.get(i, 32); observe(uint64_t(v)); if (v != e) fail("bitfield.read", "float at %zu of %zu reads %#x instead of %#x", i, bits, v, e); break; }
            case H("all1"): if (!x.f->setAll()) fail("bitfield.config", "setAll failed"); std::fill(x.m.b.begin(), x.m.b.end(), 1); lo = 0; hi = bits; break;
            case H("all0"): if (!x.f->clearAll()) fail("bitfield.config", "clearAll failed"); std::fill(x.m.b.begin(), x.m.b.end(), 0); lo = 0; hi = bits; break;
            case H("dump"): { size_t n = size_t(s.n(1, 0, 1l << 30)) % (x.bytes + 1); if (s.n(2, 0, 1)) n = x.bytes; uint8_t* d = arr<uint8_t>(n + 8); std::vector<uint8_t> old(d, d + n + 8); void* q = x.f->dump(d, n); if (q != d) fail("bitfield.dump", "dump of %zu of %zu bytes failed", n, x.bytes); for (size_t k = 0; k < n; ++k) if (d[k] != x.m.byte(k)) fail("bitfield.dump", "byte %zu of the dump is %#x instead of %#x", k, d[k], x.m.byte(k)); for (size_t k = n; k < n + 8; ++k) if (d[k] != old[k]) fail("bitfield.dump", "dump of %zu bytes wrote byte %zu", n, k); break; }
            case H("alias"): { bitfield* g = make<bitfield>(); lib(); if (!g->setup(x.area, x.bytes)) fail("bitfield.config", "second view rejected"); x.f = g; fault(F_RECONF); break; }
            case H("poke"): { size_t k = size_t(s.n(1, 0, 1l << 30)) % x.bytes; x.area[k] = uint8_t(s.n(2, 0, 255)); x.m.set(8 * k, x.area[k], 8); fault(F_LINK_BITS); break; }   // the area is plain memory: data received into it
        }
        if (hi > lo) { whole(x, s.op.c_str(), lo / 8 > 8 ? lo / 8 - 8 : 0, hi / 8 + 9); if (nop % 16 == 0) for (auto& y : F) if (y.f) whole(y, s.op.c_str(), 0, y.bytes); }
        observe(uint64_t(x.area[lo / 8 < x.bytes ? lo / 8 : 0]));
    }
    for (auto& y : F) if (y.f) whole(y, "the whole history", 0, y.bytes);
}
void genBit(Rng& r, Plan& p, bool reads) {
    double f = double(r.below(3)); double i = double(r.next() % 1000000007ull); if (r.chance(0.1)) i = 0;
    double v = double(uint32_t(r.next())); if (r.chance(0.25)) v = 4294967295.0; else if (r.chance(0.2)) v = 0; else if (r.chance(0.15)) { static const double S[8] = {2147483648.0, 1, 2143289345.0, 2139095040.0, 4286578688.0, 8388607.0, 2147483649.0, 65536}; v = S[r.below(8)]; }
    double c = r.uni(); int n = r.chance(0.1) ? 32 : r.range(1, 32);
    if (!reads && c > 0.82) c *= 0.8;
    if (c < 0.06) p.add("set", {f, i}); else if (c < 0.12) p.add("clr", {f, i}); else if (c < 0.18) p.add("tgl", {f, i}); else if (c < 0.24) p.add("wbit", {f, i, double(r.below(2))});
    else if (c < 0.52) p.add("wu", {f, i, double(n), v}); else if (c < 0.60) p.add("wf", {f, i, v}); else if (c < 0.61) p.add("all1", {f}); else if (c < 0.62) p.add("all0", {f});
    else if (c < 0.64) p.add("poke", {f, i, double(r.below(256))}); else if (c < 0.66) p.add("alias", {f}); else if (c < 0.69) p.add("bad", {f, double(r.below(6)), i, double(r.range(33, 70))}); else if (c < 0.72) p.add("dump", {f, i, double(r.chance(0.3))});
    else if (c < 0.80) p.add("rbit", {f, i}); else if (c < 0.95) p.add("ru", {f, i, double(n)}); else p.add("rf", {f, i});
}
void genSetups(Rng& r, Plan& p) { for (int k = 0; k < 3; ++k) if (k == 0 || r.chance(0.5)) p.add("setup", {double(k), double(r.chance(0.7) ? r.range(1, 4) : r.chance(0.9) ? r.range(1, 70) : r.range(2000, 8192)), double(r.chance(0.3) ? r.range(1, 9) : 0)}); }
void gen20(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(4)), double(r.next() >> 16)});
    if (r.chance(0.2)) p.add("bad", {0, 0, 0, 0});
    genSetups(r, p); int n = r.range(10, 150);
    while (n--) { if (r.chance(0.01)) genSetups(r, p); genBit(r, p, true); }
}
void execDirt20(const Plan& p) { for (auto& s : p.s) if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); break; } exec20(p); }
Reg r20("P20", gen20, execDirt20);

// ------------------------------------------------------------------ P21 interrupted writes
jmp_buf crashJmp; Field* cur; std::vector<uint8_t>*oldBits, *newBits; size_t winLo, winHi; const char* opName; uint64_t crashAt; uint64_t evSeen;
// what an interrupt handler that reads the area sees
void inspect() {
    for (size_t k = winLo; k < winHi; ++k) {
        uint8_t a = cur->area[k], o = 0, nw = 0; for (int b = 0; b < 8; ++b) { o |= uint8_t((*oldBits)[8 * k + size_t(b)] << b); nw |= uint8_t((*newBits)[8 * k + size_t(b)] << b); }
        uint8_t bad = uint8_t((a ^ o) & (a ^ nw)); if (bad) fail("bitfield.torn", "inside %s, at point %llu, byte %zu of %zu is %#x: bits %#x hold neither their old (%#x) nor their new (%#x) value", opName, (unsigned long long)evSeen, k, cur->bytes, a, bad, o, nw);
    }
}
void onEvent21() {
    ++evSeen; sh->seamEvents++; if (winHi - winLo <= 256 || evSeen % ((winHi - winLo) / 64) == 0) inspect();
    if (evSeen == crashAt) { seam.armed = 0; longjmp(crashJmp, 1); }
}
void call21(Field& x, int op, size_t i, int n, uint32_t v) {
    switch (op) { case 0: x.f->setBit(i); break; case 1: x.f->clearBit(i); break; case 2: x.f->toggleBit(i); break; case 3: x.f->writeBit(i, v & 1); break; case 4: x.f->writeUINTn(i, size_t(n), v); break; case 5: x.f->writeFloat(i, asF(v)); break; case 6: x.f->setAll(); break; default: x.f->clearAll(); break; }
}
void exec21(const Plan& p) {
    Field F[3];
    static const char* NM[8] = {"setBit", "clearBit", "toggleBit", "writeBit", "writeUINTn", "writeFloat", "setAll", "clearAll"};
    for (auto& s : p.s) {
        if (s.h == H("dirt")) { setDirt(int(s.n(0, 0, 4)), uint64_t(s.arg(1))); continue; }
        Field& x = F[s.n(0, 0, 2)];
        if (s.h == H("setup")) { x.bytes = size_t(s.n(1, 1, 8192)) * 4; x.area = static_cast<uint8_t*>(memGet(x.bytes, 4)); if (!x.f) x.f = make<bitfield>(); lib(); x.f->setup(x.area, x.bytes); x.m.b.assign(x.bytes * 8, 0); for (size_t k = 0; k < x.bytes; ++k) x.m.set(8 * k, x.area[k], 8); continue; }
        if (s.h != H("w") || !x.f) continue;
        int op = int(s.n(1, 0, 7)), n = op == 4 ? int(s.n(3, 1, 32, 1)) : op == 5 ? 32 : 1; size_t bits = x.bytes * 8, i = at(s, 2, bits, size_t(n)); uint32_t v = uint32_t(s.n(4, 0, 0xFFFFFFFFl));
        std::vector<uint8_t> old = x.m.b; Model nm = x.m; size_t lo = i, hi = i + size_t(n);
        switch (op) { case 0: nm.b[i] = 1; break; case 1: nm.b[i] = 0; break; case 2: nm.b[i] ^= 1; break; case 3: nm.b[i] = v & 1; break; case 4: nm.set(i, n == 1 ? v != 0 : v, n); break; case 5: nm.set(i, v, 32); break; case 6: std::fill(nm.b.begin(), nm.b.end(), 1); lo = 0; hi = bits; break; default: std::fill(nm.b.begin(), nm.b.end(), 0); lo = 0; hi = bits; break; }
        cur = &x; oldBits = &old; newBits = &nm.b; opName = NM[op]; winLo = lo / 8 > 12 ? lo / 8 - 12 : 0; winHi = std::min(x.bytes, hi / 8 + 13); evSeen = 0; crashAt = uint64_t(s.n(5, 0, 100000));
        bool crash = crashAt != 0; volatile bool crashed = false;
        lib(); simtime(1e-6); sh->switches++; fault(F_PREEMPT);
        seam.count = 0; seam.fireAt = 0; seam.handler = onEvent21;
        if (setjmp(crashJmp) == 0) { seam.armed = 1; call21(x, op, i, n, v); seam.armed = 0; } else { crashed = true; fault(F_CRASH); }
        seam.armed = 0; sh->compares++; inspect(); observe(evSeen);
        cover(2100, uint64_t(op), i % 32 + 32 * uint64_t(n), crashed ? 1 + std::min<uint64_t>(evSeen, 40) : 0);
        if (crashed) {
            // the task is killed and restarted: a new object over the same storage, the write repeated (a toggle is only repeated if it had not been applied)
            bool done = std::equal(nm.b.begin() + ptrdiff_t(lo), nm.b.begin() + ptrdiff_t(hi), old.begin() + ptrdiff_t(lo)); (void)done;
            if (s.n(6, 0, 1)) { bitfield* g = make<bitfield>(); lib(); g->setup(x.area, x.bytes); x.f = g; }
            bool applied = op == 2 && (x.area[i / 8] >> (i % 8) & 1) == nm.b[i];
            if (!applied) { lib(); call21(x, op, i, n, v); }
        }
        x.m = nm;
        for (size_t k = winLo; k < winHi; ++k) if (x.area[k] != x.m.byte(k)) fail("bitfield.repeat", "after %s%s byte %zu is %#x instead of %#x", NM[op], crashed ? " was cut short and repeated" : "", k, x.area[k], x.m.byte(k));
    }
    for (auto& y : F) if (y.f) whole(y, "the whole history", 0, y.bytes);
}
void gen21(Rng& r, Plan& p) {
    p.add("dirt", {double(r.below(4)), double(r.next() >> 16)}); genSetups(r, p);
    int n = r.range(5, 120);
    while (n--) {
        if (r.chance(0.01)) genSetups(r, p);
        double v = double(uint32_t(r.next())); if (r.chance(0.2)) v = 4294967295.0; else if (r.chance(0.15)) v = 0;
        static const int OPS[] = {0, 1, 2, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 6, 7}; int op = OPS[r.below(sizeof OPS / sizeof OPS[0])];
        p.add("w", {double(r.below(3)), double(op), double(r.next() % 1000000007ull), double(r.range(1, 32)), v, double(r.chance(0.6) ? r.range(1, 30) : 0), double(r.below(2))});
    }
}
Reg r21("P21", gen21, exec21);
}
