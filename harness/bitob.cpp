// bounded stand-ins: bitonal bitmaps through the public interface (sequences of operations, masked copy, decimation, masked resizing)
// NTUS: @lib
#include "bmpapi.h"
#include "libCZI_Pixels.h"
#include "BitmapOperationsBitonal.h"
using namespace api;
namespace {
struct PMsk : IBitonalBitmapData
{
    IntSize sz; uint32_t stride; std::unique_ptr<uint8_t[]> d; uint64_t n; int locks = 0;
    PMsk(Rng& r, uint32_t w, uint32_t h, uint32_t pad) { sz.w = w; sz.h = h; stride = (w + 7) / 8 + pad; n = (uint64_t)stride * h; d.reset(new uint8_t[n ? n : 1]); int k = r.in(0, 3); for (uint64_t i = 0; i < n; ++i) d[i] = k == 0 ? 0xff : k == 1 ? (uint8_t)(r.next() | r.next() | r.next() | r.next()) : k == 2 ? (uint8_t)r.next() : (r.p(90) ? 0xff : (uint8_t)r.next()); }
    IntSize GetSize() const override { return sz; }
    BitonalBitmapLockInfo Lock() override { ++locks; BitonalBitmapLockInfo i; i.ptrData = d.get(); i.stride = stride; i.size = n; return i; }
    void Unlock() override { --locks; vc_assert(locks >= 0, "locks are balanced"); } int GetLockCount() const override { return locks; }
    bool get(uint32_t x, uint32_t y) const { return (d[(uint64_t)y * stride + x / 8] >> (7 - x % 8)) & 1; }
};
bool bit(const BitonalBitmapLockInfo& l, uint32_t x, uint32_t y) { return (((const uint8_t*)l.ptrData)[(uint64_t)y * l.stride + x / 8] >> (7 - x % 8)) & 1; }
int coord(Rng& r, int n) { int k = r.in(0, 30); if (k == 0) return std::numeric_limits<int>::min(); if (k == 1) return std::numeric_limits<int>::max(); if (k == 2) return std::numeric_limits<int>::max() - r.in(0, 50); return r.p(50) ? r.in(-10, n + 10) : r.in(-4, n); }
}
extern "C" void B_bitonal()
{
    Rng r = make_rng(); uint32_t w = r.in(1, 70), h = r.in(1, 12); auto m = std::make_shared<PMsk>(r, w, h, r.in(0, 3)); std::vector<std::vector<bool>> mod(h, std::vector<bool>(w)); for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) mod[y][x] = m->get(x, y);
    bytes pad(m->d.get(), m->d.get() + m->n);
    for (int i = r.in(1, 12); i > 0; --i)
    {
        int op = r.in(0, 5); bool v = r.p(50);
        if (op <= 1)
        {
            uint32_t x = (uint32_t)(r.p(3) ? coord(r, w) : r.in(0, w + 8)), y = (uint32_t)(r.p(3) ? coord(r, h) : r.in(0, h + 1)); bool in = x < w && y < h, threw = false;
            try { if (op == 0) BitonalBitmapOperations::SetPixelValue(m, x, y, v); else { bool g = BitonalBitmapOperations::GetPixelValue(m, x, y); if (in) vc_assert(g == mod[y][x], "the value written last is read"); } } catch (std::exception&) { threw = true; }
            vc_assert(threw == !in, "a pixel outside of the bitmap is refused"); if (in && op == 0) mod[y][x] = v;
        }
        else if (op <= 4)
        {
            IntRect q{ coord(r, w), coord(r, h), r.p(5) ? coord(r, 100) : r.in(0, 80), r.p(5) ? coord(r, 100) : r.in(0, 20) }; if (q.w < 0) q.w = 0; if (q.h < 0) q.h = 0;
            BitonalBitmapOperations::Fill(m, q, v);
            for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) if ((int64_t)x >= q.x && (int64_t)x < (int64_t)q.x + q.w && (int64_t)y >= q.y && (int64_t)y < (int64_t)q.y + q.h) mod[y][x] = v;
        }
        else { BitonalBitmapOperations::SetAllPixels(m, v); for (auto& row : mod) for (size_t x = 0; x < row.size(); ++x) row[x] = v; }
        for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) vc_assert(m->get(x, y) == mod[y][x], "exactly the addressed pixels change");
        for (uint32_t y = 0; y < h; ++y) for (uint32_t x = (w + 7) / 8; x < m->stride; ++x) vc_assert(m->d[(uint64_t)y * m->stride + x] == pad[(uint64_t)y * m->stride + x], "bytes behind a row are left alone");
        vc_assert(m->locks == 0, "locks are balanced");
    }
    vc_cover("history");
}
extern "C" void B_decimate()
{
    Rng r = make_rng(); uint32_t w = r.p(50) ? r.in(0, 40) : r.in(0, 140), h = r.in(0, 20); PMsk m(r, w, h, r.in(0, 5)); int n = r.p(5) ? r.in(-3, 20) : r.in(0, 7); std::shared_ptr<IBitonalBitmapData> d; bool threw = false;
    if (w < 2 || h < 2) vc_assume(false);
    try { d = BitonalBitmapOperations::Decimate(n, &m); } catch (std::exception&) { threw = true; }
    vc_assert(threw == (n < 0 || n > 7), "a neighbourhood larger than 7 is refused"); if (threw) return;
    vc_assert(d->GetWidth() == w / 2 && d->GetHeight() == h / 2, "size is halved"); ScopedBitonalBitmapLockerSP l{ d };
    for (int y = 0; y < (int)h / 2; ++y) for (int x = 0; x < (int)w / 2; ++x)
    {
        bool all = true; for (int yy = 2 * y - n; yy <= 2 * y + n; ++yy) for (int xx = 2 * x - n; xx <= 2 * x + n; ++xx) if (xx >= 0 && yy >= 0 && xx < (int)w && yy < (int)h && !m.get(xx, yy)) all = false;
        vc_assert(bit(l, x, y) == all, "a pixel is set exactly if the whole neighbourhood is set"); if (all) vc_cover("set"); else vc_cover("not set");
    }
}
extern "C" void B_copyat()
{
    Rng r = make_rng(); int S = r.p(5) ? r.in(0, 13) : r.in(0, 4), D = r.p(5) ? r.in(0, 13) : S == 2 ? 2 : r.in(0, 4); if (spec_bpp(S) < 0 || spec_bpp(D) < 0) vc_assume(false); if (bpp((PixelType)S) <= 0 || bpp((PixelType)D) <= 0) vc_assume(false);
    PBmp s((PixelType)S, r.in(1, 20), r.in(1, 10), r.in(0, 5)), d((PixelType)D, r.in(1, 20), r.in(1, 10), r.in(0, 5)); auto a = r.data(s.n), b = r.data(d.n); memcpy(s.d.get(), a.data(), s.n); memcpy(d.d.get(), b.data(), d.n);
    bool um = r.p(80); PMsk m(r, r.p(50) ? s.sz.w : r.in(1, 24), r.p(50) ? s.sz.h : r.in(1, 12), r.in(0, 3)); IntPoint o{ coord(r, d.sz.w), coord(r, d.sz.h) }; bool threw = false;
    try { BitonalBitmapOperations::CopyAt(&s, um ? &m : nullptr, o, &d); } catch (std::exception&) { threw = true; }
    if (threw) { vc_assert(!spec_supported(S, D), "a supported conversion is carried out"); vc_assert(!memcmp(d.d.get(), b.data(), d.n), "nothing is changed if the conversion is refused"); return; }
    int ew = (int)s.sz.w, eh = (int)s.sz.h; if (um) { ew = std::min<int>(ew, m.sz.w); eh = std::min<int>(eh, m.sz.h); } int bd = bpp((PixelType)D), bs = bpp((PixelType)S); bool any = false;
    for (uint32_t y = 0; y < d.sz.h; ++y) for (uint32_t x = 0; x < d.stride; ++x)
    {
        int X = x / bd; int64_t sx = (int64_t)X - o.x, sy = (int64_t)y - o.y; bool in = x < d.sz.w * bd && sx >= 0 && sy >= 0 && sx < ew && sy < eh; if (in) any = true; if (in && um && !m.get((uint32_t)sx, (uint32_t)sy)) in = false;
        uint8_t want[24]; if (in) spec_convert(S, D, a.data() + (uint64_t)sy * s.stride + (uint64_t)sx * bs, want);
        vc_assert(d.d[(uint64_t)y * d.stride + x] == (in ? want[x - X * bd] : b[(uint64_t)y * d.stride + x]), in ? "pixel with mask bit set is the converted source pixel" : "all other bytes unchanged");
    }
    if (any) { vc_assert(spec_supported(S, D), "unsupported conversion refused"); vc_cover("overlap"); }
    vc_assert(!memcmp(s.d.get(), a.data(), s.n) && s.locks == 0 && d.locks == 0 && m.locks == 0, "source unchanged, locks balanced");
}
extern "C" void B_nnmask()
{
    Rng r = make_rng(); int S = r.in(0, 4), D = S == 2 ? 2 : r.in(0, 4); PBmp s((PixelType)S, r.in(1, 20), r.in(1, 10), r.in(0, 5)), d((PixelType)D, r.in(1, 20), r.in(1, 10), r.in(0, 5)); auto a = r.data(s.n), b = r.data(d.n); memcpy(s.d.get(), a.data(), s.n); memcpy(d.d.get(), b.data(), d.n);
    PMsk m(r, r.p(50) ? s.sz.w : r.in(1, 24), r.p(50) ? s.sz.h : r.in(1, 12), r.in(0, 3)); bool um = true;
    auto q = [&](int lo, int hi) { return r.in(lo * 4, hi * 4) / 4.; }; DblRect rs{ q(-6, 10), q(-6, 10), q(1, 12), q(1, 12) }, rd{ q(-6, 10), q(-6, 10), q(1, 12), q(1, 12) }; if (r.p(30)) rs = DblRect{ 0, 0, (double)s.sz.w, (double)s.sz.h };
    libCZI::detail::BitmapOperationsBitonal::NNResizeMaskAware(&s, um ? &m : nullptr, &d, rs, rd);
    int bd = bpp((PixelType)D), bs = bpp((PixelType)S); double rw = rs.w / rd.w, rh = rs.h / rd.h, e = 1e-6;
    for (uint32_t y = 0; y < d.sz.h; ++y) for (uint32_t x = 0; x < d.stride; ++x)
    {
        uint64_t o = (uint64_t)y * d.stride + x; int X = x / bd; uint8_t got = d.d[o]; if (x >= d.sz.w * bd) { vc_assert(got == b[o], "row padding unchanged"); continue; }
        double px = (X - rd.x) * rw + rs.x, py = ((int)y - rd.y) * rh + rs.y; long sx = lround(px), sy = lround(py); sx = std::max<long>(0, std::min<long>(sx, s.sz.w - 1)); sy = std::max<long>(0, std::min<long>(sy, s.sz.h - 1));
        bool bt = !um || (sx < (long)m.sz.w && sy < (long)m.sz.h && m.get(sx, sy)); bool out = X < (int)rd.x || X > (int)(rd.x + rd.w) || (int)y < (int)rd.y || (int)y > (int)(rd.y + rd.h);
        uint8_t want[24]; spec_convert(S, D, a.data() + (uint64_t)sy * s.stride + (uint64_t)sx * bs, want); uint8_t wv = want[x - X * bd];
        if (!bt || out) { vc_assert(got == b[o], "pixels with a clear mask bit and pixels outside of the rectangle are unchanged"); continue; }
        vc_assert(got == b[o] || got == wv, "a pixel is unchanged or the nearest source pixel");
        if (y > rd.y + e && y < rd.y + rd.h - e && X > rd.x + e && X < rd.x + rd.w - e && py > e && py < s.sz.h - 1 - e && px > e && px < s.sz.w - 1 - e) { vc_cover("inside"); vc_assert(got == wv, "every pixel of the rectangle whose mask bit is set is set"); }
    }
    vc_assert(!memcmp(s.d.get(), a.data(), s.n) && s.locks == 0 && d.locks == 0 && m.locks == 0, "source unchanged, locks balanced");
}
