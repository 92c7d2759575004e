// bounded stand-in: compression and decompression of subblock payloads through the public interface
// NTUS: @lib
// LIBS: -lzstd
#include "api.h"
#include "libCZI_compress.h"
#include <zstd.h>
using namespace api;
namespace {
typedef uint64_t u64;
struct Blk : ISubBlock
{
    SubBlockInfo i; std::shared_ptr<uint8_t> d; size_t n = 0;
    // the payload lies in an allocation of exactly its size, so that an access beyond it is noticed
    void set(const bytes& b) { n = b.size(); d.reset((uint8_t*)malloc(n ? n : 1), free); if (n) memcpy(d.get(), b.data(), n); }
    const SubBlockInfo& GetSubBlockInfo() const override { return i; }
    void DangerousGetRawData(MemBlkType t, const void*& p, size_t& s) const override { vc_assert(t == MemBlkType::Data, "the pixel data is asked for"); p = d.get(); s = n; }
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* s) const override { vc_assert(t == MemBlkType::Data, "the pixel data is asked for"); if (s) *s = n; return d; }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions* o) override { return CreateBitmapFromSubBlock(this, o); }
};
static const vector<PixelType> kPts = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48 };
static bytes pixels_of(IBitmapData* b)
{
    auto l = b->Lock(); size_t line = (size_t)b->GetWidth() * bpp(b->GetPixelType()); bytes r;
    vc_assert(l.stride >= line, "stride of the bitmap");
    for (uint32_t y = 0; y < b->GetHeight(); ++y) { const uint8_t* q = (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride; r.insert(r.end(), q, q + line); }
    b->Unlock(); return r;
}
static int comp_raw(CompressionMode m) { return Utils::CompressionModeToCompressionIdentifier(m); }
struct Img { PixelType pt; uint32_t w, h, stride; bytes px, min; };      // px: with stride, min: without padding
static Img image(Rng& r)
{
    Img g; g.pt = r.pick(kPts); g.w = r.in(1, r.p(10) ? 300 : 20); g.h = r.in(1, r.p(10) ? 200 : 12); size_t line = (size_t)g.w * bpp(g.pt); g.stride = (uint32_t)line + (r.p(50) ? r.in(0, 9) : 0);
    int kind = r.in(0, 3); g.px.resize((size_t)g.stride * g.h); for (size_t i = 0; i < g.px.size(); ++i) g.px[i] = kind == 0 ? (uint8_t)r.next() : kind == 1 ? (uint8_t)(i / 7) : kind == 2 ? (uint8_t)(i & 1 ? 0 : r.in(0, 255)) : 7;
    for (uint32_t y = 0; y < g.h; ++y) g.min.insert(g.min.end(), g.px.begin() + (size_t)y * g.stride, g.px.begin() + (size_t)y * g.stride + line);
    return g;
}
// compress with a random variant; returns the payload
static bytes compress(Rng& r, const Img& g, bool z1, bool& lohi)
{
    CompressParametersOnMap pm; lohi = false; bool use = r.p(80);
    if (r.p(60)) pm.map[(int)CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL] = CompressParameter(r.p(10) ? r.in(-200000, 200000) : r.in(-5, 7));
    if (r.p(60)) { bool on = r.p(80); pm.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(on); lohi = on && use && z1 && (g.pt == PixelType::Gray16 || g.pt == PixelType::Bgr48); }
    const ICompressParameters* pa = use ? &pm : nullptr; bytes out;
    // the source lies in an allocation that ends with the last pixel
    size_t need = g.h ? (size_t)g.stride * (g.h - 1) + (size_t)g.w * bpp(g.pt) : 0; if (r.p(50)) need = g.px.size(); std::unique_ptr<uint8_t[]> src(new uint8_t[need]); memcpy(src.get(), g.px.data(), need);
    if (g.stride == (size_t)g.w * bpp(g.pt)) {}
    if (r.p(40))
    {
        auto b = z1 ? ZstdCompress::CompressZStd1Alloc(g.w, g.h, g.stride, g.pt, src.get(), pa) : ZstdCompress::CompressZStd0Alloc(g.w, g.h, g.stride, g.pt, src.get(), pa);
        vc_assert(!!b, "there is enough memory"); out.assign((uint8_t*)b->GetPtr(), (uint8_t*)b->GetPtr() + b->GetSizeOfData());
    }
    else
    {
        size_t mx = z1 ? ZstdCompress::CalculateMaxCompressedSizeZStd1(g.w, g.h, g.pt) : ZstdCompress::CalculateMaxCompressedSizeZStd0(g.w, g.h, g.pt), cap = mx;
        if (r.p(30)) cap = r.in(z1 ? 4 : 1, (int)std::min<size_t>(mx, 2000));
        std::unique_ptr<uint8_t[]> dst(new uint8_t[cap]); size_t n = cap; bool ok;
        if (r.p(50)) ok = z1 ? ZstdCompress::CompressZStd1(g.w, g.h, g.stride, g.pt, src.get(), dst.get(), n, pa) : ZstdCompress::CompressZStd0(g.w, g.h, g.stride, g.pt, src.get(), dst.get(), n, pa);
        else
        {
            int live = 0; auto al = [&](size_t s)->void* { live++; return malloc(s); }; auto fr = [&](void* q) { vc_assert(q != nullptr, "free"); live--; free(q); };
            ok = z1 ? ZstdCompress::CompressZStd1(g.w, g.h, g.stride, g.pt, src.get(), al, fr, dst.get(), n, pa) : ZstdCompress::CompressZStd0(g.w, g.h, g.stride, g.pt, src.get(), al, fr, dst.get(), n, pa);
            vc_assert(live == 0, "temporary memory is released");
        }
        if (!ok) { vc_assert(cap < mx, "the stated maximum size always suffices"); auto b = z1 ? ZstdCompress::CompressZStd1Alloc(g.w, g.h, g.stride, g.pt, src.get(), pa) : ZstdCompress::CompressZStd0Alloc(g.w, g.h, g.stride, g.pt, src.get(), pa); vc_assert(!!b, "there is enough memory"); out.assign((uint8_t*)b->GetPtr(), (uint8_t*)b->GetPtr() + b->GetSizeOfData()); }
        else { vc_assert(n <= cap, "reported size"); out.assign(dst.get(), dst.get() + n); }
    }
    return out;
}
static bytes rawzstd(const bytes& d, bool sized)
{
    bytes o(ZSTD_compressBound(d.size()) + 64); auto* c = ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, sized ? 1 : 0);
    size_t n = ZSTD_compress2(c, o.data(), o.size(), d.data(), d.size()); ZSTD_freeCCtx(c); o.resize(n); return o;
}
}
extern "C" void B_zstd()
{
    Rng r = make_rng(); Img g = image(r); bool z1 = r.p(60), lohi; Blk b; bytes pay = compress(r, g, z1, lohi);
    b.i.compressionModeRaw = comp_raw(z1 ? CompressionMode::Zstd1 : CompressionMode::Zstd0); b.i.pixelType = g.pt; b.i.physicalSize = IntSize{ g.w, g.h }; b.i.logicalRect = IntRect{ 0,0,1,1 };
    b.set(pay); CreateBitmapOptions o; o.handle_zstd_data_size_mismatch = r.p(50);
    {
        auto bm = CreateBitmapFromSubBlock(&b, r.p(30) ? nullptr : &o);
        vc_assert(bm->GetPixelType() == g.pt && bm->GetWidth() == g.w && bm->GetHeight() == g.h && pixels_of(bm.get()) == g.min, "the original pixels");
        vc_assert(bm->GetLockCount() == 0, "the bitmap is not locked"); vc_cover("roundtrip");
    }
    // other bitmap size than what was compressed
    {
        Img e = g; e.w = r.p(50) ? g.w : r.in(1, 30); e.h = r.p(50) ? g.h : r.in(1, 20); if (r.p(20)) e.pt = r.pick(kPts);
        b.i.pixelType = e.pt; b.i.physicalSize = IntSize{ e.w, e.h }; u64 want = (u64)e.w * e.h * bpp(e.pt); bool threw = false; shared_ptr<IBitmapData> bm;
        bool badlohi = lohi && e.pt != PixelType::Gray16 && e.pt != PixelType::Bgr48;
        try { bm = CreateBitmapFromSubBlock(&b, &o); } catch (std::exception&) { threw = true; }
        vc_assert(threw == (badlohi || (!o.handle_zstd_data_size_mismatch && want != g.min.size())), "a size mismatch is refused exactly if it is not to be handled");
        if (!threw) { bytes x = g.min; x.resize(want, 0); vc_assert(bm->GetPixelType() == e.pt && bm->GetWidth() == e.w && bm->GetHeight() == e.h && pixels_of(bm.get()) == x, "cropped or filled up with zeroes"); vc_cover("adjusted"); }
    }
    // a payload that does not decode: refused, or decoded to something - but never an access out of bounds
    {
        b.i.pixelType = g.pt; b.i.physicalSize = IntSize{ g.w, g.h }; bytes m = pay; int k = r.in(0, 4);
        if (k == 0) m.resize(r.in(0, (int)m.size() - 1)); else if (k == 1) { for (int i = r.in(1, 4); i > 0; --i) m[r.in(0, (int)m.size() - 1)] = (uint8_t)r.next(); }
        else if (k == 2 && z1) { m[r.in(0, 2)] = (uint8_t)r.in(0, 255); } else if (k == 3) { for (int i = r.in(1, 2); i > 0; --i) m[r.in(0, std::min<int>(12, (int)m.size() - 1))] ^= (uint8_t)(1 << r.in(0, 7)); } else { m = r.data(r.in(0, 40)); if (z1 && !m.empty()) m[0] = (uint8_t)r.in(0, 4); }
        b.set(m); if (r.p(5)) b.i.physicalSize.w = (uint32_t)r.next(); if (r.p(5)) b.i.physicalSize.h = (uint32_t)r.next();
        if ((u64)b.i.physicalSize.w * b.i.physicalSize.h * bpp(g.pt) > (1u << 24) && b.i.physicalSize.w < 0x20000000u) b.i.physicalSize = IntSize{ g.w, g.h };
        shared_ptr<IBitmapData> bm; bool threw = false;
        try { bm = CreateBitmapFromSubBlock(&b, &o); } catch (std::exception&) { threw = true; }
        if (k == 0) vc_assert(threw, "a truncated payload is refused");
        if (z1 && (m.empty() || (m[0] != 1 && m[0] != 3) || (m[0] == 3 && (m.size() < 3 || m[1] != 1)))) vc_assert(threw, "an unknown header is refused");
        if (threw) vc_cover("refused"); else vc_assert(bm->GetWidth() == b.i.physicalSize.w && bm->GetHeight() == b.i.physicalSize.h && bm->GetPixelType() == g.pt, "bitmap as described by the subblock");
    }
}
// lo-hi packed payloads of any size (also odd ones and those without content size)
extern "C" void B_zstd_raw()
{
    Rng r = make_rng(); bool z1 = r.p(70), sized = r.p(90), lohi = z1 && r.p(60), shorth = z1 && !lohi && r.p(40); PixelType pt = lohi ? (r.p(50) ? PixelType::Gray16 : PixelType::Bgr48) : r.pick(kPts);
    uint32_t w = r.in(1, 12), h = r.in(1, 9); size_t want = (size_t)w * h * bpp(pt); size_t n = r.p(30) ? want : r.p(50) ? (size_t)std::max<int>(0, (int)want + r.in(-5, 5)) : r.in(0, 300); bytes d(n); for (auto& x : d) x = (uint8_t)r.next();
    bytes pay; if (z1) { if (shorth) pay = { 1 }; else pay = { 3, 1, (uint8_t)((lohi ? 1 : 0) | (r.p(20) ? r.in(0, 127) * 2 : 0)) }; } bytes z = rawzstd(d, sized); pay.insert(pay.end(), z.begin(), z.end());
    Blk b; b.set(pay); b.i.compressionModeRaw = comp_raw(z1 ? CompressionMode::Zstd1 : CompressionMode::Zstd0); b.i.pixelType = pt; b.i.physicalSize = IntSize{ w, h };
    CreateBitmapOptions o; o.handle_zstd_data_size_mismatch = r.p(70); bool threw = false; shared_ptr<IBitmapData> bm;
    try { bm = CreateBitmapFromSubBlock(&b, &o); } catch (std::exception&) { threw = true; }
    vc_assert(threw == (!sized || (n != want && !o.handle_zstd_data_size_mismatch)), "refused exactly if the sizes do not match and a mismatch is not to be handled");
    if (threw) { vc_cover("refused"); return; }
    bytes x = d; if (lohi) { size_t half = n / 2; x.assign(half * 2, 0); for (size_t i = 0; i < half; ++i) { x[2 * i] = d[i]; x[2 * i + 1] = d[half + i]; } }
    x.resize(want, 0); vc_assert(pixels_of(bm.get()) == x, "decoded pixels"); vc_cover("decoded");
}
extern "C" void B_uncompressed()
{
    Rng r = make_rng(); Blk b; static const vector<PixelType> pts = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Gray32, PixelType::Gray64Float };
    PixelType pt = r.pick(pts); uint32_t w = r.in(0, 20), h = r.in(0, 15); int bp; b.i.compressionModeRaw = 0; b.i.pixelType = pt; 
    switch (pt) { case PixelType::Gray32: bp = 4; break; case PixelType::Gray64Float: bp = 8; break; default: bp = bpp(pt); }
    if (r.p(10)) w = (uint32_t)(r.p(50) ? r.next() : (0x100000000ull / bp + r.in(-4, 4))); if (w > 1000) h = r.in(1, 2); 
    u64 line = (u64)w * bp, want = line * h; size_t n = want < 10000 ? (r.p(40) ? (size_t)want : r.p(50) ? (size_t)std::max<int>(0, (int)want + r.in(-30, 30)) : r.in(0, 500)) : r.in(0, 2000); bytes d = r.data(n); b.set(d); b.i.physicalSize = IntSize{ w, h };
    CreateBitmapOptions o; o.handle_uncompressed_data_size_mismatch = r.p(70); bool threw = false; shared_ptr<IBitmapData> bm;
    if (want > (1u << 24) && line <= 0xfffffffcu && o.handle_uncompressed_data_size_mismatch) return;   // a legitimate request for gigabytes
    try { bm = CreateBitmapFromSubBlock(&b, &o); } catch (std::exception&) { threw = true; }
    if (line > 0xffffffffu) { vc_assert(threw, "a line size beyond 32 bits is refused"); vc_cover("large"); return; }
    if (line > 0xfffffffcu) { return; }
    if (want == 0) return;
    vc_assert(threw == (n < want && !o.handle_uncompressed_data_size_mismatch), "refused exactly if there is too little data and that is not to be handled"); if (threw) { vc_cover("refused"); return; }
    bytes x = d; x.resize(want, 0); auto l = bm->Lock(); for (uint32_t y = 0; y < h; ++y) vc_assert(!memcmp((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, x.data() + y * line, line), "decoded pixels"); bm->Unlock(); vc_cover("decoded");
}
