// contracts for the zstd decoders (decoder_zstd.cpp).  ZSTD_getFrameContentSize, ZSTD_decompress and ZSTD_isError are library
// functions: their contracts are assumed.  LoHiBytePackStrided is used by the contract proved for it in lohi.cpp (P11).
// TUS: utilities.cpp libCZI_Utilities.cpp CziUtils.cpp
// NTUS: @lib
// LIBS: -lzstd
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "decoder_zstd.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef uint8_t u8; typedef uint32_t u32;
// ---------------------------------------------------------------- decoding
static const u8* g_src; static u64 g_n, g_fcs, g_q, g_m; static u32 g_h, g_wy, g_ww; static u8 g_b, g_lo, g_hi; static u64 g_i; static bool g_lohi, g_err, g_called;
static u64 c_fcs(const void* p, size_t n) { vc_assert(p == g_src && n == g_n, "the payload is examined"); return g_fcs; }
static size_t c_dec(void* d, size_t cap, const void* p, size_t n)
{
    vc_assert(p == g_src && n == g_n, "the payload is decoded"); vc_writable(d, cap, "destination of the decoder"); vc_assert(!g_called, "decoded once"); g_called = true;
    vc_havoc(d, cap); g_err = vc_bool("err"); if (g_err) { u64 e = vc_u64("code"); vc_assume(e > (u64)-120); return e; }
    g_m = vc_u64("m"); vc_assume(g_m <= cap);
    if (g_lohi) { u64 half = g_m / 2; if (g_i < half) { g_lo = ((u8*)d)[g_i]; g_hi = ((u8*)d)[half + g_i]; } } else if (g_q < g_m) g_b = ((u8*)d)[g_q];
    return g_m;
}
static unsigned c_iserr(size_t c) { return c > (size_t)-120; }
static const char* c_name(size_t) { return "x"; }
static void* c_alloc(void*, u64 size) { if (vc_bool("oom")) return nullptr; return vc_buf(size, "bitmap"); }
static void c_free(void*, void*) {}
static void c_pack(const void* s, size_t n, u32 w, u32 h, u32 st, void* d)
{
    if (!s || !d || st < 2ull * w || n < (u64)w * h * 2) throw std::invalid_argument("x");
    if (w == 0 || h == 0) return;
    u64 last = (u64)(h - 1) * st + 2ull * w; vc_writable(d, last, "destination of the packing");
    u32 y = 0; u64 x = g_i; if (h == g_h) { y = g_wy; x = g_ww; }
    bool in = y < h && x < w; u8 lo = 0, hi = 0; if (in) { u64 i = (u64)y * w + x; lo = ((const u8*)s)[i]; hi = ((const u8*)s)[n / 2 + i]; }
    vc_havoc(d, last);
    if (in) { u64 o = (u64)y * st + 2 * x; vc_assume(((u8*)d)[o] == lo && ((u8*)d)[o + 1] == hi); }
}
static u32 bytes_of(PixelType t) { switch (t) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; case PixelType::Bgra32: return 4; default: return 0; } }

static const char* c_strstr(const char* h, const char* n) { for (;; ++h) { u32 i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return h; if (!*h) return nullptr; } }
struct Site final : public libCZI::ISite
{
    bool IsEnabled(int) override { return vc_bool("log"); }
    void Log(int, const char*) override {}
    std::shared_ptr<libCZI::IDecoder> GetDecoder(ImageDecoderType, const char*) override { return nullptr; }
    std::shared_ptr<libCZI::IBitmapData> CreateBitmap(libCZI::PixelType, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t) override { return nullptr; }
    void TerminateProgram(TerminationReason, const char*) override { vc_assert(false, "the program is not terminated"); }
};
static Site g_site_; static libCZI::ISite* c_site() { return &g_site_; }
enum { ANY = -1, EQ = 0, LT = 1, GT = 2 };
// codec: 0 = zstd0, 1 = zstd1 (any header).  rel: payload as large as / smaller than / larger than the bitmap.  The entries for lohi = 0/1 and the three relations together cover all payloads
static void run(int codec, bool lohi, bool mism, PixelType pt, int rel)
{
    vc_abstract_mul(true); u32 bp = bytes_of(pt); u32 w = VC_U32("w", 0, 6), h = VC_U32("h", 0, 6); g_lohi = lohi; g_called = false; g_err = false; g_h = h; std::vector<u8> nat;
    u64 line = (u64)w * bp, want = (u64)h * line; const u8* p; u64 n, hs = 0; bool okhdr = true;
    if (vc_is_proof())
    {
        n = vc_u64("n"); vc_assume(n < (1ull << 40)); p = (const u8*)vc_buf(n, "payload"); g_fcs = vc_u64("fcs");
        vc_replace_name("^ZSTD_getFrameContentSize$", (void*)&c_fcs); vc_replace_name("^ZSTD_decompress$", (void*)&c_dec); vc_replace_name("^ZSTD_isError$", (void*)&c_iserr); vc_replace_name("^ZSTD_getErrorName$", (void*)&c_name); vc_replace_name("^strstr$", (void*)&c_strstr);
        vc_replace_name("14CHeapAllocator8Allocate", (void*)&c_alloc); vc_replace_name("14CHeapAllocator4Free", (void*)&c_free); vc_replace_name("18LoHiBytePackUnpack19LoHiBytePackStridedEPKv", (void*)&c_pack); vc_replace_name("6detail7GetSiteEv", (void*)&c_site);
        if (rel >= 0) vc_assume(rel == EQ ? g_fcs == want : rel == LT ? g_fcs < want : g_fcs > want);
    }
    u32 wy = VC_U32("wy", 0, h ? h - 1 : 0), wx = VC_U32("wx", 0, line ? (int)line - 1 : 0); vc_assume(wy < h && wx < line);
    g_wy = wy; g_ww = wx / 2; g_q = (u64)wy * line + wx; g_i = (u64)wy * ((u64)w * (bp / 2)) + g_ww;
    if (!vc_is_proof())
    {
        g_fcs = VC_U64("fcs", 0, want + 8); if (VC_U8("exact", 0, 3) == 0) g_fcs = want; vc_assume(g_fcs < 100000); const u8* d = (const u8*)vc_buf(g_fcs, "decoded"); nat.resize(ZSTD_compressBound(g_fcs)); nat.resize(ZSTD_compress(nat.data(), nat.size(), d, g_fcs, 1));
        if (VC_U8("bad", 0, 9) == 0) { nat.resize(nat.size() / 2); g_err = true; }
        if (codec) { u8 b0 = VC_U8("b0", lohi ? 3 : 1, 3), b1 = VC_U8("b1", 1, 1), b2 = vc_u8("b2"); if (lohi) { b0 = 3; b1 = 1; } if (b0 == 3) nat.insert(nat.begin(), { b0, b1, (u8)((b2 & 0xfe) | (lohi ? 1 : 0)) }); else nat.insert(nat.begin(), b0); }
        n = nat.size(); u8* q = (u8*)vc_buf(n, "payload"); if (n) memcpy(q, nat.data(), n); p = q; g_m = g_fcs; u64 half = g_m / 2;
        if (lohi) { if (g_i < half) { g_lo = d[g_i]; g_hi = d[half + g_i]; } } else if (g_q < g_m) g_b = d[g_q];
    }
    if (codec)
    {
        bool hl = false; if (n >= 1 && p[0] == 1) hs = 1; else if (n >= 3 && p[0] == 3 && p[1] == 1) { hs = 3; hl = (p[2] & 1) != 0; }
        okhdr = hs != 0 && hs < n && (!hl || pt == PixelType::Gray16 || pt == PixelType::Bgr48);
        if (vc_is_proof()) vc_assume(hl == lohi || (!okhdr && !lohi));
    }
    g_src = p + hs; g_n = n - hs;
    bool threw = false; std::shared_ptr<IBitmapData> bm; const char* opt = mism ? "handle_data_size_mismatch" : nullptr;
    try { if (codec) { CZstd1Decoder d; bm = d.Decode(p, n, &pt, &w, &h, opt); } else { CZstd0Decoder d; bm = d.Decode(p, n, &pt, &w, &h, opt); } }
    catch (std::exception&) { threw = true; }
    if (threw) { vc_cover("refused"); return; }
    vc_cover("decoded");
    vc_assert(okhdr, "a payload with an unknown header, or lo-hi packing for other pixels than 16 bit, is refused");
    vc_assert(!g_err && g_m == g_fcs, "nothing is returned if decoding failed or gave another size than announced");
    vc_assert(mism || g_m == want, "size mismatch is refused unless it is to be handled");
    auto l = bm->Lock();
    vc_assert(bm->GetPixelType() == pt && bm->GetWidth() == w && bm->GetHeight() == h, "bitmap as requested"); vc_assert(l.stride >= line, "stride");
    u8 got = ((const u8*)l.ptrDataRoi)[(u64)wy * l.stride + wx];
    vc_case((wx & 1) == 0); vc_case(g_i < g_m / 2);
    if (lohi) { bool have = g_i < g_m / 2; vc_assert(got == (have ? ((wx & 1) ? g_hi : g_lo) : 0), "byte of the decoded word, zero if there is none"); }
    else vc_assert(got == (g_q < g_m ? g_b : 0), "decoded byte, zero if there is none");
    bm->Unlock();
}
#define D(nm,pt) extern "C" void H_z0req_##nm() { run(0, false, false, PixelType::pt, ANY); } extern "C" void H_z0mis_##nm() { run(0, false, true, PixelType::pt, ANY); } \
    extern "C" void H_z1req_##nm() { run(1, false, false, PixelType::pt, ANY); } extern "C" void H_z1mis_##nm() { run(1, false, true, PixelType::pt, ANY); }
D(g8,Gray8) D(g16,Gray16) D(f32,Gray32Float) D(bgr24,Bgr24) D(bgr48,Bgr48) D(bgra32,Bgra32)
#define M(nm,pt) extern "C" void H_lhreq_##nm() { run(1, true, false, PixelType::pt, ANY); } extern "C" void H_lhmis_##nm##_eq() { run(1, true, true, PixelType::pt, EQ); } \
    extern "C" void H_lhmis_##nm##_lt() { run(1, true, true, PixelType::pt, LT); } extern "C" void H_lhmis_##nm##_gt() { run(1, true, true, PixelType::pt, GT); }
M(g16,Gray16) M(bgr48,Bgr48)
