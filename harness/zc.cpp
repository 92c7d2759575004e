// contracts for the zstd compressor (zstdCompress.cpp).  ZSTD_compress/compressBound are library functions with assumed contracts;
// CBitmapOperations::Copy and LoHiByteUnpackStrided are used by the contracts proved for them (P09, P11).
// TUS: utilities.cpp libCZI_Utilities.cpp CziUtils.cpp
// NTUS: @lib
// LIBS: -lzstd
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "zstdCompress.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef uint8_t u8; typedef uint32_t u32;
static u32 bytes_of(PixelType t) { switch (t) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; case PixelType::Bgra32: return 4; default: return 0; } }
static const u8* g_src; static u32 g_w, g_h, g_st, g_wy, g_wx, g_bp; static u64 g_line, g_want, g_q, g_i; static PixelType g_pt; static bool g_lohi, g_err, g_called; static u8 g_b, g_o; static void* g_dst; static u64 g_cap, g_r; static bool g_hasl; static int g_l;
static size_t c_compress(void* d, size_t cap, const void* s, size_t n, int level)
{
    vc_assert(!g_called, "compressed once"); g_called = true; vc_assert(n == g_want, "size of the source data"); vc_assert(d == g_dst && cap == g_cap, "destination of the compression"); vc_writable(d, cap, "destination of the compression");
    vc_assert(level >= -131072 && level <= 22, "valid level"); if (g_hasl) vc_assert(level == (g_l < -131072 ? -131072 : g_l > 22 ? 22 : g_l), "the requested level");
    const u8* p = (const u8*)s; u64 half = g_want / 2;
    if (g_lohi) vc_assert(p[(g_wx & 1) ? half + g_i : g_i] == g_b, "the byte lies in the half for low or high bytes"); else vc_assert(p[g_q] == g_b, "byte of the bitmap");
    vc_havoc(d, cap); g_err = vc_bool("err"); if (g_err) { u64 e = vc_u64("code"); vc_assume(e > (u64)-120); return e; }
    g_r = vc_u64("r"); vc_assume(g_r <= cap); if (g_r) g_o = ((u8*)d)[0]; return g_r;
}
static unsigned c_iserr(size_t c) { return c > (size_t)-120; }
static int c_min() { return -131072; } static int c_max() { return 22; }
static void c_unpack(const void* s, u32 w, u32 st, u32 h, void* d)
{
    if (!s || !d || st < 2ull * w) throw std::invalid_argument("x"); u64 half = (u64)w * h; vc_writable(d, 2 * half, "destination of the unpacking");
    bool in = g_wy < h && g_wx / 2 < w; u8 lo = 0, hi = 0; if (in) { u64 o = (u64)g_wy * st + 2ull * (g_wx / 2); lo = ((const u8*)s)[o]; hi = ((const u8*)s)[o + 1]; }
    vc_havoc(d, 2 * half); if (in) { u64 i = (u64)g_wy * w + g_wx / 2; vc_assume(((u8*)d)[i] == lo && ((u8*)d)[half + i] == hi); }
}
static void c_copy(PixelType sp, const void* s, int sst_, PixelType dp, void* d, int dst_, int w_, int h_, bool border)
{
    u32 sst = (u32)sst_, dst = (u32)dst_, w = (u32)w_, h = (u32)h_; vc_assert(sst_ >= 0 && dst_ >= 0 && w_ >= 0 && h_ >= 0, "arguments of the copy");
    vc_assert(sp == g_pt && dp == g_pt && !border, "plain copy"); if (g_pt == PixelType::Bgra32) throw std::logic_error("unsupported");
    if (w == 0 || h == 0) return; u64 line = (u64)w * g_bp; vc_assert(dst >= line && sst >= line, "strides of the copy"); u64 last = (u64)(h - 1) * dst + line; vc_writable(d, last, "destination of the copy");
    bool in = g_wy < h && g_wx < line; u8 b = 0; if (in) b = ((const u8*)s)[(u64)g_wy * sst + g_wx]; vc_havoc(d, last); if (in) vc_assume(((u8*)d)[(u64)g_wy * dst + g_wx] == b);
}
struct Par final : public ICompressParameters
{
    bool lohi, haslohi, lohityped;
    bool TryGetProperty(int key, CompressParameter* p) const override
    {
        if (key == (int)CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL) { if (!g_hasl) return false; if (p) p->SetInt32(g_l); return true; }
        if (key == (int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING) { if (!haslohi) return false; if (p) { if (lohityped) p->SetBoolean(lohi); else p->SetInt32(1); } return true; }
        return false;
    }
};
static void run(int codec, bool lohi, PixelType pt)
{
    vc_abstract_mul(true); g_pt = pt; g_bp = bytes_of(pt); g_w = VC_U32("w", 0, 6); g_h = VC_U32("h", 0, 6); g_line = (u64)g_w * g_bp; g_st = VC_U32("stride", (int)g_line, (int)g_line + 4); g_called = g_err = false; 
    Par par; bool usepar = vc_bool("parameters"); g_hasl = usepar && vc_bool("haslevel"); g_l = VC_I32("level", -3, 5); par.haslohi = vc_bool("haslohi"); par.lohityped = vc_bool("lohityped"); par.lohi = vc_bool("lohi");
    bool is16 = pt == PixelType::Gray16 || pt == PixelType::Bgr48; g_lohi = codec == 1 && is16 && usepar && par.haslohi && par.lohityped && par.lohi; vc_assume(g_lohi == lohi);
    vc_assume(g_w < 0x80000000u && g_h < 0x80000000u && g_st < 0x80000000u);   // the copy works with signed strides and sizes
    bool bad = g_w == 0 || g_h == 0 || g_st < g_line; g_want = (u64)g_h * g_line; u64 n = VC_U64("n", 0, 200), hs = codec ? 3 : 0; vc_assume(vc_is_proof() ? n < (1ull << 48) : n < 100000);
    u64 ss = 0; if (!bad) ss = (u64)(g_h - 1) * g_st + g_line; g_src = (const u8*)vc_buf(ss, "src"); u8* d = (u8*)vc_buf(n, "dst"); bool badd = n < hs + 1;
    g_wy = VC_U32("wy", 0, g_h ? g_h - 1 : 0); g_wx = VC_U32("wx", 0, g_line ? (int)g_line - 1 : 0);
    if (!bad) { vc_assume(g_wy < g_h && g_wx < g_line); g_b = g_src[(u64)g_wy * g_st + g_wx]; }
    g_q = (u64)g_wy * g_line + g_wx; g_i = (u64)g_wy * ((u64)g_w * (g_bp / 2)) + g_wx / 2;
    g_dst = d + hs; g_cap = n - hs;
    vc_replace_name("^ZSTD_compress$", (void*)&c_compress); vc_replace_name("^ZSTD_isError$", (void*)&c_iserr); vc_replace_name("^ZSTD_minCLevel$", (void*)&c_min); vc_replace_name("^ZSTD_maxCLevel$", (void*)&c_max);
    vc_replace_name("21LoHiByteUnpackStridedEPKv", (void*)&c_unpack); vc_replace_name("17CBitmapOperations4CopyE", (void*)&c_copy);
    bool threw = false, r = false; size_t sz = n;
    try { r = codec ? ZstdCompress::CompressZStd1(g_w, g_h, g_st, pt, g_src, d, sz, usepar ? &par : nullptr) : ZstdCompress::CompressZStd0(g_w, g_h, g_st, pt, g_src, d, sz, usepar ? &par : nullptr); }
    catch (std::exception&) { threw = true; }
    if (bad || badd) { vc_cover("refused"); vc_assert(threw, "arguments that describe no bitmap are refused"); vc_assert(!g_called, "nothing is compressed"); return; }
    if (threw) { vc_cover("threw"); if (vc_is_proof()) vc_assert(!g_called, "no exception after the compression"); return; }
    if (!r) { vc_cover("too small"); if (vc_is_proof()) vc_assert(g_called && g_err, "failure only if the destination is too small"); return; }
    vc_cover("compressed"); if (vc_is_proof()) { vc_assert(g_called && !g_err, "something was compressed"); vc_assert(sz == g_r + hs, "reported size"); if (g_r) vc_assert(d[hs] == g_o, "the compressed data is left alone"); }
    vc_assert(sz <= n, "reported size");
    if (codec) vc_assert(d[0] == 3 && d[1] == 1 && d[2] == (lohi ? 1 : 0), "header");
}
#define D(nm,pt) extern "C" void H_c0_##nm() { run(0, false, PixelType::pt); } extern "C" void H_c1_##nm() { run(1, false, PixelType::pt); }
D(g8,Gray8) D(g16,Gray16) D(f32,Gray32Float) D(bgr24,Bgr24) D(bgr48,Bgr48) D(bgra32,Bgra32)
extern "C" void H_c1lohi_g16() { run(1, true, PixelType::Gray16); } extern "C" void H_c1lohi_bgr48() { run(1, true, PixelType::Bgr48); }
