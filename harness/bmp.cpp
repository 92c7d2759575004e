// Bitmap copy / convert / fill / resize (BitmapOperations.cpp, BitmapOperations.hpp)
// TUS: CziUtils.cpp
// NTUS: libCZI_Utilities.cpp
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "BitmapOperations.cpp"
#undef private
#undef protected
#include "spec_pixel.h"
using namespace libCZI;
using namespace libCZI::detail;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
typedef void (*CopyFn)(PixelType, const void*, int, PixelType, void*, int, int, int, bool);

struct Ctx { const u8* src; u8* dst; int w, h, ss, ds, bs, bd; int S, D; int wy, wx; int fy, fx; int wb; u8 wantb; u8 want[24]; bool border; };
static bool pixel_done(Ctx* c) {
    return c->dst[(u64)c->wy * (u64)c->ds + (u64)c->wx * (u64)c->bd + (u64)c->wb] == c->wantb;   // wb: any byte of the pixel
}
static bool frame_ok(Ctx* c) { u64 o = (u64)c->fy * (u64)c->ds + (u64)c->fx; return c->dst[o] == vc_initial(c->dst, o); }
static bool inv_rows(void* p, u64 y, u64) {
    Ctx* c = (Ctx*)p;
    if (c->h < 0 || y > (u64)c->h) return false;
    if ((u64)c->wy < y && !pixel_done(c)) return false;
    return frame_ok(c);
}
static bool inv_cols(void* p, u64 x, u64 y) {
    Ctx* c = (Ctx*)p;
    if (x > (u64)c->w) return false;
    vc_case((u64)c->wy == y && (u64)c->wx == x);
    if (((u64)c->wy < y || ((u64)c->wy == y && (u64)c->wx < x)) && !pixel_done(c)) return false;
    return frame_ok(c);
}
static void setup(Ctx& c, int S, int D)
{
    c.S = S; c.D = D; c.bs = spec_bpp(S); c.bd = spec_bpp(D); c.border = false;
    c.w = VC_I32("w", 1, 7); c.h = VC_I32("h", 1, 5);
    vc_assume(c.w >= 0 && c.w <= 0x7fffff && c.h >= 0 && c.h <= 0x7fffffff);
    c.ss = VC_I32("sstride", c.w * c.bs, c.w * c.bs + 3); c.ds = VC_I32("dstride", c.w * c.bd + 1, c.w * c.bd + 4);
    vc_assume(c.ss >= c.w * c.bs && c.ds > c.w * c.bd);
    c.src = (u8*)vc_buf((u64)c.ss * c.h, "src"); c.dst = (u8*)vc_buf((u64)c.ds * c.h, "dst");
    c.wy = VC_I32("wy", 0, c.h - 1); c.wx = VC_I32("wx", 0, c.w - 1); c.fy = VC_I32("fy", 0, c.h - 1); c.fx = VC_I32("fx", c.w * c.bd, c.ds - 1);
    vc_assume(c.wy >= 0 && c.wy < c.h && c.wx >= 0 && c.wx < c.w && c.fy >= 0 && c.fy < c.h && c.fx >= c.w * c.bd && c.fx < c.ds);
    c.wb = VC_I32("wb", 0, c.bd - 1); vc_assume(c.wb >= 0 && c.wb < c.bd);
}
static void pick(Ctx& c) { u8 v = c.want[0]; for (int i = 1; i < c.bd; ++i) if (c.wb == i) v = c.want[i]; c.wantb = v; }
static inline void convert_entry(int S, int D)
{
    Ctx c; vc_abstract_mul(true); vc_opt("fp_uf", 1); setup(c, S, D);
    spec_convert(S, D, c.src + (u64)c.wy * (u64)c.ss + (u64)c.wx * (u64)c.bs, c.want);
    pick(c);
    vc_loop_inv(0, inv_rows, &c, "rows"); vc_loop_inv(1, inv_cols, &c, "columns");
    CBitmapOperations::Copy((PixelType)S, c.src, c.ss, (PixelType)D, c.dst, c.ds, c.w, c.h, false);
    vc_cover("done");
    vc_assert(pixel_done(&c), "every destination pixel is the converted source pixel at the same position");
    vc_assert(frame_ok(&c), "row padding of the destination is untouched");
}
#define PAIR(a, S, b, D) extern "C" void H_copy_##a##_##b() { convert_entry(S, D); }
PAIR(g8, 0, g8, 0) PAIR(g8, 0, g16, 1) PAIR(g8, 0, f32, 2) PAIR(g8, 0, bgr24, 3) PAIR(g8, 0, bgr48, 4)
PAIR(g16, 1, g8, 0) PAIR(g16, 1, g16, 1) PAIR(g16, 1, f32, 2) PAIR(g16, 1, bgr24, 3) PAIR(g16, 1, bgr48, 4)
PAIR(f32, 2, f32, 2)
PAIR(bgr24, 3, g8, 0) PAIR(bgr24, 3, g16, 1) PAIR(bgr24, 3, f32, 2) PAIR(bgr24, 3, bgr24, 3) PAIR(bgr24, 3, bgr48, 4)
PAIR(bgr48, 4, g8, 0) PAIR(bgr48, 4, g16, 1) PAIR(bgr48, 4, f32, 2) PAIR(bgr48, 4, bgr24, 3) PAIR(bgr48, 4, bgr48, 4)

// unsupported pairs are refused and nothing is written
extern "C" void H_copy_refused()
{
    u8 S = VC_U8("S", 0, 15), D = VC_U8("D", 0, 15); u8 a[48], b[48]; for (int i = 0; i < 48; ++i) a[i] = b[i] = 7;
    vc_assume(!spec_supported(S, D));
    bool threw = false;
    try { CBitmapOperations::Copy((PixelType)S, a, 24, (PixelType)D, b, 24, 1, 1, false); } catch (std::exception&) { threw = true; }
    vc_assert(threw, "unsupported conversion refused");
    u8 i = VC_U8("i", 0, 47); vc_assume(i < 48); vc_assert(b[i] == 7, "nothing written");
    vc_cover("done");
}
// border variant (same pixel type): border pixels are zero, inner pixels are the source pixels
static inline void border_entry(int S)
{
    Ctx c; vc_abstract_mul(true); setup(c, S, S);
    bool edge = c.wy == 0 || c.wx == 0 || c.wy == c.h - 1 || c.wx == c.w - 1;
    for (int i = 0; i < c.bs; ++i) c.want[i] = edge ? 0 : c.src[(u64)c.wy * (u64)c.ss + (u64)c.wx * (u64)c.bs + i];
    c.border = true; pick(c);
    struct L { static bool inv(void* p, u64 k, u64) { Ctx* c = (Ctx*)p; if (k > (u64)c->h) return false; vc_case((u64)c->wy == k + 1); if ((u64)c->wy < k + 1 && (c->wy == 0 || c->wy != c->h - 1) && !pixel_done(c)) return false; return frame_ok(c); } };
    vc_loop_inv(0, L::inv, &c, "rows");
    CBitmapOperations::Copy((PixelType)S, c.src, c.ss, (PixelType)S, c.dst, c.ds, c.w, c.h, true);
    vc_cover("done");
    vc_assert(pixel_done(&c), "border drawn around the matching source pixels");
    vc_assert(frame_ok(&c), "row padding of the destination is untouched");
}
extern "C" void H_border_g8() { border_entry(0); }
extern "C" void H_border_g16() { border_entry(1); }
extern "C" void H_border_f32() { border_entry(2); }
extern "C" void H_border_bgr24() { border_entry(3); }
extern "C" void H_border_bgr48() { border_entry(4); }

// placement: CopyWithOffset against the contract of Copy (region precondition; maps pixel (x,y) of the region)
struct Call { int n; PixelType S, D; const u8* sp; u8* dp; int ss, ds, w, h; bool b; };
static Call g_call;
static void copy_contract(PixelType S, const void* sp, int ss, PixelType D, void* dp, int ds, int w, int h, bool b)
{
    ++g_call.n; g_call.S = S; g_call.D = D; g_call.sp = (const u8*)sp; g_call.dp = (u8*)dp; g_call.ss = ss; g_call.ds = ds; g_call.w = w; g_call.h = h; g_call.b = b;
}
static inline void place_entry(int S, int D)
{
    vc_abstract_mul(true);
    CBitmapOperations::CopyWithOffsetInfo i;
    i.srcPixelType = (PixelType)S; i.dstPixelType = (PixelType)D;
    i.srcWidth = VC_I32("sw", 1, 7); i.srcHeight = VC_I32("sh", 1, 5); i.dstWidth = VC_I32("dw", 1, 7); i.dstHeight = VC_I32("dh", 1, 5);
    const int LIM = 0x3fffffff;
    i.xOffset = VC_I32("xo", -8, 8); i.yOffset = VC_I32("yo", -6, 6);
    vc_assume(i.srcWidth >= 0 && i.srcHeight >= 0 && i.dstWidth >= 0 && i.dstHeight >= 0 && i.srcWidth <= LIM && i.srcHeight <= LIM && i.dstWidth <= LIM && i.dstHeight <= LIM);
    vc_assume(i.xOffset >= -LIM && i.xOffset <= LIM && i.yOffset >= -LIM && i.yOffset <= LIM);
    u64 bs = spec_bpp(S), bd = spec_bpp(D);
    i.srcStride = VC_I32("ss", i.srcWidth * (int64_t)bs, i.srcWidth * (int64_t)bs + 3); i.dstStride = VC_I32("ds", i.dstWidth * (int64_t)bd, i.dstWidth * (int64_t)bd + 3);
    vc_assume(i.srcStride >= 0 && i.dstStride >= 0 && (u64)i.srcStride >= i.srcWidth * bs && (u64)i.dstStride >= i.dstWidth * bd);
    if (!vc_is_proof()) vc_assume((u64)i.srcStride * i.srcHeight < 100000 && (u64)i.dstStride * i.dstHeight < 100000);
    i.drawTileBorder = vc_bool("border"); if (!vc_is_proof()) i.drawTileBorder = false;
    u8* src = (u8*)vc_buf((u64)i.srcStride * i.srcHeight, "src"); u8* dst = (u8*)vc_buf((u64)i.dstStride * i.dstHeight, "dst");
    i.srcPtr = src; i.dstPtr = dst;
    g_call.n = 0;
    vc_replace((void*)(CopyFn)&CBitmapOperations::Copy, (void*)&copy_contract);
    CBitmapOperations::CopyWithOffset(i);
    // an arbitrary destination pixel
    int px = VC_I32("px", 0, i.dstWidth - 1), py = VC_I32("py", 0, i.dstHeight - 1); vc_assume(px >= 0 && py >= 0 && px < i.dstWidth && py < i.dstHeight);
    bool inside = px >= i.xOffset && py >= i.yOffset && px < i.xOffset + i.srcWidth && py < i.yOffset + i.srcHeight;
    u64 so = (u64)(int64_t)(py - i.yOffset) * (u64)i.srcStride + (u64)(int64_t)(px - i.xOffset) * bs, d0 = (u64)py * (u64)i.dstStride + (u64)px * bd;
    if (vc_is_proof())
    {
        vc_assert(g_call.n <= 1, "at most one region is copied");
        vc_assert(!inside || g_call.n == 1, "the overlap is copied");
        if (g_call.n == 1)
        {
            vc_cover("copied");
            vc_assert(g_call.S == i.srcPixelType && g_call.D == i.dstPixelType && g_call.ss == i.srcStride && g_call.ds == i.dstStride && g_call.b == i.drawTileBorder, "pixel types, strides and border flag passed on");
            // ghost: region origin in destination coordinates
            int64_t ox = i.xOffset > 0 ? i.xOffset : 0, oy = i.yOffset > 0 ? i.yOffset : 0;
            vc_assert(g_call.w > 0 && g_call.h > 0, "region not empty");
            vc_assert(ox + g_call.w <= i.dstWidth && oy + g_call.h <= i.dstHeight, "region inside the destination bitmap");
            vc_assert(ox - i.xOffset + g_call.w <= i.srcWidth && oy - i.yOffset + g_call.h <= i.srcHeight, "region inside the source bitmap");
            vc_assert(g_call.dp == dst + ((u64)oy * (u64)i.dstStride + (u64)ox * bd), "destination address of the region");
            vc_assert(g_call.sp == src + ((u64)(i.yOffset < 0 ? -i.yOffset : 0) * (u64)i.srcStride + (u64)(i.xOffset < 0 ? -i.xOffset : 0) * bs), "source address of the region");
            bool inreg = px >= ox && px < ox + g_call.w && py >= oy && py < oy + g_call.h;
            vc_assert(inreg == inside, "region is exactly the overlap");
        }
    }
    else
    {
        vc_cover("copied");
        for (int y = 0; y < i.dstHeight; ++y) for (int x = 0; x < i.dstStride; ++x)
        {
            u64 o = (u64)y * i.dstStride + x; int X = x / (int)bd; bool in = x < i.dstWidth * (int)bd && X >= i.xOffset && y >= i.yOffset && X < i.xOffset + i.srcWidth && y < i.yOffset + i.srcHeight;
            u8 want[24]; if (in) spec_convert(S, D, src + (u64)(y - i.yOffset) * i.srcStride + (u64)(X - i.xOffset) * bs, want);
            vc_assert(dst[o] == (in ? want[x - X * (int)bd] : vc_initial(dst, o)), in ? "overlap pixel is the converted source pixel" : "bytes outside the overlap unchanged");
        }
        for (u64 o = 0; o < (u64)i.srcStride * i.srcHeight; ++o) vc_assert(src[o] == vc_initial(src, o), "source unchanged");
    }
}
extern "C" void H_place_g8_bgr24() { place_entry(0, 3); }
extern "C" void H_place_bgr24_g8() { place_entry(3, 0); }
extern "C" void H_place_g16_bgr48() { place_entry(1, 4); }
extern "C" void H_place_bgr48_g16() { place_entry(4, 1); }
extern "C" void H_place_f32_f32() { place_entry(2, 2); }

// ---- filling
struct VBitmap final : IBitmapData
{
    PixelType pt; u32 w, h; u8* p; u32 st; u64 sz; int locks = 0;
    PixelType GetPixelType() const override { return pt; }
    IntSize GetSize() const override { return IntSize{ w, h }; }
    BitmapLockInfo Lock() override { ++locks; BitmapLockInfo b; b.ptrData = p; b.ptrDataRoi = p; b.stride = st; b.size = sz; return b; }
    void Unlock() override { --locks; }
    int GetLockCount() const override { return locks; }
};
static u8 sclamp8(float f) { if (f <= 0) return 0; if (f >= 255) return 255; return (u8)(f + .5f); }
static uint16_t sclamp16(float f) { if (f <= 0) return 0; if (f >= 65535) return 65535; return (uint16_t)(f + .5f); }
static inline void fill_entry(int D)
{
    Ctx c; vc_abstract_mul(true); vc_opt("fp_uf", 1); setup(c, D, D);
    RgbFloatColor col; col.r = vc_f32("r"); col.g = vc_f32("g"); col.b = vc_f32("b");
    if (!vc_is_proof()) { col.r = VC_U8("ri", 0, 255) / 200.f - .1f; col.g = VC_U8("gi", 0, 255) / 200.f - .1f; col.b = VC_U8("bi", 0, 255) / 200.f - .1f; }
    if (D == 0) c.want[0] = sclamp8((255 * (col.r + col.g + col.b)) / 3);
    if (D == 1) spec_put16(c.want, sclamp16((65535 * (col.r + col.g + col.b)) / 3));
    if (D == 2) spec_putf(c.want, (col.r + col.g + col.b) / 3);
    if (D == 3 || D == 9) { c.want[0] = sclamp8(255 * col.b); c.want[1] = sclamp8(255 * col.g); c.want[2] = sclamp8(255 * col.r); c.want[3] = 255; }
    if (D == 4) { spec_put16(c.want, sclamp16(65535 * col.b)); spec_put16(c.want + 2, sclamp16(65535 * col.g)); spec_put16(c.want + 4, sclamp16(65535 * col.r)); }
    pick(c);
    vc_loop_inv(0, inv_rows, &c, "rows"); vc_loop_inv(1, inv_cols, &c, "columns");
    VBitmap bm; bm.pt = (PixelType)D; bm.w = c.w; bm.h = c.h; bm.p = c.dst; bm.st = c.ds; bm.sz = (u64)c.ds * c.h;
    CBitmapOperations::Fill(&bm, col);
    vc_cover("done");
    vc_assert(pixel_done(&c), "every pixel has the colour converted to the pixel type");
    vc_assert(frame_ok(&c), "row padding untouched");
    vc_assert(bm.locks == 0, "bitmap unlocked again");
}
extern "C" void H_fill_g8() { fill_entry(0); }
extern "C" void H_fill_g16() { fill_entry(1); }
extern "C" void H_fill_f32() { fill_entry(2); }
extern "C" void H_fill_bgr24() { fill_entry(3); }
extern "C" void H_fill_bgr48() { fill_entry(4); }
extern "C" void H_fill_bgra32() { fill_entry(9); }
extern "C" void H_fill_refused()
{
    u8 D = VC_U8("D", 0, 20), a[32]; for (int i = 0; i < 32; ++i) a[i] = 9;
    vc_assume(!(D <= 4 || D == 9));
    VBitmap bm; bm.pt = (PixelType)D; bm.w = 1; bm.h = 1; bm.p = a; bm.st = 32; bm.sz = 32;
    bool threw = false;
    try { CBitmapOperations::Fill(&bm, RgbFloatColor{ 1,1,1 }); } catch (std::exception&) { threw = true; }
    u8 i = VC_U8("i", 0, 31); vc_assume(i < 32);
    vc_assert(threw, "filling an unsupported pixel type is refused"); vc_assert(a[i] == 9, "refused filling writes nothing"); vc_assert(vc_is_proof() || bm.locks == 0, "lock released");  // destructors run by unwinding are outside the proof
    vc_cover("done");
}
// byte order / channel order helpers
static inline void swap_entry(int which)
{
    // 0: CopyConvertBigEndian Gray16, 1: Bgr48; 2: RGB48ToBGR48 (in place)
    Ctx c; vc_abstract_mul(true); setup(c, which == 0 ? 1 : 4, which == 0 ? 1 : 4);
    const u8* s = (which == 2 ? c.dst : c.src); u64 o = (u64)c.wy * (u64)(which == 2 ? c.ds : c.ss) + (u64)c.wx * (u64)c.bs;
    for (int i = 0; i < c.bs; ++i) { int j = which < 2 ? (i ^ 1) : (i < 2 ? i + 4 : i >= 4 ? i - 4 : i); c.want[i] = s[o + j]; }
    pick(c);
    if (which == 1) vc_assume(c.w < 0x2aaaaa);
    struct L {
        static bool cols3(void* p, u64 x, u64 y) { Ctx* c = (Ctx*)p; if (x > 3 * (u64)c->w) return false; vc_case((u64)c->wy == y && (u64)c->wx * 3 + (u64)(c->wb / 2) == x); if (((u64)c->wy < y || ((u64)c->wy == y && (u64)c->wx * 3 + (u64)(c->wb / 2) < x)) && !pixel_done(c)) return false; return frame_ok(c); }
        // in place: not yet visited pixels still hold the initial bytes
        static bool init(Ctx* c) { u64 o = (u64)c->wy * (u64)c->ds + (u64)c->wx * (u64)c->bd; for (int i = 0; i < 6; ++i) if (c->dst[o + i] != vc_initial(c->dst, o + i)) return false; return true; }
        static bool rowsip(void* p, u64 y, u64) { Ctx* c = (Ctx*)p; if (y > (u64)c->h) return false; if ((u64)c->wy < y) { if (!pixel_done(c)) return false; } else if (!init(c)) return false; return frame_ok(c); }
        static bool colsip(void* p, u64 x, u64 y) { Ctx* c = (Ctx*)p; if (x > (u64)c->w) return false; vc_case((u64)c->wy == y && (u64)c->wx == x); if ((u64)c->wy < y || ((u64)c->wy == y && (u64)c->wx < x)) { if (!pixel_done(c)) return false; } else if (!init(c)) return false; return frame_ok(c); }
    };
    vc_loop_inv(0, which == 2 ? L::rowsip : inv_rows, &c, "rows"); vc_loop_inv(1, which == 1 ? L::cols3 : which == 2 ? L::colsip : inv_cols, &c, "columns");
    if (which < 2) CBitmapOperations::CopyConvertBigEndian(which ? PixelType::Bgr48 : PixelType::Gray16, c.src, c.ss, c.dst, c.ds, c.w, c.h);
    else CBitmapOperations::RGB48ToBGR48(c.w, c.h, (uint16_t*)c.dst, c.ds);
    vc_cover("done");
    vc_assert(pixel_done(&c), which < 2 ? "bytes of each component swapped" : "red and blue exchanged");
    vc_assert(frame_ok(&c), "row padding untouched");
}
extern "C" void H_swap_g16() { swap_entry(0); }
extern "C" void H_swap_bgr48() { swap_entry(1); }
extern "C" void H_rgb_bgr() { swap_entry(2); }

// ---- nearest-neighbour resizing: for every floating-point behaviour (operations uninterpreted) the accesses stay inside and
// a destination pixel is either unchanged or the converted source pixel of the clamped, rounded back-projection
struct NCtx { u8* dst; int dw, dh, ds, bd; int wy, wx; u8 want, old; u64 o; int fy, fx; bool outside; };
static bool nn_ok(void* p, u64, u64) {
    NCtx* c = (NCtx*)p; vc_case_at(c->wx, c->wy); u8 v = c->dst[c->o];
    if (v != c->old && (c->outside || v != c->want)) return false;
    u64 f = (u64)c->fy * (u64)c->ds + (u64)c->fx; return c->dst[f] == vc_initial(c->dst, f);
}
static bool nn_rows(void* p, u64, u64) {
    NCtx* c = (NCtx*)p; u8 v = c->dst[c->o];
    if (v != c->old && (c->outside || v != c->want)) return false;
    u64 f = (u64)c->fy * (u64)c->ds + (u64)c->fx; return c->dst[f] == vc_initial(c->dst, f);
}
static inline void nn_entry(int S, int D)
{
    vc_abstract_mul(true); vc_opt("fp_uf", 1);
    CBitmapOperations::NNResizeInfo2Dbl i; int bs = spec_bpp(S), bd = spec_bpp(D);
    i.srcWidth = VC_I32("sw", 1, 7); i.srcHeight = VC_I32("sh", 1, 5); i.dstWidth = VC_I32("dw", 1, 9); i.dstHeight = VC_I32("dh", 1, 9);
    vc_assume(i.srcWidth > 0 && i.srcHeight > 0 && i.dstWidth > 0 && i.dstHeight > 0 && i.srcWidth <= 0x7fffff && i.srcHeight < 0x7ffffff && i.dstWidth <= 0x7fffff && i.dstHeight < 0x7ffffff);
    i.srcStride = VC_I32("ss", i.srcWidth * bs, i.srcWidth * bs + 3); i.dstStride = VC_I32("ds", i.dstWidth * bd + 1, i.dstWidth * bd + 4);
    vc_assume(i.srcStride >= i.srcWidth * bs && i.dstStride > i.dstWidth * bd);
    u8* src = (u8*)vc_buf((u64)i.srcStride * i.srcHeight, "src"); u8* dst = (u8*)vc_buf((u64)i.dstStride * i.dstHeight, "dst");
    i.srcPtr = src; i.dstPtr = dst;
    if (vc_is_proof()) { i.srcRoiX = vc_f64("sx"); i.srcRoiY = vc_f64("sy"); i.srcRoiW = vc_f64("sW"); i.srcRoiH = vc_f64("sH"); i.dstRoiX = vc_f64("dx"); i.dstRoiY = vc_f64("dy"); i.dstRoiW = vc_f64("dW"); i.dstRoiH = vc_f64("dH"); }
    else { i.srcRoiX = VC_I32("sxi", -20, 20) / 4.; i.srcRoiY = VC_I32("syi", -20, 20) / 4.; i.srcRoiW = VC_I32("sWi", 1, 40) / 4.; i.srcRoiH = VC_I32("sHi", 1, 40) / 4.; i.dstRoiX = VC_I32("dxi", -20, 40) / 4.; i.dstRoiY = VC_I32("dyi", -20, 40) / 4.; i.dstRoiW = VC_I32("dWi", 1, 40) / 4.; i.dstRoiH = VC_I32("dHi", 1, 40) / 4.;
        vc_assume(i.srcRoiW > 0 && i.srcRoiW < 1e6 && i.srcRoiH > 0 && i.srcRoiH < 1e6 && i.dstRoiW > 0 && i.dstRoiW < 1e6 && i.dstRoiH > 0 && i.dstRoiH < 1e6 && fabs(i.srcRoiX) < 1e6 && fabs(i.srcRoiY) < 1e6 && fabs(i.dstRoiX) < 1e6 && fabs(i.dstRoiY) < 1e6); }
    NCtx c; c.dst = dst; c.dw = i.dstWidth; c.dh = i.dstHeight; c.ds = i.dstStride; c.bd = bd;
    c.wy = VC_I32("wy", 0, c.dh - 1); c.wx = VC_I32("wx", 0, c.dw - 1); c.fy = VC_I32("fy", 0, c.dh - 1); c.fx = VC_I32("fx", c.dw * bd, c.ds - 1);
    vc_assume(c.wy >= 0 && c.wy < c.dh && c.wx >= 0 && c.wx < c.dw && c.fy >= 0 && c.fy < c.dh && c.fx >= c.dw * bd && c.fx < c.ds);
    int wb = VC_I32("wb", 0, bd - 1); vc_assume(wb >= 0 && wb < bd);
    c.o = (u64)c.wy * (u64)c.ds + (u64)c.wx * (u64)bd + (u64)wb; c.old = dst[c.o];
    // back-projection of the witness pixel
    double rw = i.srcRoiW / i.dstRoiW, rh = i.srcRoiH / i.dstRoiH;
    long sy = lround((c.wy - i.dstRoiY) * rh + i.srcRoiY), sx = lround((c.wx - i.dstRoiX) * rw + i.srcRoiX);
    if (sy < 0) sy = 0; else if (sy >= i.srcHeight) sy = i.srcHeight - 1;
    if (sx < 0) sx = 0; else if (sx >= i.srcWidth) sx = i.srcWidth - 1;
    u8 w[24]; spec_convert(S, D, src + (u64)sy * (u64)i.srcStride + (u64)sx * (u64)bs, w);
    c.want = w[0]; for (int k = 1; k < bd; ++k) if (wb == k) c.want = w[k];
    c.outside = c.wx < (int)i.dstRoiX || c.wx > (int)(i.dstRoiX + i.dstRoiW) || c.wy < (int)i.dstRoiY || c.wy > (int)(i.dstRoiY + i.dstRoiH);
    vc_loop_inv(0, nn_rows, &c, "rows"); vc_loop_inv(1, nn_ok, &c, "columns");
    CBitmapOperations::NNScale2((PixelType)S, (PixelType)D, i);
    vc_cover("done");
    if (!vc_is_proof())
    {
        // every pixel well inside the rectangle whose back-projection lies inside the source is set
        double py = (c.wy - i.dstRoiY) * rh + i.srcRoiY, px = (c.wx - i.dstRoiX) * rw + i.srcRoiX, e = 1e-6;
        if (c.wy > i.dstRoiY + e && c.wy < i.dstRoiY + i.dstRoiH - e && c.wx > i.dstRoiX + e && c.wx < i.dstRoiX + i.dstRoiW - e && py > e && py < i.srcHeight - 1 - e && px > e && px < i.srcWidth - 1 - e)
        { vc_cover("inside"); vc_assert(dst[c.o] == c.want, "every pixel of the destination rectangle is set"); }
    }
    vc_assert(nn_rows(&c, 0, 0), "a destination pixel is unchanged or the nearest source pixel; outside the rectangle and in the padding nothing is written");
}
#define NN(a, S, b, D) extern "C" void H_nn_##a##_##b() { nn_entry(S, D); }
NN(g8, 0, g8, 0)
NN(g8, 0, g16, 1)
NN(g8, 0, f32, 2)
NN(g8, 0, bgr24, 3)
NN(g8, 0, bgr48, 4)
NN(g16, 1, g8, 0)
NN(g16, 1, g16, 1)
NN(g16, 1, f32, 2)
NN(g16, 1, bgr24, 3)
NN(g16, 1, bgr48, 4)
NN(bgr24, 3, g8, 0)
NN(bgr24, 3, g16, 1)
NN(bgr24, 3, f32, 2)
NN(bgr24, 3, bgr24, 3)
NN(bgr24, 3, bgr48, 4)
NN(bgr48, 4, g8, 0)
NN(bgr48, 4, g16, 1)
NN(bgr48, 4, f32, 2)
NN(bgr48, 4, bgr24, 3)
NN(bgr48, 4, bgr48, 4)
NN(f32, 2, f32, 2)
NN(bgra32, 9, bgra32, 9)
extern "C" void H_nn_refused()
{
    u8 S = VC_U8("S", 0, 15), D = VC_U8("D", 0, 15), a[32], b[32]; for (int i = 0; i < 32; ++i) a[i] = b[i] = 7;
    vc_assume(!spec_supported(S, D) && !(S == 9 && D == 9));
    CBitmapOperations::NNResizeInfo2Dbl i; i.srcPtr = a; i.dstPtr = b; i.srcStride = i.dstStride = 32; i.srcWidth = i.srcHeight = i.dstWidth = i.dstHeight = 1; i.srcRoiX = i.srcRoiY = i.dstRoiX = i.dstRoiY = 0; i.srcRoiW = i.srcRoiH = i.dstRoiW = i.dstRoiH = 1;
    bool threw = false;
    try { CBitmapOperations::NNScale2((PixelType)S, (PixelType)D, i); } catch (std::exception&) { threw = true; }
    u8 k = VC_U8("k", 0, 31); vc_assume(k < 32);
    vc_assert(threw && b[k] == 7, "unsupported conversion refused, nothing written");
    vc_cover("done");
}
