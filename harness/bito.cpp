// Bitonal bitmaps (BitmapOperationsBitonal.cpp/.h, public wrappers in libCZI_Pixels.cpp)
// TUS: CziUtils.cpp
// NTUS: BitmapOperations.cpp libCZI_Utilities.cpp
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "BitmapOperationsBitonal.cpp"
#undef private
#undef protected
#include "spec_pixel.h"
using namespace libCZI;
using namespace libCZI::detail;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

static bool bit(const u8* p, u64 stride, u64 x, u64 y) { return (p[y * stride + (x >> 3)] >> (7 - (x & 7))) & 1; }
struct Bm { u32 w, h, st; u8* p; };
static Bm bm_new(const char* nw, const char* nh, const char* ns, const char* nb, u32 lim = 0x7ffffff0)
{
    Bm b; b.w = VC_U32(nw, 1, 40); b.h = VC_U32(nh, 1, 5); vc_assume(b.w >= 1 && b.h >= 1 && b.w <= lim && b.h <= lim);
    u32 m = (b.w + 7) / 8; b.st = VC_U32(ns, m, m + 2); vc_assume(b.st >= m && b.st <= 0x7fffffff);
    if (!vc_is_proof()) vc_assume((u64)b.st * b.h < 1000000);
    b.p = (u8*)vc_buf((u64)b.st * b.h, nb); return b;
}
// ---- single pixels: checked and unchecked accessors
extern "C" void H_pixel()
{
    vc_abstract_mul(true);
    Bm b = bm_new("w", "h", "st", "bits"); bool v = vc_bool("v");
    u32 x = VC_U32("x", 0, 41), y = VC_U32("y", 0, 5), qx = VC_U32("qx", 0, 41), qy = VC_U32("qy", 0, 5);
    vc_assume(qx < b.w && qy < b.h);
    bool q0 = bit(b.p, b.st, qx, qy), threw = false, unchecked = vc_bool("unchecked");
    bool inside = x < b.w && y < b.h;
    bool got = false, got2 = false;
    if (unchecked)
    {
        vc_assume(inside);
        BitmapOperationsBitonal::SetPixelInBitonalUnchecked(x, y, b.p, b.st, v);
        got = BitmapOperationsBitonal::GetPixelFromBitonalUnchecked(x, y, b.p, b.st);
        got2 = BitmapOperationsBitonal::GetPixelFromBitonalUnchecked(qx, qy, b.p, b.st);
    }
    else
    {
        try { BitmapOperationsBitonal::SetPixelInBitonal(x, y, b.w, b.h, b.p, b.st, v); } catch (std::out_of_range&) { threw = true; }
        vc_assert(threw == !inside, "setting a pixel outside the bitmap is refused, inside it is not");
        bool t2 = false;
        try { got = BitmapOperationsBitonal::GetPixelFromBitonal(x, y, b.w, b.h, b.p, b.st); } catch (std::out_of_range&) { t2 = true; }
        vc_assert(t2 == !inside, "reading a pixel outside the bitmap is refused, inside it is not");
        got2 = BitmapOperationsBitonal::GetPixelFromBitonal(qx, qy, b.w, b.h, b.p, b.st);
    }
    vc_cover("done");
    if (inside) { vc_cover("inside"); vc_assert(got == v, "reading returns the value last written"); }
    bool want = (inside && qx == x && qy == y) ? v : q0;
    vc_assert(bit(b.p, b.st, qx, qy) == want && got2 == want, "exactly the addressed pixel changes");
    // every other byte (padding included) is untouched
    u64 o = VC_U64("o", 0, 40); vc_assume(o < (u64)b.st * b.h);
    if (!(inside && o == (u64)y * b.st + x / 8)) vc_assert(b.p[o] == vc_initial(b.p, o), "no other byte changes");
}
// ---- Set: every pixel gets the value, row padding bytes untouched
struct SCtx { Bm b; u32 wx, wy; u64 fo; bool v; };
static bool set_done(SCtx* c) { return bit(c->b.p, c->b.st, c->wx, c->wy) == c->v; }
static bool set_inv(void* p, u64 k, u64) { SCtx* c = (SCtx*)p; if (k > c->b.h) return false; vc_case(c->wy == k); if (c->wy < k && !set_done(c)) return false; return c->b.p[c->fo] == vc_initial(c->b.p, c->fo); }
extern "C" void H_setall()
{
    vc_abstract_mul(true);
    SCtx c; c.b = bm_new("w", "h", "st", "bits"); c.v = vc_bool("v");
    c.wx = VC_U32("wx", 0, c.b.w - 1); c.wy = VC_U32("wy", 0, c.b.h - 1); u32 fy = VC_U32("fy", 0, c.b.h - 1), fx = VC_U32("fx", (c.b.w + 7) / 8, c.b.st - 1);
    vc_assume(c.b.st > (c.b.w + 7) / 8 && c.wx < c.b.w && c.wy < c.b.h && fy < c.b.h && fx >= (c.b.w + 7) / 8 && fx < c.b.st); c.fo = (u64)fy * c.b.st + fx;
    vc_loop_inv(0, set_inv, &c, "rows");
    BitmapOperationsBitonal::Set(c.b.w, c.b.h, c.b.p, c.b.st, c.v);
    vc_cover("done");
    vc_assert(set_done(&c), "every pixel has the value"); vc_assert(c.b.p[c.fo] == vc_initial(c.b.p, c.fo), "row padding untouched");
}
// ---- row helpers of Fill
struct RCtx { u8* p; u64 st; u32 w, h; u32 wx, wy; u8 want; u64 fo; };
static bool row_inv(void* p, u64 k, u64) { RCtx* c = (RCtx*)p; if (k > c->h) return false; vc_case(c->wy == k); u64 o = (u64)c->wy * c->st + c->wx; if (c->p[o] != (c->wy < k ? c->want : vc_initial(c->p, o))) return false; return c->p[c->fo] == vc_initial(c->p, c->fo); }
static inline void row_entry(int op)
{
    vc_abstract_mul(true);
    RCtx c; c.h = VC_U32("h", 1, 5); c.w = op == 0 ? VC_U32("w", 1, 5) : 1; c.st = VC_U32("st", c.w + 1, c.w + 3); vc_assume(c.h >= 1 && c.w >= 1 && c.h < 0x7fffffff && c.w < 0x7fffffff && c.st > c.w && c.st <= 0x7fffffff);
    if (!vc_is_proof()) vc_assume(c.st * c.h < 1000000);
    c.p = (u8*)vc_buf(c.st * c.h, "bits"); u8 v = vc_u8("v");
    c.wx = VC_U32("wx", 0, c.w - 1); c.wy = VC_U32("wy", 0, c.h - 1); u32 fy = VC_U32("fy", 0, c.h - 1), fx = VC_U32("fx", c.w, c.st - 1);
    vc_assume(c.wx < c.w && c.wy < c.h && fy < c.h && fx >= c.w && fx < c.st); c.fo = (u64)fy * c.st + fx;
    u8 old = c.p[(u64)c.wy * c.st + c.wx]; c.want = op == 0 ? v : op == 1 ? (old | v) : (old & v);
    vc_loop_inv(0, row_inv, &c, "rows");
    IntSize s{ c.w, c.h };
    if (op == 0) SetByte(v, c.p, (u32)c.st, s); else if (op == 1) OrByte(v, c.p, (u32)c.st, s); else AndByte(v, c.p, (u32)c.st, s);
    vc_cover("done");
    vc_assert(c.p[(u64)c.wy * c.st + c.wx] == c.want, "every byte of the block is updated");
    vc_assert(c.p[c.fo] == vc_initial(c.p, c.fo), "bytes right of the block untouched");
}
extern "C" void H_setbyte() { row_entry(0); }
extern "C" void H_orbyte() { row_entry(1); }
extern "C" void H_andbyte() { row_entry(2); }
// ---- Fill against the contracts of the row helpers (effect projected on an arbitrary witness byte)
struct FCtx { Bm b; u32 by, bx; i64 y1, y2; };
static FCtx* g_f;
static void block(u8 value, u8* ptr, u32 stride, const IntSize& size, int op)
{
    FCtx* c = g_f;
    vc_assert(stride == c->b.st, "row helper gets the stride of the bitmap");
    // precondition: the block lies inside the clipped rows and inside each row
    u64 off = (u64)(ptr - c->b.p), base = (u64)c->y1 * (u64)c->b.st; u64 cx = off - base;
    vc_assert(off >= base && cx < (c->b.w + 7) / 8 && cx + size.w <= (c->b.w + 7) / 8, "block inside the rows of the bitmap");
    vc_assert(size.h >= 1 && (i64)size.h <= c->y2 - c->y1, "block inside the clipped rows");
    if ((i64)c->by >= c->y1 && (i64)c->by < c->y1 + (i64)size.h && c->bx >= cx && c->bx < cx + size.w)
    {
        u8* q = c->b.p + ((u64)c->by * (u64)c->b.st + c->bx);
        *q = op == 0 ? value : op == 1 ? (u8)(*q | value) : (u8)(*q & value);
    }
}
static void setbyte_contract(u8 v, u8* p, u32 s, const IntSize& z) { block(v, p, s, z, 0); }
static void orbyte_contract(u8 v, u8* p, u32 s, const IntSize& z) { block(v, p, s, z, 1); }
static void andbyte_contract(u8 v, u8* p, u32 s, const IntSize& z) { block(v, p, s, z, 2); }
static inline void fill_entry(u32 B)
{
    vc_abstract_mul(true);
    FCtx c; c.b = bm_new("w", "h", "st", "bits"); g_f = &c; bool v = vc_bool("v");
    IntRect r{ VC_I32("rx", -10, 45), VC_I32("ry", -3, 6), VC_I32("rw", -1, 50), VC_I32("rh", -1, 8) };
    i64 x1 = r.x < 0 ? 0 : r.x, x2 = (i64)r.x + r.w; if (x2 > c.b.w) x2 = c.b.w;
    c.y1 = r.y < 0 ? 0 : r.y; c.y2 = (i64)r.y + r.h; if (c.y2 > c.b.h) c.y2 = c.b.h;
    u32 px = VC_U32("px", 0, c.b.w - 1); if (B < 8) px = (px & ~7u) | B; u32 py = VC_U32("py", 0, c.b.h - 1); vc_assume(px < c.b.w && py < c.b.h);
    c.bx = px / 8; c.by = py;
    bool old = bit(c.b.p, c.b.st, px, py);
    vc_replace((void*)&SetByte, (void*)&setbyte_contract); vc_replace((void*)&OrByte, (void*)&orbyte_contract); vc_replace((void*)&AndByte, (void*)&andbyte_contract);
    vc_case((i64)c.by >= c.y1 && (i64)c.by < c.y2); vc_case((i64)c.bx == x1 / 8); vc_case((i64)c.bx == x2 / 8);
    BitmapOperationsBitonal::Fill(c.b.w, c.b.h, c.b.p, c.b.st, r, v);
    vc_cover("done");
    bool in = (i64)px >= x1 && (i64)px < x2 && (i64)py >= c.y1 && (i64)py < c.y2;
    if (in) vc_cover("inside");
    vc_assert(bit(c.b.p, c.b.st, px, py) == (in ? v : old), in ? "every pixel of the region is set" : "pixels outside the region are unchanged");
}
extern "C" void H_fillrect() { fill_entry(8); }
extern "C" void H_fillrect_b0() { fill_entry(0); }
extern "C" void H_fillrect_b1() { fill_entry(1); }
extern "C" void H_fillrect_b2() { fill_entry(2); }
extern "C" void H_fillrect_b3() { fill_entry(3); }
extern "C" void H_fillrect_b4() { fill_entry(4); }
extern "C" void H_fillrect_b5() { fill_entry(5); }
extern "C" void H_fillrect_b6() { fill_entry(6); }
extern "C" void H_fillrect_b7() { fill_entry(7); }

// ---- masked copy
struct MCtx { const u8* src; u8* dst; const u8* mask; int w, h, ss, ds, ms, bs, bd; int wy, wx, fy, fx, wb; u8 wantb; int mox, moy; };
static u8& wbyte(MCtx* c) { return c->dst[(u64)c->wy * (u64)c->ds + (u64)c->wx * (u64)c->bd + (u64)c->wb]; }
static bool mframe(MCtx* c) { u64 o = (u64)c->fy * (u64)c->ds + (u64)c->fx; return c->dst[o] == vc_initial(c->dst, o); }
static bool m_old(MCtx* c) { return wbyte(c) == vc_initial(c->dst, (u64)c->wy * (u64)c->ds + (u64)c->wx * (u64)c->bd + (u64)c->wb); }
static bool minv_rows(void* p, u64 y, u64) { MCtx* c = (MCtx*)p; if (y > (u64)c->h) return false; if ((u64)c->wy < y) { if (wbyte(c) != c->wantb) return false; } else if (!m_old(c)) return false; return mframe(c); }
static bool minv_cols(void* p, u64 x, u64 y) { MCtx* c = (MCtx*)p; if (x > (u64)c->w) return false; vc_case((u64)c->wy == y && (u64)c->wx == x);
    if ((u64)c->wy < y || ((u64)c->wy == y && (u64)c->wx < x)) { if (wbyte(c) != c->wantb) return false; } else if (!m_old(c)) return false; return mframe(c); }
static inline void mcopy_entry(int S, int D)
{
    vc_abstract_mul(true); vc_opt("fp_uf", 1);
    MCtx c; c.bs = spec_bpp(S); c.bd = spec_bpp(D);
    c.w = VC_I32("w", 1, 20); c.h = VC_I32("h", 1, 5); vc_assume(c.w >= 1 && c.w <= 0x7fffff && c.h >= 1 && c.h <= 0x7fffffff);
    c.ss = VC_I32("ss", c.w * c.bs, c.w * c.bs + 3); c.ds = VC_I32("ds", c.w * c.bd + 1, c.w * c.bd + 4); vc_assume(c.ss >= c.w * c.bs && c.ds > c.w * c.bd);
    c.mox = VC_I32("mox", 0, 9); c.moy = VC_I32("moy", 0, 3); vc_assume(c.mox >= 0 && c.moy >= 0 && c.mox < 0x7fffff && c.moy < 0x7ffffff && c.h < 0x7ffffff);
    c.ms = VC_I32("ms", (c.w + c.mox + 7) / 8, (c.w + c.mox + 7) / 8 + 2); vc_assume(c.ms >= 1 && (i64)c.ms * 8 >= c.w + c.mox);
    int mh = VC_I32("mh", c.h + c.moy, c.h + c.moy + 1); vc_assume(mh >= c.h + c.moy);
    if (!vc_is_proof()) vc_assume((u64)c.ss * c.h < 1000000 && (u64)c.ds * c.h < 1000000 && (u64)c.ms * mh < 1000000);
    c.src = (u8*)vc_buf((u64)c.ss * c.h, "src"); c.dst = (u8*)vc_buf((u64)c.ds * c.h, "dst"); c.mask = (u8*)vc_buf((u64)(u32)c.ms * (u64)(u32)mh, "mask");
    c.wy = VC_I32("wy", 0, c.h - 1); c.wx = VC_I32("wx", 0, c.w - 1); c.fy = VC_I32("fy", 0, c.h - 1); c.fx = VC_I32("fx", c.w * c.bd, c.ds - 1);
    vc_assume(c.wy >= 0 && c.wy < c.h && c.wx >= 0 && c.wx < c.w && c.fy >= 0 && c.fy < c.h && c.fx >= c.w * c.bd && c.fx < c.ds);
    c.wb = VC_I32("wb", 0, c.bd - 1); vc_assume(c.wb >= 0 && c.wb < c.bd);
    u8 w[24]; spec_convert(S, D, c.src + (u64)c.wy * (u64)c.ss + (u64)c.wx * (u64)c.bs, w);
    c.wantb = w[0]; for (int i = 1; i < c.bd; ++i) if (c.wb == i) c.wantb = w[i];
    bool m = bit(c.mask, (u64)(u32)c.ms, (u64)(u32)(c.wx + c.mox), (u64)(u32)(c.wy + c.moy)); if (!m) c.wantb = wbyte(&c);
    vc_loop_inv(0, minv_rows, &c, "rows"); vc_loop_inv(1, minv_cols, &c, "columns");
    CopyParameters cp; cp.srcPtr = c.src; cp.srcStride = c.ss; cp.dstPtr = c.dst; cp.dstStride = c.ds; cp.width = c.w; cp.height = c.h; cp.srcMaskPtr = c.mask; cp.srcMaskStride = c.ms; cp.maskOffsetX = c.mox; cp.maskOffsetY = c.moy; cp.drawTileBorder = false;
    CopyWithMask((PixelType)S, (PixelType)D, cp);
    vc_cover("done"); if (m) vc_cover("set");
    vc_assert(wbyte(&c) == c.wantb, "a pixel is copied exactly if its mask bit is set"); vc_assert(mframe(&c), "row padding untouched");
}
#define MP(a, S, b, D) extern "C" void H_mcopy_##a##_##b() { mcopy_entry(S, D); }
MP(g8, 0, g8, 0) MP(g8, 0, g16, 1) MP(g8, 0, f32, 2) MP(g8, 0, bgr24, 3) MP(g8, 0, bgr48, 4)
MP(g16, 1, g8, 0) MP(g16, 1, g16, 1) MP(g16, 1, f32, 2) MP(g16, 1, bgr24, 3) MP(g16, 1, bgr48, 4)
MP(f32, 2, f32, 2)
MP(bgr24, 3, g8, 0) MP(bgr24, 3, g16, 1) MP(bgr24, 3, f32, 2) MP(bgr24, 3, bgr24, 3) MP(bgr24, 3, bgr48, 4)
MP(bgr48, 4, g8, 0) MP(bgr48, 4, g16, 1) MP(bgr48, 4, f32, 2) MP(bgr48, 4, bgr24, 3) MP(bgr48, 4, bgr48, 4)
// placement of the masked copy against the contract of CopyWithMask
struct MCall { int n; PixelType S, D; CopyParameters p; };
static MCall g_mc;
static void mcopy_contract(PixelType S, PixelType D, const CopyParameters& p) { ++g_mc.n; g_mc.S = S; g_mc.D = D; g_mc.p = p; }
static inline void mplace_entry(int S, int D)
{
    vc_abstract_mul(true);
    BitmapOperationsBitonal::CopyWithOffsetAndMaskInfo i; const int LIM = 0x3fffffff;
    i.srcPixelType = (PixelType)S; i.dstPixelType = (PixelType)D; u64 bs = spec_bpp(S), bd = spec_bpp(D);
    i.srcWidth = VC_I32("sw", 1, 7); i.srcHeight = VC_I32("sh", 1, 5); i.dstWidth = VC_I32("dw", 1, 7); i.dstHeight = VC_I32("dh", 1, 5); i.maskWidth = VC_I32("mw", 1, 8); i.maskHeight = VC_I32("mh", 1, 6);
    i.xOffset = VC_I32("xo", -8, 8); i.yOffset = VC_I32("yo", -6, 6);
    vc_assume(i.srcWidth >= 0 && i.srcHeight >= 0 && i.dstWidth >= 0 && i.dstHeight >= 0 && i.srcWidth <= LIM && i.srcHeight <= LIM && i.dstWidth <= LIM && i.dstHeight <= LIM && i.maskWidth >= 0 && i.maskHeight >= 0 && i.maskWidth <= LIM && i.maskHeight <= LIM);
    vc_assume(i.xOffset >= -LIM && i.xOffset <= LIM && i.yOffset >= -LIM && i.yOffset <= LIM);
    i.srcStride = VC_I32("ss", i.srcWidth * (i64)bs, i.srcWidth * (i64)bs + 3); i.dstStride = VC_I32("ds", i.dstWidth * (i64)bd, i.dstWidth * (i64)bd + 3); i.maskStride = VC_I32("ms", (i.maskWidth + 7) / 8, (i.maskWidth + 7) / 8 + 2);
    vc_assume(i.srcStride >= 0 && i.dstStride >= 0 && (u64)i.srcStride >= i.srcWidth * bs && (u64)i.dstStride >= i.dstWidth * bd && i.maskStride >= (i.maskWidth + 7) / 8);
    if (!vc_is_proof()) vc_assume((u64)i.srcStride * i.srcHeight < 100000 && (u64)i.dstStride * i.dstHeight < 100000 && (u64)i.maskStride * i.maskHeight < 100000);
    i.drawTileBorder = vc_is_proof() ? vc_bool("border") : false;
    u8* src = (u8*)vc_buf((u64)i.srcStride * i.srcHeight, "src"); u8* dst = (u8*)vc_buf((u64)i.dstStride * i.dstHeight, "dst"); u8* mask = (u8*)vc_buf((u64)i.maskStride * i.maskHeight, "mask");
    i.srcPtr = src; i.dstPtr = dst; i.maskPtr = mask; g_mc.n = 0;
    vc_replace((void*)(void (*)(PixelType, PixelType, const CopyParameters&))&CopyWithMask, (void*)&mcopy_contract);
    BitmapOperationsBitonal::CopyWithOffsetAndMask(i);
    int px = VC_I32("px", 0, i.dstWidth - 1), py = VC_I32("py", 0, i.dstHeight - 1); vc_assume(px >= 0 && py >= 0 && px < i.dstWidth && py < i.dstHeight);
    int ew = i.srcWidth < i.maskWidth ? i.srcWidth : i.maskWidth, eh = i.srcHeight < i.maskHeight ? i.srcHeight : i.maskHeight;
    bool inside = px >= i.xOffset && py >= i.yOffset && px < i.xOffset + ew && py < i.yOffset + eh;
    if (vc_is_proof())
    {
        vc_assert(g_mc.n <= 1 && (!inside || g_mc.n == 1), "the overlap is copied");
        if (g_mc.n == 1)
        {
            vc_cover("copied"); const CopyParameters& p = g_mc.p;
            vc_assert(g_mc.S == i.srcPixelType && g_mc.D == i.dstPixelType && p.srcStride == i.srcStride && p.dstStride == i.dstStride && p.srcMaskStride == i.maskStride && p.srcMaskPtr == mask && p.drawTileBorder == i.drawTileBorder, "pixel types, strides, mask and border flag passed on");
            i64 ox = i.xOffset > 0 ? i.xOffset : 0, oy = i.yOffset > 0 ? i.yOffset : 0, sx = i.xOffset < 0 ? -i.xOffset : 0, sy = i.yOffset < 0 ? -i.yOffset : 0;
            vc_assert(p.width > 0 && p.height > 0 && ox + p.width <= i.dstWidth && oy + p.height <= i.dstHeight, "region inside the destination bitmap");
            vc_assert(sx + p.width <= i.srcWidth && sy + p.height <= i.srcHeight && sx + p.width <= i.maskWidth && sy + p.height <= i.maskHeight, "region inside source bitmap and mask");
            vc_assert(p.maskOffsetX == sx && p.maskOffsetY == sy, "mask aligned with the source bitmap");
            vc_assert(p.dstPtr == dst + ((u64)oy * (u64)i.dstStride + (u64)ox * bd), "destination address of the region");
            vc_assert(p.srcPtr == src + ((u64)sy * (u64)i.srcStride + (u64)sx * bs), "source address of the region");
            vc_assert((px >= ox && px < ox + p.width && py >= oy && py < oy + p.height) == inside, "region is exactly the overlap of source, mask and destination");
        }
    }
    else
    {
        vc_cover("copied");
        for (int y = 0; y < i.dstHeight; ++y) for (int x = 0; x < i.dstStride; ++x)
        {
            u64 o = (u64)y * i.dstStride + x; int X = x / (int)bd; bool in = x < i.dstWidth * (int)bd && X >= i.xOffset && y >= i.yOffset && X < i.xOffset + ew && y < i.yOffset + eh && bit(mask, i.maskStride, X - i.xOffset, y - i.yOffset);
            u8 want[24]; if (in) spec_convert(S, D, src + (u64)(y - i.yOffset) * i.srcStride + (u64)(X - i.xOffset) * bs, want);
            vc_assert(dst[o] == (in ? want[x - X * (int)bd] : vc_initial(dst, o)), in ? "overlap pixel with mask bit set is the converted source pixel" : "all other bytes unchanged");
        }
    }
}
extern "C" void H_mplace_g8_bgr24() { mplace_entry(0, 3); }
extern "C" void H_mplace_bgr24_g8() { mplace_entry(3, 0); }
extern "C" void H_mplace_g16_bgr48() { mplace_entry(1, 4); }
extern "C" void H_mplace_bgr48_g16() { mplace_entry(4, 1); }
extern "C" void H_mplace_f32_f32() { mplace_entry(2, 2); }
extern "C" void H_mcopy_refused()
{
    u8 S = VC_U8("S", 0, 15), D = VC_U8("D", 0, 15), a[48], b[48], m[1] = { 255 }; for (int i = 0; i < 48; ++i) a[i] = b[i] = 7;
    vc_assume(!spec_supported(S, D));
    CopyParameters cp; cp.srcPtr = a; cp.srcStride = 24; cp.dstPtr = b; cp.dstStride = 24; cp.width = 1; cp.height = 1; cp.srcMaskPtr = m; cp.srcMaskStride = 1; cp.maskOffsetX = cp.maskOffsetY = 0; cp.drawTileBorder = false;
    bool threw = false;
    try { CopyWithMask((PixelType)S, (PixelType)D, cp); } catch (std::exception&) { threw = true; }
    u8 i = VC_U8("i", 0, 47); vc_assume(i < 48);
    vc_assert(threw && b[i] == 7, "unsupported conversion refused, nothing written"); vc_cover("done");
}
// ---- masked nearest-neighbour resizing
struct NCtx { u8* dst; int ds; int wy, wx; u8 want, old; u64 o; int fy, fx; bool keep; };
static bool nm_rows(void* p, u64, u64) { NCtx* c = (NCtx*)p; u8 v = c->dst[c->o]; if (v != c->old && (c->keep || v != c->want)) return false; u64 f = (u64)c->fy * (u64)c->ds + (u64)c->fx; return c->dst[f] == vc_initial(c->dst, f); }
static bool nm_cols(void* p, u64 a, u64 b) { NCtx* c = (NCtx*)p; vc_case_at(c->wx, c->wy); return nm_rows(p, a, b); }
static inline void nm_entry(int S, int D)
{
    vc_abstract_mul(true); vc_opt("fp_uf", 1);
    NNResizeMaskAwareInfo2Dbl i; int bs = spec_bpp(S), bd = spec_bpp(D);
    i.srcWidth = VC_I32("sw", 1, 7); i.srcHeight = VC_I32("sh", 1, 5); i.dstWidth = VC_I32("dw", 1, 9); i.dstHeight = VC_I32("dh", 1, 9); i.maskWidth = VC_I32("mw", 1, 8); i.maskHeight = VC_I32("mh", 1, 6);
    vc_assume(i.srcWidth > 0 && i.srcHeight > 0 && i.dstWidth > 0 && i.dstHeight > 0 && i.srcWidth <= 0x7fffff && i.srcHeight < 0x7ffffff && i.dstWidth <= 0x7fffff && i.dstHeight < 0x7ffffff && i.maskWidth > 0 && i.maskHeight > 0 && i.maskWidth <= 0x7fffff && i.maskHeight < 0x7ffffff);
    i.srcStride = VC_I32("ss", i.srcWidth * bs, i.srcWidth * bs + 3); i.dstStride = VC_I32("ds", i.dstWidth * bd + 1, i.dstWidth * bd + 4); i.srcMaskStride = VC_I32("ms", (i.maskWidth + 7) / 8, (i.maskWidth + 7) / 8 + 2);
    vc_assume(i.srcStride >= i.srcWidth * bs && i.dstStride > i.dstWidth * bd && i.srcMaskStride >= (i.maskWidth + 7) / 8);
    if (!vc_is_proof()) vc_assume((u64)i.srcStride * i.srcHeight < 100000 && (u64)i.dstStride * i.dstHeight < 100000 && (u64)i.srcMaskStride * i.maskHeight < 100000);
    u8* src = (u8*)vc_buf((u64)i.srcStride * i.srcHeight, "src"); u8* dst = (u8*)vc_buf((u64)i.dstStride * i.dstHeight, "dst"); u8* mask = (u8*)vc_buf((u64)(u32)i.srcMaskStride * (u64)(u32)i.maskHeight, "mask");
    i.srcPtr = src; i.dstPtr = dst; i.srcMaskPtr = mask;
    if (vc_is_proof()) { i.srcRoiX = vc_f64("sx"); i.srcRoiY = vc_f64("sy"); i.srcRoiW = vc_f64("sW"); i.srcRoiH = vc_f64("sH"); i.dstRoiX = vc_f64("dx"); i.dstRoiY = vc_f64("dy"); i.dstRoiW = vc_f64("dW"); i.dstRoiH = vc_f64("dH"); }
    else { i.srcRoiX = VC_I32("sxi", -20, 20) / 4.; i.srcRoiY = VC_I32("syi", -20, 20) / 4.; i.srcRoiW = VC_I32("sWi", 1, 40) / 4.; i.srcRoiH = VC_I32("sHi", 1, 40) / 4.; i.dstRoiX = VC_I32("dxi", -20, 40) / 4.; i.dstRoiY = VC_I32("dyi", -20, 40) / 4.; i.dstRoiW = VC_I32("dWi", 1, 40) / 4.; i.dstRoiH = VC_I32("dHi", 1, 40) / 4.;
        vc_assume(i.srcRoiW > 0 && i.srcRoiW < 1e6 && i.srcRoiH > 0 && i.srcRoiH < 1e6 && i.dstRoiW > 0 && i.dstRoiW < 1e6 && i.dstRoiH > 0 && i.dstRoiH < 1e6 && fabs(i.srcRoiX) < 1e6 && fabs(i.srcRoiY) < 1e6 && fabs(i.dstRoiX) < 1e6 && fabs(i.dstRoiY) < 1e6); }
    NCtx c; c.dst = dst; c.ds = i.dstStride;
    c.wy = VC_I32("wy", 0, i.dstHeight - 1); c.wx = VC_I32("wx", 0, i.dstWidth - 1); c.fy = VC_I32("fy", 0, i.dstHeight - 1); c.fx = VC_I32("fx", i.dstWidth * bd, i.dstStride - 1);
    vc_assume(c.wy >= 0 && c.wy < i.dstHeight && c.wx >= 0 && c.wx < i.dstWidth && c.fy >= 0 && c.fy < i.dstHeight && c.fx >= i.dstWidth * bd && c.fx < i.dstStride);
    int wb = VC_I32("wb", 0, bd - 1); vc_assume(wb >= 0 && wb < bd);
    c.o = (u64)c.wy * (u64)c.ds + (u64)c.wx * (u64)bd + (u64)wb; c.old = dst[c.o];
    double rw = i.srcRoiW / i.dstRoiW, rh = i.srcRoiH / i.dstRoiH;
    long sy = lround((c.wy - i.dstRoiY) * rh + i.srcRoiY), sx = lround((c.wx - i.dstRoiX) * rw + i.srcRoiX);
    if (sy < 0) sy = 0; else if (sy >= i.srcHeight) sy = i.srcHeight - 1;
    if (sx < 0) sx = 0; else if (sx >= i.srcWidth) sx = i.srcWidth - 1;
    u8 w[24]; spec_convert(S, D, src + (u64)sy * (u64)i.srcStride + (u64)sx * (u64)bs, w);
    c.want = w[0]; for (int k = 1; k < bd; ++k) if (wb == k) c.want = w[k];
    bool m = sx < i.maskWidth && sy < i.maskHeight && bit(mask, (u64)(u32)i.srcMaskStride, (u64)(u32)sx, (u64)(u32)sy);
    c.keep = !m || c.wx < (int)i.dstRoiX || c.wx > (int)(i.dstRoiX + i.dstRoiW) || c.wy < (int)i.dstRoiY || c.wy > (int)(i.dstRoiY + i.dstRoiH);
    vc_loop_inv(0, nm_rows, &c, "rows"); vc_loop_inv(1, nm_cols, &c, "columns");
    NNScaleMaskAware2<double>((PixelType)S, (PixelType)D, i);
    vc_cover("done");
    if (!vc_is_proof() && m)
    {
        double py = (c.wy - i.dstRoiY) * rh + i.srcRoiY, px = (c.wx - i.dstRoiX) * rw + i.srcRoiX, e = 1e-6;
        if (c.wy > i.dstRoiY + e && c.wy < i.dstRoiY + i.dstRoiH - e && c.wx > i.dstRoiX + e && c.wx < i.dstRoiX + i.dstRoiW - e && py > e && py < i.srcHeight - 1 - e && px > e && px < i.srcWidth - 1 - e)
        { vc_cover("inside"); vc_assert(dst[c.o] == c.want, "every pixel of the destination rectangle whose mask bit is set is set"); }
    }
    vc_assert(nm_rows(&c, 0, 0), "a destination pixel is unchanged or the nearest source pixel with its mask bit set; outside the rectangle and in the padding nothing is written");
}
#define NM(a, S, b, D) extern "C" void H_nnmask_##a##_##b() { nm_entry(S, D); }
NM(g8, 0, g8, 0) NM(g8, 0, bgr24, 3) NM(g16, 1, g16, 1) NM(g16, 1, g8, 0) NM(f32, 2, f32, 2) NM(bgr24, 3, bgr24, 3) NM(bgr24, 3, g8, 0) NM(bgr48, 4, bgr48, 4) NM(bgr48, 4, bgr24, 3)
