// Lo/Hi byte packing (utilities.cpp)
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "utilities.cpp"
#undef private
#undef protected
using namespace libCZI;
using namespace libCZI::detail;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
struct Ctx { u8* pdst; u64 sizeSrc; u32 fy, fx; const u8* src; u8* dst; u32 w, h, stride; u64 half; u32 wy, wx; };
// invariant (outer): after y rows, byte (wy,wx) for wy<y is done
static bool inv_unpack_o(void* c, u64 y, u64) {
    Ctx* x = (Ctx*)c;
    u64 i = (u64)x->wy * x->w + x->wx;
    if (y > x->h) return false;
    if (x->wy < y) {
        if (x->dst[i] != x->src[(u64)x->wy * x->stride + 2ull * x->wx]) return false;
        if (x->dst[x->half + i] != x->src[(u64)x->wy * x->stride + 2ull * x->wx + 1]) return false;
    }
    return true;
}
static bool inv_unpack_i(void* c, u64 k, u64 y) {
    Ctx* x = (Ctx*)c;
    u64 i = (u64)x->wy * x->w + x->wx;
    if (k > x->w) return false;
    if (x->wy < y || (x->wy == y && x->wx < k)) {
        if (x->dst[i] != x->src[(u64)x->wy * x->stride + 2ull * x->wx]) return false;
        if (x->dst[x->half + i] != x->src[(u64)x->wy * x->stride + 2ull * x->wx + 1]) return false;
    }
    return true;
}
extern "C" void H_unpack()
{
    Ctx c;
    vc_abstract_mul(true);
    c.w = VC_U32("w", 0, 9); c.h = VC_U32("h", 0, 5); c.stride = VC_U32("stride", 2 * c.w, 2 * c.w + 5);
    vc_assume(c.w < 0x40000000u && c.h < 0x40000000u && c.stride >= 2 * c.w);
    c.half = (u64)c.w * c.h;
    c.src = (u8*)vc_buf((u64)c.stride * c.h, "src");
    c.dst = (u8*)vc_buf(2 * c.half, "dst");
    c.wy = VC_U32("wy", 0, c.h ? c.h - 1 : 0); c.wx = VC_U32("wx", 0, c.w ? c.w - 1 : 0);
    vc_assume(c.wy < c.h && c.wx < c.w);
    vc_loop_inv(0, inv_unpack_o, &c, "rows");
    vc_loop_inv(1, inv_unpack_i, &c, "columns");
    LoHiBytePackUnpack::LoHiByteUnpackStrided(c.src, c.w, c.stride, c.h, c.dst);
    vc_cover("done");
    u64 i = (u64)c.wy * c.w + c.wx;
    vc_assert(c.dst[i] == c.src[(u64)c.wy * c.stride + 2ull * c.wx], "low byte of word");
    vc_assert(c.dst[c.half + i] == c.src[(u64)c.wy * c.stride + 2ull * c.wx + 1], "high byte of word");
}

// inverse direction: word (y,x) of the destination = low byte from the first half, high byte from the second half
static bool pdone(Ctx* x) {
    u64 i = (u64)x->wy * x->w + x->wx, o = (u64)x->wy * x->stride + 2ull * x->wx;
    return x->pdst[o] == x->src[i] && x->pdst[o + 1] == x->src[x->half + i];
}
static bool pframe(Ctx* x) { u64 o = (u64)x->fy * x->stride + x->fx; return x->pdst[o] == vc_initial(x->pdst, o); }
static bool inv_pack_o(void* c, u64 y, u64) {
    Ctx* x = (Ctx*)c;
    if (y > x->h) return false;
    if (x->wy < y && !pdone(x)) return false;
    return pframe(x);
}
static bool inv_pack_i(void* c, u64 k, u64 y) {
    Ctx* x = (Ctx*)c;
    if (k > x->w) return false;
    if ((x->wy < y || (x->wy == y && x->wx < k)) && !pdone(x)) return false;
    return pframe(x);
}
extern "C" void H_pack()
{
    Ctx c;
    vc_abstract_mul(true);
    c.w = VC_U32("w", 0, 9); c.h = VC_U32("h", 0, 5); c.stride = VC_U32("stride", 2 * c.w, 2 * c.w + 5);
    vc_assume(c.w < 0x40000000u && c.h < 0x40000000u && c.stride > 2 * c.w && c.stride < 0x80000000u);
    u64 n = (u64)c.w * c.h; u64 extra = VC_U64("extra", 0, 4); vc_assume(extra < (1ull << 40));
    c.sizeSrc = 2 * n + extra; c.half = c.sizeSrc / 2;
    c.src = (u8*)vc_buf(c.sizeSrc, "src");
    c.pdst = (u8*)vc_buf((u64)c.stride * c.h, "dst");
    c.wy = VC_U32("wy", 0, c.h ? c.h - 1 : 0); c.wx = VC_U32("wx", 0, c.w ? c.w - 1 : 0); c.fy = VC_U32("fy", 0, c.h ? c.h - 1 : 0); c.fx = VC_U32("fx", 2 * c.w, c.stride > 2 * c.w ? c.stride - 1 : 2 * c.w);
    vc_assume(c.wy < c.h && c.wx < c.w && c.fy < c.h && c.fx < c.stride && c.fx >= 2 * c.w);
    vc_loop_inv(0, inv_pack_o, &c, "rows");
    vc_loop_inv(1, inv_pack_i, &c, "columns");
    LoHiBytePackUnpack::LoHiBytePackStrided(c.src, c.sizeSrc, c.w, c.h, c.stride, c.pdst);
    vc_cover("done");
    u64 i = (u64)c.wy * c.w + c.wx, o = (u64)c.wy * c.stride + 2ull * c.wx;
    vc_assert(c.pdst[o] == c.src[i], "low byte from the first half");
    vc_assert(c.pdst[o + 1] == c.src[c.half + i], "high byte from the second half");
    vc_assert(pframe(&c), "stride padding of the destination is untouched");
}
// arguments that cannot describe a valid image are refused before anything is touched
extern "C" void H_args()
{
    u32 w = VC_U32("w", 0, 9), h = VC_U32("h", 0, 5), st = VC_U32("stride", 0, 24); u64 sz = VC_U64("size", 0, 100);
    
    bool ns = vc_bool("nullsrc"), nd = vc_bool("nulldst"); u8 dummy[2] = { 1, 2 };
    u64 need = (u64)w * h * 2;
    bool bad1 = ns || nd || st < 2ull * w, bad2 = bad1 || sz < need;
    bool t1 = false, t2 = false;
    try { LoHiBytePackUnpack::CheckLoHiByteUnpackArgumentsAndThrow(w, st, ns ? nullptr : dummy, nd ? nullptr : dummy); } catch (std::invalid_argument&) { t1 = true; }
    try { LoHiBytePackUnpack::CheckLoHiBytePackArgumentsAndThrow(ns ? nullptr : dummy, sz, w, h, st, nd ? nullptr : dummy); } catch (std::invalid_argument&) { t2 = true; }
    vc_assert(t1 == bad1, "unpack arguments checked");
    vc_assert(t2 == bad2, "pack arguments checked");
    if (!bad2) vc_cover("accepted"); else vc_cover("refused");
}
// bounded: the two directions are inverse (also through other implementations than the portable one)
extern "C" void B_lohi_inverse()
{
    u32 w = VC_U32("w", 0, 70), h = VC_U32("h", 0, 5), st = 2 * w + VC_U32("pad", 0, 9); vc_assume(w < 1000 && h < 100 && st >= 2 * w && st < 3000);
    u8* src = (u8*)vc_buf((u64)st * h, "src"); u8* tmp = (u8*)vc_buf(2ull * w * h, "tmp"); u8* back = (u8*)vc_buf((u64)st * h, "back");
    LoHiBytePackUnpack::LoHiByteUnpackStrided(src, w, st, h, tmp);
    LoHiBytePackUnpack::LoHiBytePackStrided(tmp, 2ull * w * h, w, h, st, back);
    vc_cover("done");
    for (u64 y = 0; y < h; ++y) for (u64 x = 0; x < st; ++x) vc_assert(back[y * st + x] == (x < 2 * w ? src[y * st + x] : vc_initial(back, y * st + x)), "unpack then pack restores every word and leaves the padding alone");
    for (u64 i = 0; i < (u64)st * h; ++i) vc_assert(src[i] == vc_initial(src, i), "source unchanged");
}
