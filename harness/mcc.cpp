// contract of the multi-channel composition (MultiChannelCompositor.cpp), driven through the public functions with caller-supplied bitmaps
// TUS: libCZI_Utilities.cpp CziUtils.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "MultiChannelCompositor.cpp"
#undef private
#undef protected
#include "spec_pixel.h"
#include "spec_mcc.h"
typedef uint64_t u64; typedef uint8_t u8; typedef uint32_t u32;
typedef Compositors::ChannelInfo CI;
struct Ctx;
struct Bm final : public IBitmapData
{
    PixelType pt; u32 w, h; int stride; u8* d; int* stage; int id;
    PixelType GetPixelType() const override { return pt; }
    IntSize GetSize() const override { IntSize s; s.w = w; s.h = h; return s; }
    BitmapLockInfo Lock() override { if (stage) *stage = id; BitmapLockInfo i; i.ptrData = d; i.ptrDataRoi = d; i.stride = (u32)stride; i.size = (u64)stride * h; return i; }
    void Unlock() override {}
    int GetLockCount() const override { return 0; }
};
struct Ctx { Bm s0, s1, dst; int stage; u32 wx, wy, fx, fy; int wb; int bd; u8 want[2]; bool two; };
static u64 woff(Ctx* c) { return (u64)c->wy * (u64)c->dst.stride + (u64)c->wx * (u64)c->bd + (u64)c->wb; }
static bool frame_ok(Ctx* c) { u64 o = (u64)c->fy * (u64)c->dst.stride + (u64)c->fx; return c->dst.d[o] == vc_initial(c->dst.d, o); }
static bool is(Ctx* c, bool done)
{
    u8 v = c->dst.d[woff(c)];
    if (c->stage == 0) return !done || v == c->want[0];
    return v == (done ? c->want[1] : c->want[0]);
}
static bool inv_rows(void* p, u64 y, u64)
{
    Ctx* c = (Ctx*)p; if (y > (u64)c->dst.h) return false;
    if (!is(c, (u64)c->wy < y)) return false;
    return frame_ok(c);
}
static bool inv_cols(void* p, u64 x, u64 y)
{
    Ctx* c = (Ctx*)p; if (x > (u64)c->dst.w) return false;
    vc_case((u64)c->wy == y && (u64)c->wx == x);
    if (!is(c, (u64)c->wy < y || ((u64)c->wy == y && (u64)c->wx < x))) return false;
    return frame_ok(c);
}
static void bitmap(Bm& b, PixelType pt, u32 w, u32 h, u32 pad, const char* sn, const char* bn, int* stage, int id)
{
    b.pt = pt; b.w = w; b.h = h; b.stage = stage; b.id = id; int64_t line = (int64_t)w * spec_bpp((int)pt);
    b.stride = VC_I32(sn, line + pad, line + pad + 3); vc_assume(b.stride >= line + pad);
    b.d = (u8*)vc_buf((u64)b.stride * h, bn);
}
static u8 g_lutbuf;
static void channel(CI& i, PixelType pt, int mode, bool tint, const char* lutname)
{
    i.Clear(); i.enableTinting = tint; i.tinting.color.r = vc_u8("tr"); i.tinting.color.g = vc_u8("tg"); i.tinting.color.b = vc_u8("tb");
    i.blackPoint = vc_f32("black"); i.whitePoint = vc_f32("white");
    if (!vc_is_proof()) { i.blackPoint = vc_u8("bp") / 255.f; i.whitePoint = vc_u8("wp") / 255.f; if (mode == 0) { i.blackPoint = 0; i.whitePoint = 1; } }
    bool bw = !(i.blackPoint <= 0 && i.whitePoint >= 1);
    if (mode == 2) { i.lookUpTableElementCount = (pt == PixelType::Gray8 || pt == PixelType::Bgr24) ? 256 : 65536; i.ptrLookUpTable = (const u8*)vc_buf(i.lookUpTableElementCount, lutname); }
    else { i.lookUpTableElementCount = 0; vc_assume(bw == (mode == 1)); }
    vc_assume(i.blackPoint >= 0 && i.blackPoint <= 1 && i.whitePoint >= 0 && i.whitePoint <= 1);
}
struct QuietSite : libCZI::ISite
{
    bool IsEnabled(int) override { return false; }
    void Log(int, const char*) override {}
    void TerminateProgram(libCZI::ISite::TerminationReason, const char*) override {}
    std::shared_ptr<libCZI::IDecoder> GetDecoder(libCZI::ImageDecoderType, const char*) override { return nullptr; }
    std::shared_ptr<libCZI::IBitmapData> CreateBitmap(libCZI::PixelType, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t) override { return nullptr; }
};
static libCZI::ISite* g_site;
static libCZI::ISite* c_site() { return g_site; }
static inline void run(PixelType pt, int mode, bool tint, bool alpha, bool weights, int n = 2)
{
    vc_abstract_mul(true); vc_opt("fp_uf", 1);
    Ctx c; c.stage = -1; c.two = true; u32 w = VC_U32("w", 1, 6), h = VC_U32("h", 1, 5); vc_assume(w <= 0x7fffff && h <= 0x7fffffff);
    bitmap(c.dst, alpha ? PixelType::Bgra32 : PixelType::Bgr24, w, h, 1, "ds", "dst", nullptr, 0);
    bitmap(c.s0, pt, w, h, 0, "s0", "src0", &c.stage, 0); bitmap(c.s1, pt, w, h, 0, "s1", "src1", &c.stage, 1);
    CI ci[2]; channel(ci[0], pt, mode, tint, "lut0"); channel(ci[1], pt, mode, tint, "lut1");
    ci[0].weight = vc_f32("w0"); ci[1].weight = vc_f32("w1");
    if (!vc_is_proof()) { ci[0].weight = vc_u8("wq0") / 100.f; ci[1].weight = vc_bool("same") ? ci[0].weight : vc_u8("wq1") / 100.f; }
    float wt[2]; if (n == 2) { bool use = spec_weights(2, ci, wt); vc_assume(use == weights); } else ci[0].weight = 1;
    c.bd = spec_bpp((int)c.dst.pt); c.wx = VC_U32("wx", 0, w - 1); c.wy = VC_U32("wy", 0, h - 1); c.wb = VC_I32("wb", 0, c.bd - 1); vc_assume(c.wx < w && c.wy < h && c.wb >= 0 && c.wb < c.bd);
    c.fy = VC_U32("fy", 0, h - 1); c.fx = VC_U32("fx", (int64_t)w * c.bd, (int64_t)c.dst.stride - 1); vc_assume(c.fy < h && c.fx >= w * c.bd && c.fx < (u32)c.dst.stride);
    u8 al = vc_u8("alpha"); u8 v0[3], v1[3];
    int bs = spec_bpp((int)pt);
    spec_channel((int)pt, ci[0], c.s0.d + ((u64)c.wy * (u64)c.s0.stride + (u64)c.wx * (u64)bs), v0);
    if (n == 2) spec_channel((int)pt, ci[1], c.s1.d + ((u64)c.wy * (u64)c.s1.stride + (u64)c.wx * (u64)bs), v1);
    u8 a0[4], a1[4]; a0[3] = a1[3] = al;
    for (int i = 0; i < 3; ++i) { a0[i] = spec_sat(weights ? spec_scaled(v0[i], wt[0]) : v0[i]); a1[i] = n == 1 ? a0[i] : spec_sat(a0[i] + (weights ? spec_scaled(v1[i], wt[1]) : v1[i])); }
    c.want[0] = a0[0]; c.want[1] = a1[0]; for (int i = 1; i < c.bd; ++i) if (c.wb == i) { c.want[0] = a0[i]; c.want[1] = a1[i]; }
    IBitmapData* s[2] = { &c.s0, &c.s1 };
    QuietSite site; g_site = &site; vc_replace_name("6detail7GetSiteEv", (void*)&c_site);
    vc_loop_inv(0, inv_rows, &c, "rows"); vc_loop_inv(1, inv_cols, &c, "columns");
    if (alpha) Compositors::ComposeMultiChannel_Bgra32(&c.dst, al, n, s, ci); else Compositors::ComposeMultiChannel_Bgr24(&c.dst, n, s, ci);
    vc_cover("done");
    vc_assert(c.dst.d[woff(&c)] == c.want[1], "every destination byte is the saturated sum of what the channels contribute");
    vc_assert(frame_ok(&c), "row padding of the destination is untouched");
}
#define E4(nm,pt,m,mode,t,tint) \
  extern "C" void H_c24_##nm##_##m##t() { run(PixelType::pt, mode, tint, false, false, 1); } extern "C" void H_c32_##nm##_##m##t() { run(PixelType::pt, mode, tint, true, false, 1); } \
  E5(nm,pt,m,mode,t,tint)
#define E5(nm,pt,m,mode,t,tint) \
  extern "C" void H_m24_##nm##_##m##t() { run(PixelType::pt, mode, tint, false, false); } extern "C" void H_m24w_##nm##_##m##t() { run(PixelType::pt, mode, tint, false, true); } \
  extern "C" void H_m32_##nm##_##m##t() { run(PixelType::pt, mode, tint, true, false); } extern "C" void H_m32w_##nm##_##m##t() { run(PixelType::pt, mode, tint, true, true); }
#define E2(nm,pt,m,mode) E4(nm,pt,m,mode,n,false) E4(nm,pt,m,mode,t,true)
#define E3(nm,pt) E2(nm,pt,plain,0) E2(nm,pt,bw,1) E2(nm,pt,lut,2)
E3(g8,Gray8) E3(g16,Gray16) E3(bgr24,Bgr24) E3(bgr48,Bgr48) E2(bgra32,Bgra32,plain,0)
