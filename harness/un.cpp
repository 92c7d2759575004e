// contract for uncompressed payloads (CreateBitmap.cpp): the bitmap is the payload, too little data is refused unless that is to be handled
// TUS: utilities.cpp libCZI_Utilities.cpp CziUtils.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "CreateBitmap.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef uint8_t u8; typedef uint32_t u32;
struct Sb final : public libCZI::ISubBlock
{
    SubBlockInfo i; const u8* p; size_t n;
    const SubBlockInfo& GetSubBlockInfo() const override { return i; }
    void DangerousGetRawData(MemBlkType t, const void*& ptr, size_t& size) const override { vc_assert(t == MemBlkType::Data, "the pixel data is asked for"); ptr = p; size = n; }
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* s) const override { vc_assert(t == MemBlkType::Data, "the pixel data is asked for"); if (s) *s = n; return std::shared_ptr<const void>(std::shared_ptr<int>(), (const void*)p); }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { return nullptr; }
};
static u32 bytes_of(PixelType t) { switch (t) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; case PixelType::Bgra32: return 4; default: return 0; } }
static u8* g_bm;
static void* c_alloc(void*, u64 size) { if (vc_bool("oom")) return nullptr; return g_bm = (u8*)vc_buf(size, "bitmap"); }
static void c_free(void*, void*) {}
static void run(PixelType pt, bool enough)
{
    vc_abstract_mul(true); Sb sb; sb.i.pixelType = pt; u32 w = VC_U32("w", 0, 8), h = VC_U32("h", 0, 6); sb.i.physicalSize.w = w; sb.i.physicalSize.h = h; sb.i.compressionModeRaw = 0; u64 line = (u64)w * bytes_of(pt); bool large = line > 0xfffffffcu; u64 want = (u64)h * (u32)line;
    sb.n = VC_U64("n", 0, 200); if (!vc_is_proof() && enough) sb.n += want; vc_assume(sb.n < (1ull << 40)); sb.p = (const u8*)vc_buf(sb.n, "payload"); vc_assume(large || (sb.n >= want) == enough); vc_assume(sb.n > 0);
    vc_replace_name("14CHeapAllocator8Allocate", (void*)&c_alloc); vc_replace_name("14CHeapAllocator4Free", (void*)&c_free);
    CreateBitmapOptions o; o.handle_uncompressed_data_size_mismatch = enough ? vc_bool("handle") : false; bool threw = false; std::shared_ptr<IBitmapData> bm;
    try { bm = CreateBitmapFromSubBlock(&sb, &o); } catch (std::exception&) { threw = true; }
    if (!enough) { vc_cover("refused"); vc_assert(threw, "too little data is refused unless that is to be handled"); return; }
    if (threw) { vc_cover("large"); vc_assert(line > 0xfffffffcu, "only a bitmap whose line size exceeds 32 bits is refused"); return; }
    vc_cover("bitmap"); auto l = bm->Lock(); vc_assert(bm->GetPixelType() == pt && bm->GetWidth() == w && bm->GetHeight() == h, "bitmap as described by the subblock");
    u32 wy = VC_U32("wy", 0, h ? h - 1 : 0); u64 wx = VC_U64("wx", 0, line ? (int)line - 1 : 0); 
    if (wy < h && wx < line) { vc_assert(l.stride >= line || h == 1, "stride"); vc_assert(((const u8*)l.ptrDataRoi)[(u64)wy * l.stride + wx] == sb.p[(u64)wy * line + wx], "byte of the payload"); }
    bm->Unlock();
}
#define D(nm,pt) extern "C" void H_un_##nm() { run(PixelType::pt, true); } extern "C" void H_unref_##nm() { run(PixelType::pt, false); }
D(g8,Gray8) D(g16,Gray16) D(f32,Gray32Float) D(bgr24,Bgr24) D(bgr48,Bgr48) D(bgra32,Bgra32)

// too little data, to be handled: the rest is zero
struct Pc { const u8* p; u64 n, line, pitch; u32 h, wy; u64 wx; };
static u8 want_byte(Pc* c) { u64 q = (u64)c->wy * c->line + c->wx; return q < c->n ? c->p[q] : 0; }
static bool pinv(void* x, u64 k, u64) { Pc* c = (Pc*)x; if (k > c->h) return false; if (c->wy < k && g_bm[(u64)c->wy * c->pitch + c->wx] != want_byte(c)) return false; return true; }
static u64 pval(void* x, u64 k, u64) { Pc* c = (Pc*)x; u64 q = k * c->line; return c->n > q ? c->n - q : 0; }
static void pad(PixelType pt)
{
    vc_abstract_mul(true); Sb sb; Pc c; sb.i.pixelType = pt; u32 w = VC_U32("w", 0, 8), h = VC_U32("h", 0, 6); sb.i.physicalSize.w = w; sb.i.physicalSize.h = h; sb.i.compressionModeRaw = 0; u64 l64 = (u64)w * bytes_of(pt); vc_assume(l64 <= 0xfffffffcu); u64 line = (u32)l64, want = (u64)h * line;
    sb.n = VC_U64("n", 0, want ? want - 1 : 0); vc_assume(sb.n < want); sb.p = (const u8*)vc_buf(sb.n, "payload"); 
    c.p = sb.p; c.n = sb.n; c.line = line; c.pitch = (u32)((l64 + 3) / 4 * 4); c.h = h; c.wy = VC_U32("wy", 0, h ? h - 1 : 0); c.wx = VC_U64("wx", 0, line ? (int)line - 1 : 0); vc_assume(c.wy < h && c.wx < line);
    vc_replace_name("14CHeapAllocator8Allocate", (void*)&c_alloc); vc_replace_name("14CHeapAllocator4Free", (void*)&c_free);
    vc_loop_inv(0, pinv, &c, "rows"); vc_loop_val(0, pval, &c);
    CreateBitmapOptions o; o.handle_uncompressed_data_size_mismatch = true; bool threw = false; std::shared_ptr<IBitmapData> bm;
    try { bm = CreateBitmapFromSubBlock(&sb, &o); } catch (std::exception&) { threw = true; }
    if (threw) return;
    vc_cover("padded"); auto l = bm->Lock(); vc_assert(bm->GetPixelType() == pt && bm->GetWidth() == w && bm->GetHeight() == h, "bitmap as described by the subblock"); vc_assert(l.stride >= line, "stride");
    vc_assert(((const u8*)l.ptrDataRoi)[(u64)c.wy * l.stride + c.wx] == want_byte(&c), "byte of the payload, zero if there is none"); bm->Unlock();
}
#define PD(nm,pt) extern "C" void H_unpad_##nm() { pad(PixelType::pt); }
PD(g8,Gray8) PD(g16,Gray16) PD(f32,Gray32Float) PD(bgr24,Bgr24) PD(bgr48,Bgr48) PD(bgra32,Bgra32)
