// contracts for the chunk container in a subblock attachment and the valid-pixel mask (SubblockAttachmentAccessor.cpp)
// TUS: utilities.cpp libCZI_Utilities.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "SubblockAttachmentAccessor.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef uint8_t u8; typedef uint32_t u32;
static u64 rd(const u8* p, u64 o, int n) { u64 v = 0; for (int i = n - 1; i >= 0; --i) v = (v << 8) | p[o + i]; return v; }
struct Sb final : public libCZI::ISubBlock
{
    const u8* p; size_t n;
    const SubBlockInfo& GetSubBlockInfo() const override { vc_assert(false, "not used"); static SubBlockInfo i; return i; }
    void DangerousGetRawData(MemBlkType t, const void*& ptr, size_t& size) const override { vc_assert(t == MemBlkType::Attachment, "the attachment is asked for"); ptr = p; size = n; }
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* s) const override { vc_assert(t == MemBlkType::Attachment, "the attachment is asked for"); if (s) *s = n; return std::shared_ptr<const void>(std::shared_ptr<int>(), (const void*)p); }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { return nullptr; }
};
struct Md final : public libCZI::ISubBlockMetadata
{
    bool TryGetAttribute(const wchar_t*, std::wstring*) const override { return false; }
    void EnumAttributes(const std::function<bool(const std::wstring&, const std::wstring&)>&) const override {}
    bool TryGetValue(std::wstring*) const override { return false; }
    std::shared_ptr<IXmlNodeRead> GetChildNodeReadonly(const char*) override { return nullptr; }
    std::wstring Name() const override { return std::wstring(); }
    void EnumChildren(const std::function<bool(std::shared_ptr<IXmlNodeRead>)>&) override {}
    bool TryGetAttachmentDataFormat(std::wstring*) override { return false; }
    bool TryGetTagAsDouble(const std::wstring&, double*) override { return false; }
    bool TryGetTagAsString(const std::wstring&, std::wstring*) override { return false; }
    bool TryGetStagePositionFromTags(std::tuple<double, double>*) override { return false; }
    bool IsXmlValid() const override { return false; }
    std::string GetXml() const override { return std::string(); }
};
struct Fix
{
    Sb sb; Md md; SubblockAttachmentAccessor a;
    Fix(bool cc) : a(std::shared_ptr<ISubBlock>(std::shared_ptr<int>(), &sb), std::shared_ptr<ISubBlockMetadata>(std::shared_ptr<int>(), &md)) { a.has_chunk_container_ = cc; }
};
static const u8 kMaskId[] = { 0x67, 0xEA, 0xE3, 0xCB, 0xFC, 0x5B, 0x2B, 0x49, 0xA1, 0x6A, 0xEC, 0xE3, 0x78, 0x03, 0x14, 0x48 };
static bool guid_is(const libCZI::GUID& g, const u8* p) { bool e = g.Data1 == (u32)rd(p, 0, 4) && g.Data2 == (uint16_t)rd(p, 4, 2) && g.Data3 == (uint16_t)rd(p, 6, 2); for (int i = 0; i < 8; ++i) if (g.Data4[i] != p[8 + i]) e = false; return e; }
// ---------------------------------------------------------------- enumeration
struct En { const u8* p; u64 n, pos, cnt; bool stop; };
extern "C" void H_chunks()
{
    Fix f(vc_bool("container")); En e; e.n = VC_U64("n", 0, 200); vc_assume(e.n <= 0xffffffffu);   // the size of an attachment is a 32-bit field of the segment
    bool none = VC_U8("none", 1, 30) == 0; e.p = (const u8*)vc_buf(e.n, "att"); e.pos = 0; e.cnt = 0; e.stop = false;
    if (!vc_is_proof()) { u64 o = 0; for (int i = 0; i < 8; ++i) { u8 s = VC_U8("s", 0, 40); if (o + 20 > e.n || s == 40) break; for (int q = 0; q < 4; ++q) ((u8*)e.p)[o + 16 + q] = q ? 0 : s; o += 20 + s; } }
    f.sb.p = none ? nullptr : e.p; f.sb.n = e.n;
    struct I { static bool inv(void* c, u64 k, u64) { En* e = (En*)c; return e->cnt == k && !e->stop && e->pos <= e->n && e->n - e->pos >= 21; } };
    vc_loop_inv(0, I::inv, &e, "chunks so far");
    bool threw = false, r = false;
    try
    {
        r = f.a.EnumerateChunksInChunkContainer([&](int index, const ISubBlockAttachmentAccessor::ChunkInfo& i)->bool
            {
                vc_cover("chunk");
                vc_assert(!e.stop, "nothing is delivered after the stop");
                vc_assert(e.n - e.pos >= 21, "a chunk needs an identifier, a size and payload");
                vc_assert(index == (int)(u32)e.cnt, "index counts the chunks");
                vc_assert(guid_is(i.guid, e.p + e.pos), "identifier"); vc_assert(i.size == (u32)rd(e.p, e.pos + 16, 4), "size"); vc_assert(i.offset == e.pos + 20, "offset");
                vc_assert(i.size <= e.n - e.pos - 20, "the chunk lies inside the attachment");
                e.pos += 20 + (u64)i.size; e.cnt++;
                if (VC_U8("stop", 1, 9) == 0) { e.stop = true; return false; } return true;
            });
    }
    catch (LibCZIException&) { threw = true; }
    if (threw)
    {
        vc_cover("threw"); vc_assert(!e.stop, "no error after the stop");
        vc_assert(!f.a.has_chunk_container_ || none || e.n < 21 || (e.pos <= e.n && e.n - e.pos >= 21 && rd(e.p, e.pos + 16, 4) > e.n - e.pos - 20), "only a container with a corrupt chunk is refused");
    }
    else { vc_cover("done"); vc_assert(r == (e.cnt > 0) && r, "result"); vc_assert(e.stop || (e.pos <= e.n && e.n - e.pos < 21), "every chunk was delivered"); }
}
// ---------------------------------------------------------------- the mask chunk
static const u8* g_p; static u64 g_n; static bool g_throw;
static ISubBlockAttachmentAccessor::ChunkInfo g_ci; static bool g_found;
// contract of the enumeration (H_chunks): any number of chunks, each inside the attachment, until the functor asks to stop
static bool c_enum(const void*, const std::function<bool(int, const ISubBlockAttachmentAccessor::ChunkInfo&)>& fn)
{
    if (g_throw) throw LibCZIException("corrupt");
    if (vc_bool("others")) { ISubBlockAttachmentAccessor::ChunkInfo o; memset((void*)&o, 0, sizeof o); o.guid.Data1 = vc_u32("og1"); o.guid.Data2 = vc_u16("og2"); o.offset = vc_u32("oo"); o.size = vc_u32("os"); vc_assert(fn(0, o), "other chunks do not stop the search"); }
    if (g_found) vc_assert(!fn(1, g_ci), "the search stops at the mask");
    return true;
}
extern "C" void H_mask()
{
    Fix f(vc_bool("container")); g_n = VC_U64("n", 0, 200); vc_assume(g_n <= 0xffffffffu); g_p = (const u8*)vc_buf(g_n, "att"); f.sb.p = g_p; f.sb.n = g_n;
    u64 o = 0, sz = 0;
    if (vc_is_proof())
    {
        g_throw = vc_bool("corrupt"); g_found = vc_bool("found"); o = vc_u32("o"); sz = vc_u32("sz"); vc_assume(o >= 20 && o <= g_n && sz <= g_n - o);
        g_ci.guid = libCZI::GUID{ 0xCBE3EA67, 0x5BFC, 0x492B, { 0xA1, 0x6A, 0xEC, 0xE3, 0x78, 0x03, 0x14, 0x48 } }; g_ci.offset = (u32)o; g_ci.size = (u32)sz;
        vc_replace_name("_ZNK6libCZI6detail26SubblockAttachmentAccessor31EnumerateChunksInChunkContainer", (void*)&c_enum);
    }
    else
    {
        u8* p = (u8*)g_p; u64 q = 0; g_throw = false; g_found = false;
        for (int i = 0; i < 4 && q + 20 <= g_n; ++i) { u8 s = VC_U8("s", 0, 60), m = VC_U8("m", 0, 1); for (int z = 0; z < 4; ++z) p[q + 16 + z] = z ? 0 : s; if (m == 1) memcpy(p + q, kMaskId, 16); q += 20 + s; }
        q = 0; if (g_n < 21) g_throw = true;
        while (!g_throw && g_n >= q + 21) { u64 s = rd(p, q + 16, 4); if (s > g_n - q - 20) { g_throw = true; break; } if (!memcmp(p + q, kMaskId, 16)) { g_found = true; o = q + 20; sz = s; break; } q += 20 + s; }
    }
    bool threw = false; SubBlockAttachmentMaskInfoGeneral r;
    try { r = f.a.GetValidPixelMaskFromChunkContainer(); } catch (LibCZIException&) { threw = true; }
    vc_assert(threw == (!f.a.has_chunk_container_ || g_throw || !g_found || sz < 12), "refused exactly if there is no (complete) mask chunk");
    if (threw) { vc_cover("threw"); return; }
    vc_cover("mask");
    vc_assert(r.width == (u32)rd(g_p, o, 4) && r.height == (u32)rd(g_p, o + 4, 4) && r.type_of_representation == (u32)rd(g_p, o + 8, 4), "fields of the mask");
    vc_assert(r.size_data == sz - 12, "size of the mask data"); if (sz > 12) vc_assert(r.data.get() == (const void*)(g_p + o + 12), "mask data"); else vc_assert(r.data.get() == nullptr, "no mask data");
}
// ---------------------------------------------------------------- the mask as a bitonal bitmap
struct Acc final : public libCZI::ISubBlockAttachmentAccessor
{
    SubBlockAttachmentMaskInfoGeneral g;
    std::shared_ptr<libCZI::ISubBlockMetadata> GetSubBlockMetadata() override { return nullptr; }
    bool HasChunkContainer() const override { return true; }
    bool EnumerateChunksInChunkContainer(const std::function<bool(int, const ChunkInfo&)>&) const override { return false; }
    libCZI::SubBlockAttachmentMaskInfoGeneral GetValidPixelMaskFromChunkContainer() const override { return g; }
};
extern "C" void H_maskbmp()
{
    vc_abstract_mul(true); Acc a; u64 n = VC_U64("n", 0, 60); vc_assume(n <= 0xffffffffu); u8* p = (u8*)vc_buf(n, "mask");
    a.g.width = VC_U32("w", 0, 40); a.g.height = VC_U32("h", 0, 10); a.g.type_of_representation = VC_U32("type", 0, 0); a.g.size_data = n; if (n > 0) a.g.data = std::shared_ptr<const void>(std::shared_ptr<int>(), (const void*)p);
    if (!vc_is_proof() && n >= 4) { p[0] = VC_U8("st", 0, 8); p[1] = p[2] = p[3] = 0; }
    uint32_t st32 = 0; if (n >= 4) memcpy(&st32, p, 4); u64 st = st32, w = a.g.width, h = a.g.height, ms = (w + 7) / 8;
    bool bad = a.g.type_of_representation != 0 || n < 4 || w == 0 || h == 0 || st < ms || n - 4 < (u64)(a.g.height - 1) * st + ms;
    bool threw = false; std::shared_ptr<IBitonalBitmapData> b;
    try { b = a.CreateBitonalBitmapFromMaskInfo(); } catch (LibCZIException&) { threw = true; }
    vc_assert(threw == bad, "refused exactly if the mask does not fit its data");
    if (threw) { vc_cover("threw"); return; }
    vc_cover("ok"); auto s = b->GetSize(); auto l = b->Lock();
    vc_assert(s.w == (u32)w && s.h == (u32)h, "size of the bitmap"); vc_assert(l.ptrData == (void*)(p + 4) && l.stride == st, "the bitmap uses the data of the mask");
    b->Unlock();
}
