// contracts for the conversions of the C interface (Src/libCZIAPI/src)
#include "vc.h"
#include "std_all.h"
#include "libCZI.h"
// TUS: ../libCZIAPI/src/parameterhelpers.cpp libCZI_Utilities.cpp CziUtils.cpp utilities.cpp
// NTUS: @lib
// LIBS: -lzstd
#include "../libCZIAPI/src/libCZIApi.cpp"
#include "../libCZIAPI/src/parameterhelpers.h"
namespace {
typedef libCZI::DimensionIndex D;
struct GM { bool v[10]; int32_t p[10]; int32_t s[10]; };
void mk(libCZI::CDimCoordinate& c, GM& m)
{
    for (int i = 1; i <= 9; ++i) { m.p[i] = VC_I32("val", -2, 2); m.v[i] = vc_bool("valid"); c.Set((D)i, m.p[i]); if (!m.v[i]) c.Clear((D)i); }
}
// the interop coordinate denotes the ghost map: bit i <=> dimension i+1, values in ascending order of the dimension
void check(const CoordinateInterop& o, const GM& m, const char* what)
{
    int k = 0; uint32_t bits = 0;
    for (int i = 1; i <= 9; ++i) if (m.v[i]) { bits |= 1u << (i - 1); vc_assert(o.value[k] == m.p[i], what); ++k; }
    vc_assert(o.dimensions_valid == bits, what);
}
}
extern "C" void H_coord_out()
{
    libCZI::CDimCoordinate c; GM m; mk(c, m);
    CoordinateInterop o = ParameterHelpers::ConvertIDimCoordinateToCoordinateInterop(&c);
    vc_cover("done"); check(o, m, "the interop coordinate has exactly the dimensions and values of the coordinate");
}
extern "C" void H_coord_in()
{
    CoordinateInterop o; o.dimensions_valid = VC_U32("mask", 0, 1023); for (int i = 0; i < 9; ++i) o.value[i] = VC_I32("val", -2, 2);
    libCZI::CDimCoordinate c = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(o);
    vc_cover("done"); int k = 0;
    for (int i = 1; i <= 9; ++i)
    {
        int v = 4711; bool b = c.TryGetPosition((D)i, &v), w = (o.dimensions_valid >> (i - 1)) & 1; vc_assert(b == w, "exactly the dimensions flagged in the interop coordinate are valid");
        if (w) { vc_assert(v == o.value[k], "the value of a dimension is the one at its rank among the flagged dimensions"); ++k; }
    }
}
extern "C" void H_bounds_out()
{
    libCZI::CDimBounds c; GM m;
    for (int i = 1; i <= 9; ++i) { m.p[i] = VC_I32("start", -2, 2); m.s[i] = VC_I32("size", 0, 3); m.v[i] = vc_bool("valid"); c.Set((D)i, m.p[i], m.s[i]); if (!m.v[i]) c.Clear((D)i); }
    DimBoundsInterop o = ConvertDimBounds(&c);
    vc_cover("done"); int k = 0; uint32_t bits = 0;
    for (int i = 1; i <= 9; ++i) if (m.v[i]) { bits |= 1u << (i - 1); vc_assert(o.start[k] == m.p[i] && o.size[k] == m.s[i], "interval of a dimension"); ++k; }
    vc_assert(o.dimensions_valid == bits, "exactly the valid dimensions are flagged");
}
extern "C" void H_subblockinfo_out()
{
    libCZI::SubBlockInfo s; GM m; mk(s.coordinate, m);
    s.compressionModeRaw = vc_i32("comp"); int pt = VC_I32("pt", 0, 14); vc_assume(pt >= 0 && pt <= 255); s.pixelType = (libCZI::PixelType)pt; s.logicalRect.x = vc_i32("x"); s.logicalRect.y = vc_i32("y"); s.logicalRect.w = vc_i32("w"); s.logicalRect.h = vc_i32("h");
    s.physicalSize.w = vc_u32("pw"); s.physicalSize.h = vc_u32("ph"); s.mIndex = VC_I32("m", -1, 5);
    SubBlockInfoInterop o; CopyFromSubBlockInfoToSubBlockInfoInterop(s, o); vc_cover("done");
    check(o.coordinate, m, "coordinate of the subblock");
    vc_assert(o.compression_mode_raw == s.compressionModeRaw && o.pixel_type == pt, "compression mode and pixel type of the subblock");
    vc_assert(o.logical_rect.x == s.logicalRect.x && o.logical_rect.y == s.logicalRect.y && o.logical_rect.w == s.logicalRect.w && o.logical_rect.h == s.logicalRect.h, "logical rectangle of the subblock");
    vc_assert((uint32_t)o.physical_size.w == s.physicalSize.w && (uint32_t)o.physical_size.h == s.physicalSize.h, "physical size of the subblock");
    vc_assert(o.m_index == (s.IsMindexValid() ? s.mIndex : (int32_t)0x80000000), "mosaic index of the subblock");
}
extern "C" void H_addsubblock_in()
{
    AddSubBlockInfoInterop a; a.coordinate.dimensions_valid = VC_U32("mask", 0, 511); for (int i = 0; i < 9; ++i) a.coordinate.value[i] = VC_I32("val", -2, 2);
    a.m_index_valid = VC_U8("mvalid", 0, 2); a.m_index = vc_i32("m"); a.x = vc_i32("x"); a.y = vc_i32("y"); a.logical_width = vc_i32("lw"); a.logical_height = vc_i32("lh"); a.physical_width = vc_i32("pw"); a.physical_height = vc_i32("ph"); a.pixel_type = VC_I32("pt", 0, 14); vc_assume(a.pixel_type >= 0 && a.pixel_type <= 255); a.compression_mode_raw = vc_i32("comp");
    libCZI::AddSubBlockInfoBase b; b.Clear(); FillOutAddSubBlockInfoBase(&a, b); vc_cover("done"); int k = 0;
    for (int i = 1; i <= 9; ++i)
    {
        int v = 4711; bool f = b.coordinate.TryGetPosition((D)i, &v), w = (a.coordinate.dimensions_valid >> (i - 1)) & 1; vc_assert(f == w, "exactly the flagged dimensions are valid");
        if (w) { vc_assert(v == a.coordinate.value[k], "value of a dimension"); ++k; }
    }
    vc_assert(b.mIndexValid == (a.m_index_valid != 0) && (!b.mIndexValid || b.mIndex == a.m_index), "mosaic index as specified");
    vc_assert(b.x == a.x && b.y == a.y && b.logicalWidth == a.logical_width && b.logicalHeight == a.logical_height && b.physicalWidth == a.physical_width && b.physicalHeight == a.physical_height, "position and size as specified");
    vc_assert((int)b.PixelType == a.pixel_type && b.compressionModeRaw == a.compression_mode_raw, "pixel type and compression mode as specified");
}
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
namespace {
std::shared_ptr<const void> alias(const void* p) { return std::shared_ptr<const void>(std::shared_ptr<int>(), p); }
struct Sb final : public libCZI::ISubBlock
{
    SubBlockInfo i; const u8* p[3]; size_t n[3];
    const SubBlockInfo& GetSubBlockInfo() const override { return i; }
    void DangerousGetRawData(MemBlkType t, const void*& ptr, size_t& size) const override { ptr = p[t]; size = n[t]; }
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* s) const override { if (s) *s = n[t]; return alias(p[t]); }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { return nullptr; }
};
struct At final : public libCZI::IAttachment
{
    AttachmentInfo i; const u8* p; size_t n;
    const AttachmentInfo& GetAttachmentInfo() const override { return i; }
    void DangerousGetRawData(const void*& ptr, size_t& size) const override { ptr = p; size = n; }
    std::shared_ptr<const void> GetRawData(size_t* s) override { if (s) *s = n; return alias(p); }
};
struct Bm final : public libCZI::IBitmapData
{
    PixelType t; u32 w, h, stride; u8* p; int locks = 0;
    PixelType GetPixelType() const override { return t; } IntSize GetSize() const override { IntSize s; s.w = w; s.h = h; return s; }
    BitmapLockInfo Lock() override { ++locks; BitmapLockInfo l; l.ptrData = p; l.ptrDataRoi = p; l.stride = stride; l.size = (u64)stride * h; return l; }
    void Unlock() override { --locks; } int GetLockCount() const override { return locks; }
};
// the capacity stated by the caller is respected, and the size reported is the size of the data
void raw_post(LibCZIApiErrorCode ec, u64 size, u64 n, const u8* src, const u8* dst, u64 cap, bool null)
{
    vc_cover("done"); vc_assert(ec == LibCZIApi_ErrorCode_OK && size == n, "the size reported is the size of the data");
    if (null) return;
    u64 i = VC_U64("i", 0, cap ? cap - 1 : 0); vc_assume(i < cap); if (i < n) vc_assert(dst[i] == src[i], "byte of the data"); else vc_assert(dst[i] == vc_initial(dst, i), "nothing is written behind the data");
}
}
extern "C" void H_sbraw()
{
    Sb sb; for (int i = 0; i < 3; ++i) { sb.n[i] = VC_U64("n", 0, 20); vc_assume(sb.n[i] < (1ull << 40)); sb.p[i] = (const u8*)vc_buf(sb.n[i], "data"); }
    SharedPtrWrapper<ISubBlock> w{ std::shared_ptr<ISubBlock>(std::shared_ptr<int>(), &sb) };
    int t = VC_I32("type", -1, 2); u64 cap = VC_U64("cap", 0, 20); vc_assume(cap < (1ull << 40)); bool null = vc_bool("null"); u8* dst = (u8*)vc_buf(cap, "dst"); u64 size = cap;
    auto ec = libCZI_SubBlockGetRawData((SubBlockObjectHandle)&w, t, &size, null ? nullptr : dst);
    if (t != 0 && t != 1) { vc_cover("badtype"); vc_assert(ec == LibCZIApi_ErrorCode_InvalidArgument, "an unknown kind of data is refused"); return; }
    raw_post(ec, size, sb.n[t == 0 ? ISubBlock::Data : ISubBlock::Metadata], sb.p[t == 0 ? ISubBlock::Data : ISubBlock::Metadata], dst, cap, null);
}
extern "C" void H_attraw()
{
    At at; at.n = VC_U64("n", 0, 20); vc_assume(at.n < (1ull << 40)); at.p = (const u8*)vc_buf(at.n, "data");
    SharedPtrWrapper<IAttachment> w{ std::shared_ptr<IAttachment>(std::shared_ptr<int>(), &at) };
    u64 cap = VC_U64("cap", 0, 20); vc_assume(cap < (1ull << 40)); bool null = vc_bool("null"); u8* dst = (u8*)vc_buf(cap, "dst"); u64 size = cap;
    auto ec = libCZI_AttachmentGetRawData((AttachmentObjectHandle)&w, &size, null ? nullptr : dst); raw_post(ec, size, at.n, at.p, dst, cap, null);
}
namespace {
struct Cc { const u8* src; u8* dst; u32 w, h, ss, ds; u64 line; u32 wy; u64 wx; u32 fy; u64 fx; };
bool cinv(void* x, u64 k, u64) { Cc* c = (Cc*)x; if (k > c->h) return false; if (c->wy < k && c->dst[(u64)c->wy * c->ds + c->wx] != c->src[(u64)c->wy * c->ss + c->wx]) return false; u64 o = (u64)c->fy * c->ds + c->fx; return c->dst[o] == vc_initial(c->dst, o); }
u32 bytes_of(PixelType t) { switch (t) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; case PixelType::Bgra32: return 4; default: return 0; } }
void copyto(PixelType t)
{
    vc_abstract_mul(true); Bm b; Cc c; b.t = t; b.w = VC_U32("w", 1, 6); b.h = VC_U32("h", 1, 5); c.line = (u64)b.w * bytes_of(t); b.stride = VC_U32("sstride", (int)c.line, (int)c.line + 3); vc_assume(b.stride >= c.line && b.w < (1u << 28)); c.ss = b.stride; c.w = b.w; c.h = b.h;
    c.ds = VC_U32("dstride", (int)c.line + 1, (int)c.line + 4); vc_assume(c.ds > c.line); b.p = (u8*)vc_buf((u64)c.ss * c.h, "src"); c.src = b.p; c.dst = (u8*)vc_buf((u64)c.ds * c.h, "dst");
    c.wy = VC_U32("wy", 0, 4); c.wx = VC_U64("wx", 0, (int)c.line - 1); c.fy = VC_U32("fy", 0, 4); c.fx = VC_U64("fx", (int)c.line, (int)c.ds - 1); vc_assume(c.wy < c.h && c.wx < c.line && c.fy < c.h && c.fx >= c.line && c.fx < c.ds);
    SharedPtrWrapper<IBitmapData> w{ std::shared_ptr<IBitmapData>(std::shared_ptr<int>(), &b) }; vc_loop_inv(0, cinv, &c, "rows");
    auto ec = libCZI_BitmapCopyTo((BitmapObjectHandle)&w, c.w, c.h, (int)t, c.ds, c.dst); vc_loop_clear(); vc_cover("done");
    vc_assert(ec == LibCZIApi_ErrorCode_OK && b.locks == 0, "the bitmap is copied and unlocked"); vc_assert(c.dst[(u64)c.wy * c.ds + c.wx] == c.src[(u64)c.wy * c.ss + c.wx], "every byte of every line is copied");
    u64 o = (u64)c.fy * c.ds + c.fx; vc_assert(c.dst[o] == vc_initial(c.dst, o), "nothing is written behind a line");
}
}
#define D(nm,pt) extern "C" void H_copyto_##nm() { copyto(PixelType::pt); }
D(g8,Gray8) D(g16,Gray16) D(f32,Gray32Float) D(bgr24,Bgr24) D(bgr48,Bgr48) D(bgra32,Bgra32)
// other dimensions, another pixel type or a stride which is too small: nothing is touched
extern "C" void H_copyto_refused()
{
    Bm b; b.t = PixelType::Bgr24; b.w = VC_U32("w", 1, 6); b.h = VC_U32("h", 1, 5); b.stride = vc_u32("sstride"); b.p = nullptr; u32 w = VC_U32("cw", 1, 6), h = VC_U32("ch", 1, 5), st = VC_U32("st", 1, 20); int t = VC_I32("t", 2, 4); vc_assume(w != b.w || h != b.h || t != (int)PixelType::Bgr24 || st < (u64)b.w * 3);
    vc_assume(t >= 0 && t < 255); SharedPtrWrapper<IBitmapData> wr{ std::shared_ptr<IBitmapData>(std::shared_ptr<int>(), &b) }; u8 dst[1]; auto ec = libCZI_BitmapCopyTo((BitmapObjectHandle)&wr, w, h, t, st, dst); vc_cover("done"); vc_assert(ec == LibCZIApi_ErrorCode_InvalidArgument && b.locks == 0, "refused");
}
// a released handle or one of another kind is not accepted
extern "C" void H_handle_kind()
{
    Bm b; SharedPtrWrapper<IBitmapData> wr{ std::shared_ptr<IBitmapData>(std::shared_ptr<int>(), &b) }; u64 n = 0; SubBlockInfoInterop si; AttachmentInfoInterop ai; FileHeaderInfoInterop fi; int32_t cnt; MetadataAsXmlInterop mx; SubBlockStatisticsInterop st; ObjectHandle o = 0; void* p; ScalingInfoInterop sc; uint32_t av[10];
    ObjectHandle h = (ObjectHandle)&wr; vc_cover("done"); const auto IH = LibCZIApi_ErrorCode_InvalidHandle;
    vc_assert(libCZI_SubBlockGetRawData(h, 0, &n, nullptr) == IH && libCZI_SubBlockGetInfo(h, &si) == IH && libCZI_SubBlockCreateBitmap(h, &o) == IH && libCZI_ReleaseSubBlock(h) == IH, "not a subblock");
    vc_assert(libCZI_AttachmentGetRawData(h, &n, nullptr) == IH && libCZI_AttachmentGetInfo(h, &ai) == IH && libCZI_ReleaseAttachment(h) == IH, "not an attachment");
    vc_assert(libCZI_ReaderGetFileHeaderInfo(h, &fi) == IH && libCZI_ReaderGetAttachmentCount(h, &cnt) == IH && libCZI_ReaderGetStatisticsSimple(h, &st) == IH && libCZI_ReaderReadSubBlock(h, 0, &o) == IH && libCZI_ReaderReadAttachment(h, 0, &o) == IH && libCZI_ReaderGetMetadataSegment(h, &o) == IH && libCZI_TryGetSubBlockInfoForIndex(h, 0, &si) == IH && libCZI_ReleaseReader(h) == IH, "not a reader");
    vc_assert(libCZI_MetadataSegmentGetMetadataAsXml(h, &mx) == IH && libCZI_MetadataSegmentGetCziDocumentInfo(h, &o) == IH && libCZI_ReleaseMetadataSegment(h) == IH, "not a metadata segment");
    vc_assert(libCZI_CziDocumentInfoGetScalingInfo(h, &sc) == IH && libCZI_CziDocumentInfoGetGeneralDocumentInfo(h, &p) == IH && libCZI_CziDocumentInfoGetAvailableDimension(h, 10, av) == IH && libCZI_CziDocumentInfoGetDisplaySettings(h, &o) == IH && libCZI_CziDocumentInfoGetDimensionInfo(h, 1, &p) == IH && libCZI_ReleaseCziDocumentInfo(h) == IH, "not a document information");
    At at; SharedPtrWrapper<IAttachment> wa{ std::shared_ptr<IAttachment>(std::shared_ptr<int>(), &at) }; ObjectHandle ha = (ObjectHandle)&wa; BitmapInfoInterop bi; BitmapLockInfoInterop bl;
    vc_assert(libCZI_CziDocumentInfoGetScalingInfo(ha, &sc) == IH && libCZI_ReleaseCziDocumentInfo(ha) == IH && libCZI_ReleaseMetadataSegment(ha) == IH && libCZI_ReleaseDisplaySettings(ha) == IH && libCZI_ReleaseChannelDisplaySettings(ha) == IH && libCZI_ReleaseWriter(ha) == IH && libCZI_ReleaseOutputStream(ha) == IH && libCZI_ReleaseInputStream(ha) == IH && libCZI_BitmapGetInfo(ha, &bi) == IH && libCZI_BitmapLock(ha, &bl) == IH && libCZI_ReleaseCreateSingleChannelTileAccessor(ha) == IH, "an attachment is nothing else");
    wr.Invalidate(); vc_assert(libCZI_BitmapGetInfo(h, &bi) == IH && libCZI_BitmapLock(h, &bl) == IH && libCZI_ReleaseBitmap(h) == IH, "a released bitmap is not accepted");
}
// a text copied into a fixed-size field: never beyond the field, complete and terminated unless reported as truncated
namespace {
struct Tc { u64 m, n; };
u64 t_len(void* x, u64 k, u64) { return ((Tc*)x)->m - k; }
u64 t_tr(void* x, u64 k, u64) { Tc* c = (Tc*)x; return k > 0 || c->m < c->n; }
bool t_inv(void* x, u64 k, u64) { Tc* c = (Tc*)x; return k <= c->m && (k == 0 || c->m < c->n); }
struct Str { char* p; size_t n; char b[16]; };
}
extern "C" void H_truncate()
{
    static_assert(sizeof(Str) == sizeof(std::string), "layout");
    u64 n = VC_U64("n", 0, 12), cap = VC_U64("cap", 0, 12); vc_assume(n < (1ull << 40) && cap < (1ull << 40)); char* s = (char*)vc_buf(n + 1, "text"); s[n] = 0; Str st; st.p = s; st.n = n; for (int i = 0; i < 16; ++i) st.b[i] = 0;
    char* d = (char*)vc_buf(cap, "field"); Tc c; c.n = n; c.m = cap && n > cap - 1 ? cap - 1 : n; vc_loop_inv(0, t_inv, &c, "trim"); vc_loop_val(0, t_len, &c); vc_loop_val(0, t_tr, &c);
    bool tr = ParameterHelpers::CopyUtf8StringTruncate(*(const std::string*)&st, d, cap); vc_loop_clear();
    if (n < cap) { vc_cover("fits"); vc_assert(!tr, "a text which fits is not truncated"); } else { vc_cover("long"); vc_assert(tr || (cap == 0 && n == 0), "a text which does not fit is reported as truncated"); }
    u64 i = VC_U64("i", 0, 12); vc_assume(i < cap); if (!tr && i <= n) vc_assert(d[i] == s[i], "the text is complete and terminated"); if (i > n) vc_assert(d[i] == (char)vc_initial(d, i), "nothing behind the terminator is written");
}
