// bounded stand-ins: the C interface against the C++ interface and against the model of the document
// NTUS: @lib ../libCZIAPI/src/libCZIApi.cpp ../libCZIAPI/src/parameterhelpers.cpp
// LIBS: -lzstd
#include "bmpapi.h"
#include "../libCZIAPI/inc/libCZIApi.h"
#include <rapidjson/document.h>
using namespace api;
namespace {
const LibCZIApiErrorCode OK = LibCZIApi_ErrorCode_OK;
struct XIn { shared_ptr<MemStream> s; int closed = 0; bool fail = false; };
struct XOut { shared_ptr<MemStream> s; int closed = 0; };
int32_t xread(uintptr_t a, uintptr_t b, uint64_t off, void* pv, uint64_t n, uint64_t* got, ExternalStreamErrorInfoInterop* e)
{
    vc_assert(b == 0x1234, "opaque handles are passed through"); auto x = (XIn*)a;
    if (x->fail) { e->error_code = kStreamErrorCode_UnspecifiedError; e->error_message = kInvalidObjectHandle; return 1; }
    uint64_t k = 0; x->s->Read(off, pv, n, &k); *got = k; return 0;
}
void xclose(uintptr_t a, uintptr_t) { ((XIn*)a)->closed++; }
int32_t xwrite(uintptr_t a, uintptr_t b, uint64_t off, const void* pv, uint64_t n, uint64_t* put, ExternalStreamErrorInfoInterop*)
{
    vc_assert(b == 0x4321, "opaque handles are passed through"); uint64_t k = 0; ((XOut*)a)->s->Write(off, pv, n, &k); *put = k; return 0;
}
void xoclose(uintptr_t a, uintptr_t) { ((XOut*)a)->closed++; }
CziReaderObjectHandle copen(XIn& x)
{
    ExternalInputStreamStructInterop e{}; e.opaque_handle1 = (uintptr_t)&x; e.opaque_handle2 = 0x1234; e.read_function = xread; e.close_function = xclose;
    InputStreamObjectHandle s = kInvalidObjectHandle; vc_assert(libCZI_CreateInputStreamFromExternal(&e, &s) == OK && s != kInvalidObjectHandle, "an external stream is accepted");
    CziReaderObjectHandle r = kInvalidObjectHandle; vc_assert(libCZI_CreateReader(&r) == OK && r != kInvalidObjectHandle, "a reader is created");
    ReaderOpenInfoInterop o{}; o.streamObject = s; vc_assert(libCZI_ReaderOpen(r, &o) == OK, "a valid document opens");
    vc_assert(libCZI_ReleaseInputStream(s) == OK, "the stream handle can be released after opening"); return r;
}
bool ceq(const CoordinateInterop& c, const IDimCoordinate& d)
{
    int k = 0;
    for (int i = 0; i < 9; ++i)
    {
        int v; bool b = d.TryGetPosition((DimensionIndex)(i + 1), &v); if (b != (((c.dimensions_valid >> i) & 1) != 0)) return false;
        if (b && c.value[k++] != v) return false;
    }
    return (c.dimensions_valid >> 9) == 0;
}
CoordinateInterop tocoord(const CDimCoordinate& c)
{
    CoordinateInterop o{}; int k = 0; for (int i = 0; i < 9; ++i) { int v; if (c.TryGetPosition((DimensionIndex)(i + 1), &v)) { o.dimensions_valid |= 1u << i; o.value[k++] = v; } } return o;
}
bool req(const IntRectInterop& a, const IntRect& b) { if (!b.IsValid()) return a.w == b.w && a.h == b.h; return a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h; }
bool ieq(const SubBlockInfoInterop& a, const SubBlockInfo& b)
{
    return a.compression_mode_raw == b.compressionModeRaw && a.pixel_type == (int)b.pixelType && ceq(a.coordinate, b.coordinate) && req(a.logical_rect, b.logicalRect) &&
        (uint32_t)a.physical_size.w == b.physicalSize.w && (uint32_t)a.physical_size.h == b.physicalSize.h && (b.IsMindexValid() ? a.m_index == b.mIndex : a.m_index == std::numeric_limits<int32_t>::min());
}
bool beq(const DimBoundsInterop& a, const CDimBounds& b)
{
    int k = 0; for (int i = 0; i < 9; ++i) { int s, n; bool v = b.TryGetInterval((DimensionIndex)(i + 1), &s, &n); if (v != (((a.dimensions_valid >> i) & 1) != 0)) return false; if (v) { if (a.start[k] != s || a.size[k] != n) return false; ++k; } }
    return (a.dimensions_valid >> 9) == 0;
}
bool aeq(const AttachmentInfoInterop& a, const AttachmentInfo& b)
{
    string n = a.name_overflow ? string((const char*)a.name_in_case_of_overflow) : string(a.name);
    return memcmp(a.guid, &b.contentGuid, 16) == 0 && memcmp(a.content_file_type, b.contentFileType, 9) == 0 && n == b.name && a.name_overflow == (a.name_in_case_of_overflow != nullptr);
}
// raw data with the capacity stated exactly, one less and as much as there is
template <class F> void raw_check(Rng& r, F get, const bytes& want, const char* what)
{
    uint64_t n = 0xdddd; vc_assert(get(&n, (void*)nullptr) == OK && n == want.size(), what);
    uint64_t cap = r.p(40) ? want.size() : r.p(40) && !want.empty() ? want.size() - 1 : (uint64_t)r.in(0, 40); std::unique_ptr<uint8_t[]> b(new uint8_t[cap ? cap : 1]); memset(b.get(), 0xEE, cap ? cap : 1);
    n = cap; vc_assert(get(&n, b.get()) == OK && n == want.size(), what); uint64_t k = std::min<uint64_t>(cap, want.size());
    vc_assert(k == 0 || memcmp(b.get(), want.data(), k) == 0, "raw data equals what the C++ interface delivers"); for (uint64_t i = k; i < cap; ++i) vc_assert(b[i] == 0xEE, "nothing is written behind the data");
}
shared_ptr<IBitmapData> bitmap_of(ISubBlock* b) { try { return b->CreateBitmap(); } catch (std::exception&) { return nullptr; } }
void cmp_bitmap(Rng& r, BitmapObjectHandle h, IBitmapData* b)
{
    BitmapInfoInterop i{}; vc_assert(libCZI_BitmapGetInfo(h, &i) == OK && i.width == b->GetWidth() && i.height == b->GetHeight() && i.pixelType == (int)b->GetPixelType(), "bitmap information equals that of the C++ interface");
    uint32_t line = i.width * bpp(b->GetPixelType()), stride = line + (r.p(50) ? 0 : r.in(1, 9)); size_t n = (size_t)stride * (i.height - 1) + line; bytes want = pixels(b);
    std::unique_ptr<uint8_t[]> d(new uint8_t[n]); memset(d.get(), 0x77, n);
    vc_assert(libCZI_BitmapCopyTo(h, i.width, i.height, i.pixelType, stride, d.get()) == OK, "a bitmap can be copied out");
    for (uint32_t y = 0; y < i.height; ++y) { vc_assert(memcmp(d.get() + (size_t)y * stride, want.data() + (size_t)y * line, line) == 0, "the bitmap copied out has the pixels of the C++ interface"); if (y + 1 < i.height) for (uint32_t k = line; k < stride; ++k) vc_assert(d[(size_t)y * stride + k] == 0x77, "nothing is written behind a line"); }
    if (line) vc_assert(libCZI_BitmapCopyTo(h, i.width, i.height, i.pixelType, line - 1, d.get()) != OK, "a stride which is too small is refused");
    vc_assert(libCZI_BitmapCopyTo(h, i.width + 1, i.height, i.pixelType, stride + 8, d.get()) != OK && libCZI_BitmapCopyTo(h, i.width, i.height + 1, i.pixelType, stride, d.get()) != OK && libCZI_BitmapCopyTo(h, i.width, i.height, i.pixelType + 1, stride, d.get()) != OK, "other dimensions or another pixel type are refused");
    BitmapLockInfoInterop l{}; vc_assert(libCZI_BitmapLock(h, &l) == OK && l.ptrDataRoi != nullptr && l.stride >= line && l.size >= (uint64_t)l.stride * (i.height - 1) + line, "a bitmap can be locked");
    for (uint32_t y = 0; y < i.height; ++y) vc_assert(memcmp((const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, want.data() + (size_t)y * line, line) == 0, "the locked bitmap has the pixels of the C++ interface");
    vc_assert(libCZI_ReleaseBitmap(h) != OK, "a locked bitmap is not released"); vc_assert(libCZI_BitmapUnlock(h) == OK && libCZI_BitmapUnlock(h) != OK, "unlocking is balanced");
    vc_assert(libCZI_ReleaseBitmap(h) == OK, "a bitmap can be released");
}
MSub bmp_sub(Rng& r)
{
    static const vector<PixelType> pts = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32 };
    MSub s = some_sub(r, 2); if (r.p(60)) { s.comp = 0; s.pt = r.pick(pts); s.pw = r.in(1, 12); s.ph = r.in(1, 9); s.lw = s.pw; s.lh = s.ph; s.x = r.in(-30, 30); s.y = r.in(-30, 30); s.py = SubBlockPyramidType::None; s.data = r.data((size_t)s.pw * s.ph * bpp(s.pt)); }
    return s;
}
}
extern "C" void B_capi_read()
{
    Rng r = make_rng(); auto w = write_random(r, 10, 4, bmp_sub, false); auto rd = open(w.s);
    XIn x; x.s = w.s; auto h = copen(x);
    FileHeaderInfoInterop fh{}; auto f2 = rd->GetFileHeaderInfo(); vc_assert(libCZI_ReaderGetFileHeaderInfo(h, &fh) == OK && memcmp(fh.guid, &f2.fileGuid, 16) == 0 && fh.majorVersion == f2.majorVersion && fh.minorVersion == f2.minorVersion, "file header information equals that of the C++ interface");
    auto st = rd->GetStatistics(); SubBlockStatisticsInterop s1; memset(&s1, 0x55, sizeof s1);
    vc_assert(libCZI_ReaderGetStatisticsSimple(h, &s1) == OK && s1.sub_block_count == st.subBlockCount && s1.min_m_index == st.minMindex && s1.max_m_index == st.maxMindex && req(s1.bounding_box, st.boundingBox) && req(s1.bounding_box_layer0, st.boundingBoxLayer0Only) && beq(s1.dim_bounds, st.dimBounds), "statistics equal those of the C++ interface");
    {
        int32_t cap = r.in(0, 5), all = (int32_t)st.sceneBoundingBoxes.size(); size_t n = sizeof(SubBlockStatisticsInteropEx) + cap * sizeof(BoundingBoxesInterop); std::unique_ptr<uint8_t[]> m(new uint8_t[n]); auto e = (SubBlockStatisticsInteropEx*)m.get();
        int32_t k = cap; vc_assert(libCZI_ReaderGetStatisticsEx(h, e, &k) == OK && k == all && e->number_of_per_scenes_bounding_boxes == std::min(cap, all), "number of scenes reported and delivered");
        vc_assert(e->sub_block_count == st.subBlockCount && e->min_m_index == st.minMindex && e->max_m_index == st.maxMindex && req(e->bounding_box, st.boundingBox) && req(e->bounding_box_layer0, st.boundingBoxLayer0Only) && beq(e->dim_bounds, st.dimBounds), "extended statistics equal those of the C++ interface");
        int i = 0; for (auto& q : st.sceneBoundingBoxes) { if (i >= cap) break; auto& b = e->per_scenes_bounding_boxes[i++]; vc_assert(b.sceneIndex == q.first && req(b.bounding_box, q.second.boundingBox) && req(b.bounding_box_layer0_only, q.second.boundingBoxLayer0), "bounding boxes of the scenes equal those of the C++ interface"); }
        vc_assert(libCZI_ReaderGetStatisticsEx(h, e, nullptr) == OK && e->number_of_per_scenes_bounding_boxes == 0, "no scene is delivered if no capacity is stated");
    }
    {
        char* js = nullptr; vc_assert(libCZI_ReaderGetPyramidStatistics(h, &js) == OK && js != nullptr, "pyramid statistics are available"); auto py = rd->GetPyramidStatistics(); rapidjson::Document dj; dj.Parse(js); libCZI_Free(js);
        vc_assert(!dj.HasParseError() && dj.IsObject() && dj.HasMember("scenePyramidStatistics") && dj["scenePyramidStatistics"].MemberCount() == py.scenePyramidStatistics.size(), "pyramid statistics list the scenes of the C++ interface");
        for (auto& q : py.scenePyramidStatistics)
        {
            auto& o = dj["scenePyramidStatistics"]; string key = std::to_string(q.first); vc_assert(o.HasMember(key.c_str()) && o[key.c_str()].Size() == q.second.size(), "pyramid statistics list the layers of the C++ interface");
            for (size_t i = 0; i < q.second.size(); ++i) { auto& l = o[key.c_str()][(rapidjson::SizeType)i]; vc_assert(l["count"].GetInt() == q.second[i].count && l["layerInfo"]["minificationFactor"].GetInt() == q.second[i].layerInfo.minificationFactor && l["layerInfo"]["pyramidLayerNo"].GetInt() == q.second[i].layerInfo.pyramidLayerNo, "pyramid statistics equal those of the C++ interface"); }
        }
    }
    int n = st.subBlockCount;
    for (int i = -1; i <= n; ++i)
    {
        SubBlockInfoInterop a{}; SubBlockInfo b; bool ok = rd->TryGetSubBlockInfo(i, &b); auto ec = libCZI_TryGetSubBlockInfoForIndex(h, i, &a);
        vc_assert(ok ? ec == OK && ieq(a, b) : ec == LibCZIApi_ErrorCode_IndexOutOfRange, "subblock information by index equals that of the C++ interface");
        SubBlockObjectHandle sh = 77; ec = libCZI_ReaderReadSubBlock(h, i, &sh); if (!ok) { vc_assert(ec != OK || sh == kInvalidObjectHandle, "no subblock for an invalid index"); continue; }
        vc_assert(ec == OK && sh != kInvalidObjectHandle, "a subblock can be read"); auto sb = rd->ReadSubBlock(i);
        SubBlockInfoInterop c{}; vc_assert(libCZI_SubBlockGetInfo(sh, &c) == OK && ieq(c, sb->GetSubBlockInfo()), "information of a subblock equals that of the C++ interface");
        raw_check(r, [&](uint64_t* z, void* p) { return libCZI_SubBlockGetRawData(sh, 0, z, p); }, raw(sb.get(), ISubBlock::Data), "size of the subblock data");
        raw_check(r, [&](uint64_t* z, void* p) { return libCZI_SubBlockGetRawData(sh, 1, z, p); }, raw(sb.get(), ISubBlock::Metadata), "size of the subblock metadata");
        if (sb->GetSubBlockInfo().compressionModeRaw == 4) { libCZI_ReleaseSubBlock(sh); continue; }   // JPG-XR codec is not part of the build of this check
        auto bm = bitmap_of(sb.get()); BitmapObjectHandle bh = kInvalidObjectHandle; ec = libCZI_SubBlockCreateBitmap(sh, &bh);
        if (!bm) vc_assert(ec != OK, "a bitmap that cannot be created is an error"); else { vc_assert(ec == OK, "a bitmap is created where the C++ interface does"); if (bpp(bm->GetPixelType())) { vc_cover("bitmap"); cmp_bitmap(r, bh, bm.get()); } else libCZI_ReleaseBitmap(bh); }
        vc_assert(libCZI_ReleaseSubBlock(sh) == OK, "a subblock can be released");
    }
    int32_t ac = -5; vc_assert(libCZI_ReaderGetAttachmentCount(h, &ac) == OK && ac == rd->GetAttachmentCount(), "attachment count equals that of the C++ interface");
    for (int i = -1; i <= ac; ++i)
    {
        AttachmentInfoInterop a{}; AttachmentInfo b; bool ok = rd->TryGetAttachmentInfo(i, &b); auto ec = libCZI_ReaderGetAttachmentInfoFromDirectory(h, i, &a);
        vc_assert(ok ? ec == OK && aeq(a, b) : ec == LibCZIApi_ErrorCode_IndexOutOfRange, "attachment information equals that of the C++ interface"); if (ok && a.name_overflow) libCZI_Free(a.name_in_case_of_overflow);
        AttachmentObjectHandle ah = 77; ec = libCZI_ReaderReadAttachment(h, i, &ah); if (!ok) { vc_assert(ec != OK || ah == kInvalidObjectHandle, "no attachment for an invalid index"); continue; }
        vc_assert(ec == OK && ah != kInvalidObjectHandle, "an attachment can be read"); auto at = rd->ReadAttachment(i); AttachmentInfoInterop c{}; vc_assert(libCZI_AttachmentGetInfo(ah, &c) == OK && aeq(c, at->GetAttachmentInfo()), "information of an attachment equals that of the C++ interface");
        raw_check(r, [&](uint64_t* z, void* p) { return libCZI_AttachmentGetRawData(ah, z, p); }, raw_att(at), "size of the attachment data"); ScalingInfoInterop si; void* vp = nullptr; vc_assert(libCZI_CziDocumentInfoGetScalingInfo(ah, &si) != OK && libCZI_CziDocumentInfoGetGeneralDocumentInfo(ah, &vp) != OK && libCZI_ReleaseCziDocumentInfo(ah) != OK, "a handle of another kind is an error"); vc_assert(libCZI_ReleaseAttachment(ah) == OK, "an attachment can be released");
    }
    if (w.d.has_meta)
    {
        MetadataSegmentObjectHandle mh = kInvalidObjectHandle; vc_assert(libCZI_ReaderGetMetadataSegment(h, &mh) == OK, "metadata can be read");
        MetadataAsXmlInterop mx{}; vc_assert(libCZI_MetadataSegmentGetMetadataAsXml(mh, &mx) == OK && mx.size == w.d.xml.size() && mx.data != nullptr && memcmp(mx.data, w.d.xml.data(), w.d.xml.size()) == 0 && (((const char*)mx.data)[mx.size] == 0 || mx.size), "XML metadata equals what was written");
        libCZI_Free(mx.data); vc_assert(libCZI_MetadataSegmentGetMetadataAsXml(mh, nullptr) != OK, "a null output argument is an error"); vc_assert(libCZI_ReleaseMetadataSegment(mh) == OK, "metadata can be released");
    }
    SubBlockObjectHandle sh; AttachmentObjectHandle ah; uint64_t z = 0; // invalid arguments
    vc_assert(libCZI_ReaderReadSubBlock(h, 0, nullptr) != OK && libCZI_ReaderReadAttachment(h, 0, nullptr) != OK && libCZI_ReaderGetMetadataSegment(h, nullptr) != OK && libCZI_ReaderGetAttachmentCount(h, nullptr) != OK && libCZI_ReaderGetStatisticsSimple(h, nullptr) != OK && libCZI_ReaderGetStatisticsEx(h, nullptr, nullptr) != OK && libCZI_ReaderGetFileHeaderInfo(h, nullptr) != OK && libCZI_TryGetSubBlockInfoForIndex(h, 0, nullptr) != OK && libCZI_ReaderGetAttachmentInfoFromDirectory(h, 0, nullptr) != OK, "a null output argument is an error");
    vc_assert(libCZI_ReaderReadSubBlock(0, 0, &sh) != OK && libCZI_ReaderReadAttachment(0, 0, &ah) != OK && libCZI_SubBlockGetRawData(0, 0, &z, nullptr) != OK && libCZI_AttachmentGetRawData(0, &z, nullptr) != OK && libCZI_SubBlockGetInfo(0, nullptr) != OK && libCZI_ReleaseReader(0) != OK && libCZI_ReleaseSubBlock(0) != OK && libCZI_BitmapCopyTo(0, 1, 1, 0, 1, &z) != OK, "an invalid handle is an error");
    vc_assert(libCZI_ReleaseSubBlock(h) != OK && libCZI_ReleaseAttachment(h) != OK && libCZI_ReleaseMetadataSegment(h) != OK && libCZI_ReleaseBitmap(h) != OK, "a handle of another kind is an error");
    vc_assert(x.closed == 0 && libCZI_ReleaseReader(h) == OK && x.closed == 1, "the stream is closed exactly when nothing uses it any more");
    vc_cover("done");
}
extern "C" void B_capi_write()
{
    Rng r = make_rng(); XOut x; x.s = std::make_shared<MemStream>(); MDoc d;
    ExternalOutputStreamStructInterop e{}; e.opaque_handle1 = (uintptr_t)&x; e.opaque_handle2 = 0x4321; e.write_function = xwrite; e.close_function = xoclose;
    OutputStreamObjectHandle os = 0; vc_assert(libCZI_CreateOutputStreamFromExternal(&e, &os) == OK, "external output stream"); CziWriterObjectHandle w = 0;
    bool dup = r.p(30); vc_assert(libCZI_CreateWriter(&w, dup ? "{\"allow_duplicate_subblocks\":true}" : r.p(50) ? "{\"allow_duplicate_subblocks\":false}" : nullptr) == OK, "writer is created");
    d.guid = some_guid(r); char g[64]; snprintf(g, 64, "{\"file_guid\":\"{%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x}\"}", d.guid.Data1, d.guid.Data2, d.guid.Data3, d.guid.Data4[0], d.guid.Data4[1], d.guid.Data4[2], d.guid.Data4[3], d.guid.Data4[4], d.guid.Data4[5], d.guid.Data4[6], d.guid.Data4[7]);
    vc_assert(libCZI_WriterCreate(w, os, g) == OK && libCZI_ReleaseOutputStream(os) == OK, "writing starts");
    int n = r.in(0, 8);
    for (int i = 0; i < n; ++i)
    {
        MSub s = bmp_sub(r); if (!d.subs.empty() && r.p(15)) s = r.pick(d.subs); s.py = SubBlockPyramidType::None; s.comp = r.p(60) ? 0 : r.in(1, 6); if (bpp(s.pt) == 0) s.pt = PixelType::Gray8;
        AddSubBlockInfoInterop a; memset(&a, 0xC7, sizeof a); a.coordinate = tocoord(s.c); a.m_index_valid = s.mv ? r.in(1, 255) : 0; if (s.mv) a.m_index = s.m; a.x = s.x; a.y = s.y; a.logical_width = s.lw; a.logical_height = s.lh; a.physical_width = s.pw; a.physical_height = s.ph; a.pixel_type = (int)s.pt; a.compression_mode_raw = s.comp;
        bytes b; bool small = false;
        if (s.comp == 0)
        {
            uint32_t line = s.pw * bpp(s.pt), st = line + (r.p(50) ? 0 : r.in(1, 9)); b = r.data((size_t)st * (s.ph - 1) + line); s.data.clear(); for (int y = 0; y < s.ph; ++y) s.data.insert(s.data.end(), b.begin() + (size_t)y * st, b.begin() + (size_t)y * st + line);
            a.stride = st; small = r.p(10); if (small) b.pop_back();
        }
        else b = s.data;
        std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() ? b.size() : 1]); if (!b.empty()) memcpy(exact.get(), b.data(), b.size());
        a.size_data = (uint32_t)b.size(); a.data = exact.get(); a.size_metadata = (uint32_t)s.meta.size(); a.metadata = s.meta.data(); a.size_attachment = (uint32_t)s.att.size(); a.attachment = s.att.data();
        bool yes = false, unclear = false; for (auto& q : d.subs) { Dup u = writer_dup(q, s); yes |= u == Dup::Yes; unclear |= u == Dup::Unclear; }
        auto ec = libCZI_WriterAddSubBlock(w, &a);
        if (small) { vc_assert(ec != OK, "bitmap data which is too small for the bitmap is refused"); continue; }
        if (dup) vc_assert(ec == OK, "with duplicates allowed no subblock is refused"); else if (yes) vc_assert(ec != OK, "a duplicate subblock is refused"); else if (!unclear) vc_assert(ec == OK, "a subblock that is not a duplicate is accepted");
        if (ec == OK) d.subs.push_back(s);
    }
    int na = r.in(0, 3);
    for (int i = 0; i < na; ++i)
    {
        MAtt t = some_att(r); AddAttachmentInfoInterop a{}; memcpy(a.guid, &t.g, 16); memcpy(a.contentFileType, t.type.data(), t.type.size()); memcpy(a.name, t.name.data(), t.name.size()); a.size_attachment_data = (uint32_t)t.data.size(); a.attachment_data = t.data.data();
        vc_assert(libCZI_WriterAddAttachment(w, &a) == OK, "an attachment is accepted"); d.atts.push_back(t);
    }
    if (r.p(60)) { some_meta(d, r); d.xmlatt.clear(); WriteMetadataInfoInterop m{}; m.size_metadata = (uint32_t)d.xml.size(); m.metadata = d.xml.data(); vc_assert(libCZI_WriterWriteMetadata(w, &m) == OK, "metadata is accepted"); }
    vc_assert(libCZI_WriterAddSubBlock(w, nullptr) != OK && libCZI_WriterAddAttachment(w, nullptr) != OK && libCZI_WriterWriteMetadata(w, nullptr) != OK && libCZI_WriterClose(0) != OK, "invalid arguments are errors");
    vc_assert(libCZI_WriterClose(w) == OK && libCZI_ReleaseWriter(w) == OK && x.closed == 1, "the document is completed and the stream closed");
    auto rd = open(x.s); auto fhi = rd->GetFileHeaderInfo(); vc_assert(memcmp(&fhi.fileGuid, &d.guid, 16) == 0, "the GUID is what was specified"); check_doc(rd.get(), d); check_chain(x.s->d, false);
    vc_cover("done");
}
// composition and accessor through the C interface
extern "C" void B_capi_accessor()
{
    Rng r = make_rng(); static const vector<PixelType> pts = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24 }; PixelType pt = r.pick(pts);
    auto w = write_random(r, 6, 0, [&](Rng& q) { MSub s; s.c.Set(DimensionIndex::C, 0); s.mv = true; s.m = q.in(0, 50); s.pt = pt; s.pw = s.lw = q.in(1, 9); s.ph = s.lh = q.in(1, 9); s.x = q.in(-8, 8); s.y = q.in(-8, 8); s.data = q.data((size_t)s.pw * s.ph * bpp(pt)); return s; }, false);
    auto rd = open(w.s); XIn x; x.s = w.s; auto h = copen(x);
    SingleChannelScalingTileAccessorObjectHandle ah = 0; vc_assert(libCZI_CreateSingleChannelTileAccessor(h, &ah) == OK, "accessor is created"); auto ac = rd->CreateSingleChannelScalingTileAccessor();
    IntRect roi{ r.in(-10, 5), r.in(-10, 5), r.in(1, 20), r.in(1, 20) }; IntRectInterop ri{ roi.x, roi.y, roi.w, roi.h }; float zooms[] = { 1.f, 1.f, 0.5f, 2.f }; float zoom = zooms[r.in(0, 3)]; CDimCoordinate pc; pc.Set(DimensionIndex::C, 0); auto ci = tocoord(pc);
    IntSizeInterop sz{}; auto s2 = ac->CalcSize(roi, zoom); vc_assert(libCZI_SingleChannelTileAccessorCalcSize(ah, &ri, zoom, &sz) == OK && (uint32_t)sz.w == s2.w && (uint32_t)sz.h == s2.h, "the size of the image equals that of the C++ interface");
    ISingleChannelScalingTileAccessor::Options o; o.Clear(); AccessorOptionsInterop oi{}; o.backGroundColor.r = oi.back_ground_color_r = r.in(0, 4) / 4.f; o.backGroundColor.g = oi.back_ground_color_g = r.in(0, 4) / 4.f; o.backGroundColor.b = oi.back_ground_color_b = r.in(0, 4) / 4.f; o.sortByM = oi.sort_by_m = r.p(50); o.useVisibilityCheckOptimization = oi.use_visibility_check_optimization = r.p(50);
    bool nul = r.p(20); if (nul) { o.Clear(); }
    shared_ptr<IBitmapData> b; try { b = ac->Get(roi, &pc, zoom, nul ? nullptr : &o); } catch (std::exception&) {}
    BitmapObjectHandle bh = 0; auto ec = libCZI_SingleChannelTileAccessorGet(ah, &ci, &ri, zoom, nul ? nullptr : &oi, &bh); vc_assert((ec == OK) == (bool)b, "an image is delivered where the C++ interface does");
    if (b) { if (b->GetWidth() && b->GetHeight()) { vc_cover("image"); cmp_bitmap(r, bh, b.get()); } else vc_assert(libCZI_ReleaseBitmap(bh) == OK, "release"); }
    vc_assert(libCZI_SingleChannelTileAccessorGet(ah, nullptr, &ri, zoom, nullptr, &bh) != OK && libCZI_SingleChannelTileAccessorGet(ah, &ci, nullptr, zoom, nullptr, &bh) != OK && libCZI_SingleChannelTileAccessorGet(ah, &ci, &ri, zoom, nullptr, nullptr) != OK && libCZI_SingleChannelTileAccessorCalcSize(ah, &ri, zoom, nullptr) != OK, "null arguments are errors");
    vc_assert(libCZI_ReleaseCreateSingleChannelTileAccessor(ah) == OK && libCZI_ReleaseReader(h) == OK, "release");
}

namespace { bool deq(double a, double b) { return a == b || (a != a && b != b); } }
extern "C" void B_capi_docinfo()
{
    Rng r = make_rng(); string x = "<ImageDocument><Metadata>"; auto num = [&]() { char b[40]; snprintf(b, 40, "%.6ge-%d", r.in(1, 99999) / 1000.0, r.in(1, 9)); return string(b); };
    if (r.p(80)) { x += "<Scaling><Items>"; for (char c : { 'X', 'Y', 'Z' }) if (r.p(75)) x += string("<Distance Id=\"") + c + "\"><Value>" + num() + "</Value></Distance>"; x += "</Items></Scaling>"; }
    x += "<Information><Image>"; int nc = r.in(0, 3); static const char kD[] = "ZCTRSIHV"; for (const char* p = kD; *p; ++p) if (r.p(50)) x += string("<Size") + *p + ">" + std::to_string(*p == 'C' ? std::max(nc, 1) : r.in(1, 9)) + "</Size" + *p + ">";
    x += "<Dimensions>"; struct Ch { string id, name, cc, refl; bool hasCc, hasRefl; }; vector<Ch> ch;
    if (nc) { x += "<Channels>"; for (int i = 0; i < nc; ++i) { Ch c; c.id = "Channel:" + std::to_string(i); c.name = string("n") + (char)r.in('a', 'z'); c.hasCc = r.p(60); c.hasRefl = r.p(60); c.cc = string("cc") + (char)r.in('a', 'z'); c.refl = string("rf") + (char)r.in('a', 'z'); x += "<Channel Id=\"" + c.id + "\" Name=\"" + c.name + "\">" + (c.hasCc ? "<CondenserContrast>" + c.cc + "</CondenserContrast>" : "") + (c.hasRefl ? "<Reflector>" + c.refl + "</Reflector>" : "") + "</Channel>"; ch.push_back(c); } x += "</Channels>"; }
    x += "</Dimensions></Image></Information>"; bool ds = r.p(50); int nds = r.in(1, 3);
    if (ds) { x += "<DisplaySetting><Channels>"; for (int i = 0; i < nds; ++i) x += "<Channel Id=\"Channel:" + std::to_string(i) + "\"><IsSelected>" + (r.p(80) ? "true" : "false") + "</IsSelected>" + (r.p(60) ? "<Low>0.1</Low><High>0.7</High>" : "") + (r.p(40) ? "<Gamma>0.5</Gamma>" : "") + (r.p(50) ? "<Color>#FF102030</Color><ColorMode>Color</ColorMode>" : "") + "</Channel>"; x += "</Channels></DisplaySetting>"; }
    x += "</Metadata></ImageDocument>";
    auto ms = std::make_shared<MemStream>(); { auto w = CreateCZIWriter(); w->Create(ms, std::make_shared<CCziWriterInfo>(some_guid(r))); WriteMetadataInfo i; i.Clear(); i.szMetadata = x.data(); i.szMetadataSize = x.size(); w->SyncWriteMetadata(i); w->Close(); }
    auto rd = open(ms); auto di = rd->ReadMetadataSegment()->CreateMetaFromMetadataSegment()->GetDocumentInfo();
    XIn xi; xi.s = ms; auto h = copen(xi); MetadataSegmentObjectHandle mh = 0; vc_assert(libCZI_ReaderGetMetadataSegment(h, &mh) == OK, "metadata can be read"); CziDocumentInfoHandle dh = 0; vc_assert(libCZI_MetadataSegmentGetCziDocumentInfo(mh, &dh) == OK, "document information is available"); libCZI_ReleaseMetadataSegment(mh); libCZI_ReleaseReader(h);
    ScalingInfoInterop si; auto s2 = di->GetScalingInfo(); double nan = std::numeric_limits<double>::quiet_NaN(); vc_assert(libCZI_CziDocumentInfoGetScalingInfo(dh, &si) == OK && deq(si.scale_x, s2.IsScaleXValid() ? s2.scaleX : nan) && deq(si.scale_y, s2.IsScaleYValid() ? s2.scaleY : nan) && deq(si.scale_z, s2.IsScaleZValid() ? s2.scaleZ : nan), "scaling equals that of the C++ interface");
    auto dims = di->GetDimensions(); uint32_t cap = r.p(50) ? (uint32_t)dims.size() + 1 : (uint32_t)r.in(0, 10); std::unique_ptr<uint32_t[]> av(new uint32_t[cap ? cap : 1]); auto ec = libCZI_CziDocumentInfoGetAvailableDimension(dh, cap, av.get()); vc_assert((ec == OK) == (cap >= dims.size() + 1), "the list of dimensions is delivered if the capacity suffices");
    if (ec == OK) { for (size_t i = 0; i < dims.size(); ++i) vc_assert(av[i] == (uint32_t)dims[i], "available dimensions equal those of the C++ interface"); vc_assert(av[dims.size()] == kDimensionInvalid, "the list of dimensions is terminated"); }
    for (uint32_t d = 0; d <= 10; ++d)
    {
        void* j = (void*)0x1; ec = libCZI_CziDocumentInfoGetDimensionInfo(dh, d, &j); bool have = (d == kDimensionZ && di->GetDimensionZInfo()) || (d == kDimensionT && di->GetDimensionTInfo()) || (d == kDimensionC && di->GetDimensionChannelsInfo());
        vc_assert((ec == OK) == have, "dimension information is reported exactly where there is some");
        if (ec == OK)
        {
            rapidjson::Document dj; dj.Parse((const char*)j); vc_assert(!dj.HasParseError() && dj.IsObject(), "dimension information is JSON"); libCZI_Free(j);
            if (d == kDimensionC)
            {
                vc_cover("channels"); vc_assert((int)dj.MemberCount() == di->GetDimensionChannelsInfo()->GetChannelCount(), "one entry per channel");
                for (int i = 0; i < nc; ++i)
                {
                    auto& o = dj[std::to_string(i).c_str()]; auto str = [&](const char* k, bool has, const string& v) { return has ? o.HasMember(k) && v == o[k].GetString() : !o.HasMember(k); };
                    vc_assert(str("attribute_id", true, ch[i].id) && str("attribute_name", true, ch[i].name) && str("condensor_contrast", ch[i].hasCc, ch[i].cc) && str("reflector", ch[i].hasRefl, ch[i].refl), "channel information is what the metadata says");
                }
            }
        }
    }
    DisplaySettingsHandle sh = 77; auto cds = di->GetDisplaySettings(); ec = libCZI_CziDocumentInfoGetDisplaySettings(dh, &sh);
    if (!cds) vc_assert(ec != OK || sh == kInvalidObjectHandle, "no display settings where there are none");
    else
    {
        vc_assert(ec == OK && sh != kInvalidObjectHandle, "display settings are available"); vc_cover("display settings");
        for (int i = 0; i < 5; ++i)
        {
            auto c = cds->GetChannelDisplaySettings(i); ChannelDisplaySettingsHandle chh = 0; ec = libCZI_DisplaySettingsGetChannelDisplaySettings(sh, i, &chh); vc_assert((ec == OK) == (bool)c, "channel display settings exist where the C++ interface has them"); if (ec == OK) libCZI_ReleaseChannelDisplaySettings(chh);
            CompositionChannelInfoInterop ci; ec = libCZI_CompositorFillOutCompositionChannelInfoInterop(sh, i, r.p(50), &ci); vc_assert((ec == OK) == (bool)c, "composition information exists where the C++ interface has the channel");
            if (c) { float b = 0, w = 0; c->GetBlackWhitePoint(&b, &w); vc_assert(c->GetIsEnabled() ? ci.weight == c->GetWeight() && ci.black_point == b && ci.white_point == w : ci.weight == 0, "weight, black point and white point equal those of the C++ interface"); Rgb8Color col; bool t = c->TryGetTintingColorRgb8(&col); if (c->GetIsEnabled()) vc_assert((ci.enable_tinting != 0) == t && (!t || (ci.tinting_color_r == col.r && ci.tinting_color_g == col.g && ci.tinting_color_b == col.b)), "tinting equals that of the C++ interface"); if (ci.ptr_look_up_table) libCZI_Free((void*)ci.ptr_look_up_table); }
        }
        vc_assert(libCZI_ReleaseDisplaySettings(sh) == OK, "release");
    }
    vc_assert(libCZI_AttachmentGetInfo(dh, nullptr) != OK && libCZI_ReleaseAttachment(dh) != OK, "a handle of another kind is an error"); vc_assert(libCZI_ReleaseCziDocumentInfo(dh) == OK, "release");
    BitmapObjectHandle bz[1] = { 0 }, ob = 0; CompositionChannelInfoInterop cz{}; vc_assert(libCZI_CompositorDoMultiChannelComposition(1, bz, &cz, &ob) != OK && libCZI_CompositorDoMultiChannelComposition(0, bz, &cz, &ob) != OK, "an invalid bitmap handle is an error");
}
