// contracts for the segment readers (CziParse.cpp): memory safety and fidelity on arbitrary file contents
// TUS: CziStructs.cpp CziSubBlockDirectory.cpp utilities.cpp CziUtils.cpp libCZI_Utilities.cpp DimCoordinate.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "CziParse.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef uint8_t u8; typedef int32_t i32; typedef int64_t i64;

// The file: arbitrary bytes of arbitrary length; reads may come back short or fail.
struct VStream : public libCZI::IStream
{
    u8* file; u64 fsize; u8 err;
    void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead) override
    {
        vc_writable(pv, size, "the reader hands out a buffer of at least the requested size");
        if (VC_U8("io_error", 1, 200) == 0) throw std::runtime_error("io");
        u64 got = 0;
        if (offset < this->fsize) { got = this->fsize - offset; if (got > size) got = size; }
        memcpy(pv, this->file + offset, got);
        *ptrBytesRead = got;
    }
};
// every read succeeds completely (short and failing reads: H_subblock)
struct FStream : public VStream
{
    u64 base;       // file position of file[0]
    void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead) override
    {
        offset -= base;
        vc_assume(offset < fsize && size <= fsize - offset);
        memcpy(pv, this->file + offset, size); *ptrBytesRead = size;
    }
};
static u64 rd(const u8* p, u64 o, int n) { u64 v = 0; for (int i = n - 1; i >= 0; --i) v = (v << 8) | p[o + i]; return v; }
static i32 rd32(const u8* p, u64 o) { return (i32)(uint32_t)rd(p, o, 4); }
static i64 rd64(const u8* p, u64 o) { return (i64)rd(p, o, 8); }
static void wr(VStream& s, u64 o, u64 v, int n) { for (int i = 0; i < n; ++i) if (o + i < s.fsize) s.file[o + i] = (u8)(v >> (8 * i)); }
static void wrs(VStream& s, u64 o, const char* t, int n) { for (int i = 0; i < n; ++i) if (o + i < s.fsize) s.file[o + i] = i < (int)strlen(t) ? (u8)t[i] : 0; }
static void mk(VStream& s)
{
    s.fsize = VC_U64("fsize", 300, 2500);
    vc_assume(s.fsize < (1ull << 60));
    s.file = (u8*)vc_buf(s.fsize, "file");
}
// native mode only: make random files plausible (controlled by recorded inputs, so replays are exact)
static bool plausible() { return !vc_is_proof() && VC_U8("plausible", 1, 9) % 8 != 0; }
static const char LET[] = "XYMZCTRSIHVBxymcq";
static void overlay_dv(VStream& s, u64 o)
{
    wrs(s, o, "DV", 2); wr(s, o + 2, VC_U32("ov_pt", 0, 14), 4); wr(s, o + 22, VC_U8("ov_pyr", 0, 3), 1);
    u8 n = VC_U8("ov_dims", 0, 14); if (n > 200) n = 41; wr(s, o + 28, n == 14 ? 41 : n == 13 ? 40 : n, 4);
    for (int i = 0; i < 41; ++i) if (o + 32 + 20 * i < s.fsize) { u8 b = s.file[o + 32 + 20 * i]; wr(s, o + 32 + 20 * i, (u8)LET[b % (sizeof LET - 1)], 1); if (o + 33 + 20 * i < s.fsize && (s.file[o + 33 + 20 * i] & 3)) { wr(s, o + 32 + 20 * i + 8, 1, 4); } }
}
static void* va(size_t n) { return malloc(n); }
static void vf(void* p) { free(p); }
static bool magic_ok(const u8* p, u64 o, const char* m) { for (int i = 0; i < 16; ++i) if (p[o + i] != (i < (int)strlen(m) ? (u8)m[i] : 0)) return false; return true; }
static char up(u8 c) { return (char)(c >= 'a' && c <= 'z' ? c - 32 : c); }
static int dim_of(char c) { return c == 'Z' ? 1 : c == 'C' ? 2 : c == 'T' ? 3 : c == 'R' ? 4 : c == 'S' ? 5 : c == 'I' ? 6 : c == 'H' ? 7 : c == 'V' ? 8 : c == 'B' ? 9 : 0; }

// ---------------------------------------------------------------- dimension letters (contracts used by the callers below)
static bool c_isx(const char* p, size_t) { return up((u8)*p) == 'X'; }
static bool c_isy(const char* p, size_t) { return up((u8)*p) == 'Y'; }
static bool c_ism(const char* p, size_t) { return up((u8)*p) == 'M'; }
static libCZI::DimensionIndex c_dim(const char* p, size_t) { int d = dim_of(up((u8)*p)); if (d == 0) throw LibCZICZIParseException("dim", LibCZICZIParseException::ErrorCode::CorruptedData); return (libCZI::DimensionIndex)d; }
static void use_letter_contracts()
{
    if (!vc_is_proof()) return;
    vc_replace((void*)&CCZIParse::IsXDimension, (void*)&c_isx); vc_replace((void*)&CCZIParse::IsYDimension, (void*)&c_isy); vc_replace((void*)&CCZIParse::IsMDimension, (void*)&c_ism);
    vc_replace((void*)&CCZIParse::DimensionCharToDimensionIndex, (void*)&c_dim);
}
extern "C" void H_letters()
{
    char c[4]; c[0] = (char)VC_U8("c", 60, 125); c[1] = c[2] = c[3] = 0; bool t = false; int d = 0;
    vc_assert(CCZIParse::IsXDimension(c, 4) == c_isx(c, 4), "X"); vc_assert(CCZIParse::IsYDimension(c, 4) == c_isy(c, 4), "Y"); vc_assert(CCZIParse::IsMDimension(c, 4) == c_ism(c, 4), "M");
    try { d = (int)CCZIParse::DimensionCharToDimensionIndex(c, 4); } catch (std::exception&) { t = true; }
    vc_assert(t == (dim_of(up((u8)c[0])) == 0), "letters outside the format are refused"); vc_assert(t || d == dim_of(up((u8)c[0])), "dimension of a letter");
    if (t) vc_cover("refused"); else vc_cover("dim");
}
// ---------------------------------------------------------------- file header
extern "C" void H_fileheader()
{
    VStream s; mk(s);
    if (plausible()) wrs(s, 0, "ZISRAWFILE", 16);
    bool threw = false; FileHeaderSegmentData d;
    try { d = CCZIParse::ReadFileHeaderSegment(&s); } catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_cover("ok");
        vc_assert(s.fsize >= 544, "whole header present");
        vc_assert(magic_ok(s.file, 0, "ZISRAWFILE"), "magic");
        for (int i = 0; i < 80; ++i) vc_assert(((u8*)&d)[i] == s.file[32 + i], "header bytes are those of the file");
        CFileHeaderSegmentData h(&d);
        int ma, mi; h.GetVersion(&ma, &mi);
        vc_assert(ma == rd32(s.file, 32) && mi == rd32(s.file, 36), "version");
        vc_assert(h.GetSubBlockDirectoryPosition() == (u64)rd64(s.file, 32 + 52), "subblock directory position");
        vc_assert(h.GetMetadataPosition() == (u64)rd64(s.file, 32 + 60), "metadata position");
        vc_assert(h.GetAttachmentDirectoryPosition() == (u64)rd64(s.file, 32 + 72), "attachment directory position");
        libCZI::GUID g = h.GetFileGuid();
        vc_assert(g.Data1 == (uint32_t)rd32(s.file, 32 + 32) && g.Data2 == (uint16_t)rd(s.file, 32 + 36, 2) && g.Data3 == (uint16_t)rd(s.file, 32 + 38, 2) && g.Data4[0] == s.file[32 + 40] && g.Data4[7] == s.file[32 + 47], "file guid");
    } else vc_cover("threw");
}
// ---------------------------------------------------------------- segment headers
extern "C" void H_segheader()
{
    static const char* const M[5] = { "ZISRAWDIRECTORY", "ZISRAWSUBBLOCK", "ZISRAWATTDIR", "ZISRAWATTACH", "ZISRAWMETADATA" };
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60); u8 t = VC_U8("type", 0, 4); vc_assume(t < 5);
    if (plausible()) wrs(s, off, M[t], 16);
    bool threw = false; CCZIParse::SegmentSizes z{ 0, 0 };
    const CCZIParse::SegmentType T[5] = { CCZIParse::SegmentType::SbBlkDirectory, CCZIParse::SegmentType::SbBlk, CCZIParse::SegmentType::AttchmntDirectory, CCZIParse::SegmentType::Attachment, CCZIParse::SegmentType::Metadata };
    try { z = CCZIParse::ReadSegmentHeader(T[t], &s, off); } catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_cover("ok");
        vc_assert(off < s.fsize && s.fsize - off >= 32, "whole header present");
        bool ok = true; for (int q = 0; q < 5; ++q) if (t == q && !magic_ok(s.file, off, M[q])) ok = false;
        vc_assert(ok, "magic is the one of the segment kind");
        vc_assert(z.AllocatedSize == rd64(s.file, off + 16) && z.UsedSize == rd64(s.file, off + 24), "sizes are those of the file");
    }
    bool threw2 = false;
    try { z = CCZIParse::ReadSegmentHeaderAny(&s, off); } catch (std::exception&) { threw2 = true; }
    if (!threw2) { vc_cover("any"); vc_assert(off < s.fsize && s.fsize - off >= 32 && z.AllocatedSize == rd64(s.file, off + 16) && z.UsedSize == rd64(s.file, off + 24), "any header: sizes"); }
}
// ---------------------------------------------------------------- attachment segment
extern "C" void H_attachment()
{
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60);
    if (plausible()) { wrs(s, off, "ZISRAWATTACH", 16); wr(s, off + 32, VC_U32("ov_size", 0, 300), 8); }
    bool threw = false; CCZIParse::AttachmentData d; CCZIParse::SubBlockStorageAllocate a{ va, vf };
    try { d = CCZIParse::ReadAttachment(&s, off, a); } catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_cover("ok");
        vc_assert(magic_ok(s.file, off, "ZISRAWATTACH"), "magic");
        i64 n = rd64(s.file, off + 32);
        vc_assert(n >= 0 && d.dataSize == (u64)n, "payload size");
        u64 w = VC_U64("w", 0, 300);
        if (w < d.dataSize) { vc_cover("byte"); vc_assert(off + 288 + w < s.fsize, "payload inside the file"); vc_assert(((u8*)d.ptrData)[w] == s.file[off + 288 + w], "payload byte"); }
        if (!vc_is_proof()) free(d.ptrData);
    } else vc_cover("threw");
}
// ---------------------------------------------------------------- metadata segment
extern "C" void H_metadata()
{
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60);
    if (plausible()) { wrs(s, off, "ZISRAWMETADATA", 16); wr(s, off + 32, VC_U32("ov_xml", 0, 300), 4); wr(s, off + 36, VC_U32("ov_att", 0, 30), 4); }
    bool threw = false; CCZIParse::MetadataSegmentData d; CCZIParse::SubBlockStorageAllocate a{ va, vf };
    try { d = CCZIParse::ReadMetadataSegment(&s, off, a); } catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_cover("ok");
        vc_assert(magic_ok(s.file, off, "ZISRAWMETADATA"), "magic");
        i32 nx = rd32(s.file, off + 32), na = rd32(s.file, off + 36);
        vc_assert(nx >= 0 && d.xmlDataSize == (u64)nx, "xml size"); vc_assert(na >= 0 && d.attachmentSize == (u64)na, "attachment size");
        u64 w = VC_U64("w", 0, 300);
        if (w < d.xmlDataSize) { vc_cover("xml"); vc_assert(off + 288 + w < s.fsize && ((u8*)d.ptrXmlData)[w] == s.file[off + 288 + w], "xml byte"); }
        if (w < d.attachmentSize) { vc_cover("att"); vc_assert(off + 288 + nx + w < s.fsize && ((u8*)d.ptrAttachment)[w] == s.file[off + 288 + nx + w], "metadata attachment byte"); }
        if (!vc_is_proof()) { free(d.ptrXmlData); free(d.ptrAttachment); }
    } else vc_cover("threw");
}
// ---------------------------------------------------------------- subblock segment
static void overlay_sb(VStream& s, u64 off)
{
    wrs(s, off, "ZISRAWSUBBLOCK", 16); wr(s, off + 32, VC_U32("ov_meta", 0, 60), 4); wr(s, off + 36, VC_U32("ov_att", 0, 60), 4); wr(s, off + 40, VC_U32("ov_data", 0, 300), 8);
    overlay_dv(s, off + 48);
}
// payloads and the fixed fields
extern "C" void H_subblock()
{
    use_letter_contracts();
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60);
    if (plausible()) overlay_sb(s, off);
    bool threw = false; CCZIParse::SubBlockData d; CCZIParse::SubBlockStorageAllocate a{ va, vf };
    try { d = CCZIParse::ReadSubBlock(&s, off, a); } catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_assert(magic_ok(s.file, off, "ZISRAWSUBBLOCK"), "magic");
        i32 nm = rd32(s.file, off + 32), na = rd32(s.file, off + 36); i64 nd = rd64(s.file, off + 40);
        vc_assert(nm >= 0 && d.metaDataSize == (uint32_t)nm, "metadata size"); vc_assert(na >= 0 && d.attachmentSize == (uint32_t)na, "attachment size"); vc_assert(nd >= 0 && d.dataSize == (u64)nd, "data size");
        bool dv = s.file[off + 48] == 'D' && s.file[off + 49] == 'V', de = s.file[off + 48] == 'D' && s.file[off + 49] == 'E';
        vc_assert(dv || de, "schema known");
        if (dv)
        {
            vc_cover("ok");
            i32 dims = rd32(s.file, off + 48 + 28);
            vc_assert(dims >= 0 && dims <= 40, "dimension count in range");
            vc_assert(d.pixelType == rd32(s.file, off + 50) && d.compression == rd32(s.file, off + 66), "pixel type and compression");
            vc_assert(d.spare[0] == s.file[off + 48 + 22], "pyramid type");
            u64 len = 48 + (u64)dims * 20; if (len < 256) len = 256;
            u64 base = off + 32 + len, w = VC_U64("w", 0, 300);
            if (w < d.metaDataSize) { vc_cover("meta"); vc_assert(base + w < s.fsize && ((u8*)d.ptrMetadata)[w] == s.file[base + w], "metadata byte"); }
            if (w < d.dataSize) { vc_cover("data"); vc_assert(base + nm + w < s.fsize && ((u8*)d.ptrData)[w] == s.file[base + nm + w], "data byte"); }
            if (w < d.attachmentSize) { vc_cover("att"); vc_assert(base + nm + nd + w < s.fsize && ((u8*)d.ptrAttachment)[w] == s.file[base + nm + nd + w], "attachment byte"); }
        }
        if (!vc_is_proof()) { free(d.ptrData); free(d.ptrMetadata); free(d.ptrAttachment); }
    } else vc_cover("threw");
}
// every dimension entry: the last entry for a letter is the one reported
static inline void subblock_dims(int which)
{
    use_letter_contracts();
    FStream s; mk(s); s.base = VC_U64("off", 0, 60); const u64 off = 0;
    if (plausible()) overlay_sb(s, off);
    else if (!vc_is_proof()) return;
    vc_assume(off < s.fsize && s.fsize - off >= 1200 && s.file[off + 48] == 'D' && s.file[off + 49] == 'V');
    bool threw = false; CCZIParse::SubBlockData d; CCZIParse::SubBlockStorageAllocate a{ va, vf };
    try { d = CCZIParse::ReadSubBlock(&s, s.base, a); } catch (std::exception&) { threw = true; }
    if (threw) { vc_cover("threw"); return; }
    i32 dims = rd32(s.file, off + 76), j = VC_I32("j", 0, 12); vc_assume(j >= 0 && j < dims && dims <= 40);
    u64 e = off + 80 + (u64)j * 20; char c = up(s.file[e]);
    bool last = true; for (int i = 0; i < 40; ++i) if (i > j && i < dims && up(s.file[off + 80 + (u64)i * 20]) == c) last = false;
    vc_assert(c == 'X' || c == 'Y' || c == 'M' || dim_of(c) > 0, "unknown dimension refused");
    if (last)
    {
        i32 st = rd32(s.file, e + 4), sz = rd32(s.file, e + 8), ss = rd32(s.file, e + 16); int v = 0;
        if (which == 0 && c == 'X') { vc_cover("x"); vc_assert(d.logicalRect.x == st && d.logicalRect.w == sz && d.physicalSize.w == (uint32_t)ss, "x, width, stored width"); }
        else if (which == 0 && c == 'Y') { vc_cover("y"); vc_assert(d.logicalRect.y == st && d.logicalRect.h == sz && d.physicalSize.h == (uint32_t)ss, "y, height, stored height"); }
        else if (which == 1 && c == 'M') { vc_cover("m"); vc_assert(d.mIndex == st, "mosaic index"); }
        else for (int q = 1; q <= 9; ++q) if (which == 2 + q / 4 && dim_of(c) == q) { vc_cover("other"); vc_assert(d.coordinate.TryGetPosition((DimensionIndex)q, &v) && v == st, "coordinate"); }
    }
    if (!vc_is_proof()) { free(d.ptrData); free(d.ptrMetadata); free(d.ptrAttachment); }
}
extern "C" void H_subblock_xy() { subblock_dims(0); }
extern "C" void H_subblock_m() { subblock_dims(1); }
extern "C" void H_subblock_c1() { subblock_dims(2); }
extern "C" void H_subblock_c2() { subblock_dims(3); }
extern "C" void H_subblock_c3() { subblock_dims(4); }
// ---------------------------------------------------------------- directory entries -> subblock entries
struct Opts { bool xy, mone, monepyr, other, phys; };
static inline void addentry(int which)
{
    use_letter_contracts();
    SubBlockDirectoryEntryDV* dv = (SubBlockDirectoryEntryDV*)vc_buf(sizeof(SubBlockDirectoryEntryDV), "dv"); u8* p = (u8*)dv;
    if (!vc_is_proof()) { VStream t; t.file = p; t.fsize = sizeof *dv; if (plausible()) overlay_dv(t, 0); }
    vc_assume(dv->DimensionCount >= 0 && dv->DimensionCount <= 40);     // precondition; established by ParseThroughDirectoryEntries
    CCZIParse::SubblockDirectoryParseOptions o; Opts q;
    q.xy = vc_bool("xy"); q.mone = vc_bool("mone"); q.monepyr = vc_bool("monepyr"); q.other = vc_bool("other"); q.phys = vc_bool("phys");
    o.SetDimensionXyMustBePresent(q.xy); o.SetDimensionMMustHaveSizeOne(q.mone); o.SetDimensionMMustHaveSizeOneExceptForPyramidSubblocks(q.monepyr); o.SetDimensionOtherThanMMustHaveSizeOne(q.other); o.SetPhysicalDimensionOtherThanMMustHaveSizeOne(q.phys);
    int n = 0; CCziSubBlockDirectoryBase::SubBlkEntry g; bool threw = false;
    try { CCZIParse::AddEntryToSubBlockDirectory(dv, [&](const CCziSubBlockDirectoryBase::SubBlkEntry& e)->void { ++n; g = e; }, o); } catch (std::exception&) { threw = true; }
    i32 dims = rd32(p, 28), j = VC_I32("j", 0, 12);
    if (threw) { vc_cover("threw"); vc_assert(n == 0, "nothing is added when the entry is refused"); return; }
    vc_assert(n == 1, "exactly one entry is added");
    vc_assert(g.FilePosition == (u64)rd64(p, 6) && g.PixelType == rd32(p, 2) && g.Compression == rd32(p, 18) && g.pyramid_type_from_spare == p[22], "fixed fields");
    vc_assume(j >= 0 && j < dims);
    u64 e = 32 + (u64)j * 20; char c = up(p[e]);
    bool last = true; for (int i = 0; i < 40; ++i) if (i > j && i < dims && up(p[32 + i * 20]) == c) last = false;
    vc_assert(c == 'X' || c == 'Y' || c == 'M' || dim_of(c) > 0, "unknown dimension refused");
    i32 st = rd32(p, e + 4), sz = rd32(p, e + 8), ss = rd32(p, e + 16); int v = 0;
    if (which == 1 && c == 'M' && q.mone) vc_assert(sz == 1, "size of M is one when required");
    if (which == 1 && dim_of(c) > 0 && q.other) vc_assert(sz == 1, "size of other dimensions is one when required");
    if (which == 1 && dim_of(c) > 0 && q.phys) vc_assert(ss == 1, "physical size of other dimensions is one when required");
    if (last)
    {
        if (which == 0 && c == 'X') { vc_cover("x"); vc_assert(g.x == st && g.width == sz && g.storedWidth == ss, "x, width, stored width"); }
        else if (which == 0 && c == 'Y') { vc_cover("y"); vc_assert(g.y == st && g.height == sz && g.storedHeight == ss, "y, height, stored height"); }
        else if (which == 1 && c == 'M') { vc_cover("m"); vc_assert(g.mIndex == st, "mosaic index"); if (q.monepyr && sz != 1) vc_assert(!g.IsStoredSizeEqualLogicalSize(), "size of M is one except for pyramid subblocks when required"); }
        else for (int d = 1; d <= 9; ++d) if (which == 2 + d / 4 && dim_of(c) == d) { vc_cover("other"); vc_assert(g.coordinate.TryGetPosition((DimensionIndex)d, &v) && v == st, "coordinate"); }
    }
}
extern "C" void H_addentry_xy() { addentry(0); }
extern "C" void H_addentry_m() { addentry(1); }
extern "C" void H_addentry_c1() { addentry(2); }
extern "C" void H_addentry_c2() { addentry(3); }
extern "C" void H_addentry_c3() { addentry(4); }
// the walk over the directory: entry after entry, in order, each handed over exactly as stored
struct Walk { const u8* p; u64 size, pos, start, n; bool fail; i32 count; };
extern "C" void H_walk()
{
    Walk w; w.size = VC_U64("size", 0, 3000); vc_assume(w.size < (1ull << 60)); w.p = (u8*)vc_buf(w.size, "dir"); w.pos = 0; w.n = 0; w.start = 0; w.fail = false;
    i32 count = VC_I32("count", -2, 6); w.count = count;
    if (!vc_is_proof()) { VStream t; t.file = (u8*)w.p; t.fsize = w.size; u64 o = 0; for (int i = 0; i < 4 && plausible(); ++i) { overlay_dv(t, o); if (o + 32 < w.size) o += 32 + 20 * (u64)w.p[o + 28]; if (o > w.size) break; } }
    struct I { static bool inv(void* c, u64 k, u64) { Walk* w = (Walk*)c; return w->pos <= w->size && w->start == w->pos && w->n <= k && k <= (u64)(w->count < 0 ? 0 : w->count) && !w->fail; } };
    vc_loop_inv(0, I::inv, &w, "directory entries");
    bool threw = false;
    try
    {
        CCZIParse::ParseThroughDirectoryEntries(count, [&](int nb, void* q)->void
            {
                vc_assert(nb >= 0, "non-negative amount requested");
                vc_writable(q, (u64)(int64_t)nb, "the walker hands out a buffer of at least the requested size");
                if (w.size - w.pos < (u64)nb) throw LibCZICZIParseException("short", LibCZICZIParseException::ErrorCode::NotEnoughData);
                memcpy(q, w.p + w.pos, nb); w.pos += nb;
                if (w.pos - w.start == 2 && !(w.p[w.start] == 'D' && (w.p[w.start + 1] == 'V' || w.p[w.start + 1] == 'E'))) w.start = w.pos;   // unknown schema: not an entry
            },
            [&](const SubBlockDirectoryEntryDE* de, const SubBlockDirectoryEntryDV* dv)->void
            {
                vc_assert((de != nullptr) != (dv != nullptr), "one kind of entry");
                if (dv)
                {
                    i32 d = rd32(w.p, w.start + 28);
                    vc_assert(d >= 0 && d <= 40, "dimension count in range");
                    vc_assert(w.pos == w.start + 32 + 20 * (u64)d, "exactly the bytes of this entry were consumed");
                    u64 b = VC_U64("b", 0, 100);
                    if (b < 32 + 20 * (u64)d) { vc_cover("entry"); vc_assert(((const u8*)dv)[b] == w.p[w.start + b], "entry byte"); }
                }
                w.n++; w.start = w.pos;
            });
    }
    catch (std::exception&) { threw = true; }
    if (!threw) { vc_cover("done"); vc_assert(count < 0 || w.n <= (u64)count, "no entry invented"); }
}

// the directory reader feeds the walk with exactly the bytes behind the header, in order, and nothing beyond the used size
static const u8* g_file; static u64 g_fsize, g_off, g_pos, g_dirsize; static bool g_bad;
static void c_walk(int count, const std::function<void(int, void*)>& funcRead, const std::function<void(const SubBlockDirectoryEntryDE*, const SubBlockDirectoryEntryDV*)>& funcAdd)
{
    u64 pos = 0;
    vc_assert(count == rd32(g_file, g_off + 32), "entry count is the one of the file");
    while (vc_bool("more"))
    {
        u8 b[800]; i32 n = VC_I32("n", 0, 60); vc_assume(n >= 0 && n <= 800);
        funcRead(n, b);
        vc_assert(pos + n <= g_dirsize, "never beyond the directory segment");
        i32 w = VC_I32("w", 0, 60);
        if (w >= 0 && w < n) { vc_cover("byte"); vc_assert(b[w] == g_file[g_off + 160 + pos + w], "directory byte"); }
        pos += n;
    }
}
extern "C" void H_subblkdir()
{
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60);
    if (plausible()) { wrs(s, off, "ZISRAWDIRECTORY", 16); wr(s, off + 24, VC_U32("ov_used", 0, 900), 8); wr(s, off + 32, VC_U32("ov_count", 0, 6), 4); u64 o = off + 160; for (int i = 0; i < 6; ++i) { overlay_dv(s, o); if (o + 32 < s.fsize) o += 32 + 20 * (u64)s.file[o + 28]; } }
    g_file = s.file; g_fsize = s.fsize; g_off = off; g_dirsize = 0;
    if (off < s.fsize && s.fsize - off >= 160) { i64 u = rd64(s.file, off + 24); if (u == 0) u = rd64(s.file, off + 16); g_dirsize = (u64)u - 128; }
    bool threw = false; CCZIParse::SubblockDirectoryParseOptions o; int n = 0; CCZIParse::SegmentSizes z{ -5, -5 };
    if (vc_is_proof()) vc_replace((void*)&CCZIParse::ParseThroughDirectoryEntries, (void*)&c_walk);
    vc_opt("unroll", 3);
    try { CCZIParse::ReadSubBlockDirectory(&s, off, [&](const CCziSubBlockDirectoryBase::SubBlkEntry& e)->void { ++n; }, o, &z); } catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_cover("ok");
        vc_assert(magic_ok(s.file, off, "ZISRAWDIRECTORY"), "magic");
        vc_assert(z.AllocatedSize == rd64(s.file, off + 16) && z.UsedSize == rd64(s.file, off + 24), "segment sizes");
    } else vc_cover("threw");
}
// logging goes to a site object that is not part of the contract
struct NoSite final : public libCZI::ISite
{
    bool IsEnabled(int) override { return vc_bool("log"); }
    void Log(int, const char*) override {}
    void TerminateProgram(TerminationReason, const char*) override { vc_assert(false, "program terminated"); }
    std::shared_ptr<IDecoder> GetDecoder(ImageDecoderType, const char*) override { return std::shared_ptr<IDecoder>(); }
    std::shared_ptr<libCZI::IBitmapData> CreateBitmap(libCZI::PixelType, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t) override { return std::shared_ptr<libCZI::IBitmapData>(); }
};
static NoSite* g_site;
static libCZI::ISite* c_site() { return g_site; }
// attachment directory
struct AD { VStream* s; u64 off, n; bool only; u64 last; };
extern "C" void H_attdir()
{
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60);
    if (plausible()) { wrs(s, off, "ZISRAWATTDIR", 16); wr(s, off + 32, VC_U32("ov_count", 0, 10), 4); for (int i = 0; i < 10; ++i) if (VC_U8("ov_a1", 0, 9)) wrs(s, off + 288 + 128 * i, "A1", 2); }
    NoSite ns; g_site = &ns; if (vc_is_proof()) vc_replace((void*)&GetSite, (void*)&c_site);
    AD c; c.s = &s; c.off = off; c.n = 0; CCZIParse::SegmentSizes z{ -5, -5 };
    struct L {
        static bool valid(const u8* f, u64 o) { return f[o] == 'A' && f[o + 1] == '1'; }
        // precondition of the fidelity part: every entry carries the schema A1 (others are skipped)
        static bool pre(void* p, u64 k, u64) { AD* c = (AD*)p; u64 o = c->off + 288 + 128 * k; return !(o < c->s->fsize && c->s->fsize - o >= 128) || valid(c->s->file, o); }
        static bool inv(void* p, u64 k, u64) { AD* c = (AD*)p; return c->n == k && k <= 0x7fffffff; }
    };
    if (vc_is_proof()) vc_assume_forall(0, L::pre, &c);
    else for (u64 k = 0; k < 40; ++k) vc_assume(L::pre(&c, k, 0));
    vc_loop_inv(0, L::inv, &c, "entries so far");
    bool threw = false;
    try
    {
        CCZIParse::ReadAttachmentsDirectory(&s, off, [&](const CCziAttachmentsDirectoryBase::AttachmentEntry& e)->void
            {
                u64 o = c.off + 288 + 128 * c.n; u8 w = VC_U8("w", 0, 78);
                vc_assert(o < s.fsize && s.fsize - o >= 128, "entry inside the file");
                vc_cover("entry");
                vc_assert(e.FilePosition == rd64(s.file, o + 12), "file position");
                vc_assert(e.ContentGuid.Data1 == (uint32_t)rd32(s.file, o + 24) && e.ContentGuid.Data4[7] == s.file[o + 39], "guid");
                if (w < 8) vc_assert((u8)e.ContentFileType[w] == s.file[o + 40 + w], "content file type");
                if (w < 79) vc_assert((u8)e.Name[w] == s.file[o + 48 + w], "name");
                vc_assert(e.Name[79] == 0, "name is terminated");
                c.n++;
            }, &z);
    }
    catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_cover("ok");
        vc_assert(magic_ok(s.file, off, "ZISRAWATTDIR"), "magic");
        vc_assert(z.AllocatedSize == rd64(s.file, off + 16) && z.UsedSize == rd64(s.file, off + 24), "segment sizes");
        i32 n = rd32(s.file, off + 32);
        vc_assert(c.n == (u64)(n < 0 ? 0 : n), "every entry reported once");
    } else vc_cover("threw");
}
// entries with another schema are skipped, and nothing but those: any entry with the schema A1 and a position of its own is reported exactly once
struct AW { VStream* s; u64 off; u64 kw; i64 pw; bool okw; u64 seen; };
extern "C" void H_attdir_skip()
{
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60);
    if (plausible()) { wrs(s, off, "ZISRAWATTDIR", 16); wr(s, off + 32, VC_U32("ov_count", 0, 10), 4); for (int i = 0; i < 10; ++i) { if (VC_U8("ov_a1", 0, 2)) wrs(s, off + 288 + 128 * i, "A1", 2); wr(s, off + 288 + 128 * i + 12, 1000 + 64 * i, 8); } }
    NoSite ns; g_site = &ns; if (vc_is_proof()) vc_replace((void*)&GetSite, (void*)&c_site);
    AW c; c.s = &s; c.off = off; c.seen = 0; c.kw = VC_U32("kw", 0, 9); vc_assume(c.kw <= 0x7fffffff);
    struct L {
        static bool in(AW* c, u64 k) { u64 o = c->off + 288 + 128 * k; return o < c->s->fsize && c->s->fsize - o >= 128; }
        static bool valid(AW* c, u64 k) { u64 o = c->off + 288 + 128 * k; return c->s->file[o] == 'A' && c->s->file[o + 1] == '1'; }
        static i64 pos(AW* c, u64 k) { return rd64(c->s->file, c->off + 288 + 128 * k + 12); }
        static bool pre(void* p, u64 k, u64) { AW* c = (AW*)p; return k == c->kw || k > 0x7fffffff || !in(c, k) || pos(c, k) != c->pw; }
        static bool inv(void* p, u64 k, u64) { AW* c = (AW*)p; return k <= 0x7fffffff && c->seen == (c->okw && k > c->kw ? 1u : 0u); }
    };
    vc_assume(off <= 0x7fffffffffffll && L::in(&c, c.kw)); c.pw = L::pos(&c, c.kw); c.okw = L::valid(&c, c.kw);
    if (vc_is_proof()) vc_assume_forall(0, L::pre, &c);
    else for (u64 k = 0; k < 40; ++k) vc_assume(L::pre(&c, k, 0));
    vc_loop_inv(0, L::inv, &c, "entries so far");
    bool threw = false;
    try { CCZIParse::ReadAttachmentsDirectory(&s, off, [&](const CCziAttachmentsDirectoryBase::AttachmentEntry& e)->void { if (e.FilePosition == c.pw) c.seen++; vc_cover("entry"); }, nullptr); }
    catch (std::exception&) { threw = true; }
    if (!threw)
    {
        vc_cover("ok");
        i32 n = rd32(s.file, off + 32); bool w = c.okw && n > 0 && c.kw < (u64)n;
        if (w) vc_cover("reported"); if (!c.okw) vc_cover("skipped");
        vc_assert(c.seen == (w ? 1u : 0u), "an entry is reported exactly once if its schema is A1, and skipped otherwise");
    } else vc_cover("threw");
}
// memory safety for arbitrary entries (unknown schema included)
extern "C" void H_attdir_any()
{
    VStream s; mk(s); u64 off = VC_U64("off", 0, 60);
    if (plausible()) { wrs(s, off, "ZISRAWATTDIR", 16); wr(s, off + 32, VC_U32("ov_count", 0, 10), 4); for (int i = 0; i < 10; ++i) if (VC_U8("ov_a1", 0, 1)) wrs(s, off + 288 + 128 * i, "A1", 2); }
    NoSite ns; g_site = &ns; if (vc_is_proof()) vc_replace((void*)&GetSite, (void*)&c_site);
    bool threw = false; vc_opt("unroll", 3);
    try { CCZIParse::ReadAttachmentsDirectory(&s, off, [&](const CCziAttachmentsDirectoryBase::AttachmentEntry& e)->void { vc_assert(e.Name[79] == 0, "name is terminated"); vc_cover("entry"); }, nullptr); }
    catch (std::exception&) { threw = true; }
    if (!threw) vc_cover("ok");
}
