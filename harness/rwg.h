// ghost state and contracts of the segment writers for the document operations (rw.cpp, wrt.cpp)
typedef uint64_t u64; typedef uint8_t u8; typedef int32_t i32; typedef int64_t i64; typedef uint32_t u32;
typedef CCziSubBlockDirectoryBase::SubBlkEntry SE; typedef CCziAttachmentsDirectoryBase::AttachmentEntry AE; 
static u64 rd(const u8* p, u64 o, int n) { u64 v = 0; for (int i = n - 1; i >= 0; --i) v = (v << 8) | p[o + i]; return v; }

// ---------------------------------------------------------------- ghost state
enum { NONE, SB, ATT, META, SBDIR, ATTDIR };
struct Op { int kind; u64 pos, alloc; bool inplace; };
struct Gh
{
    Op op[3]; int nop; int ndel; u64 del; bool hdr; u8 hdrb[544];      // what was written
    u64 wn, woff, wsize; const void* wp;                                // what arrived at the stream
    u64 used;                                                           // size the new segment needs
    bool exists; u64 pe; i64 ae; bool hthrow;                           // existing segment
    bool modified, added, removed, refuse; int key; SE se; AE at; u64 lastpos; i64 lastalloc; bool order;
};
static Gh g;
struct St : IInputOutputStream
{
    void Read(u64, void*, u64, u64*) override { vc_assert(false, "nothing is read directly"); }
    void Write(u64 off, const void* pv, u64 size, u64* n) override
    {
        g.wn++; g.woff = off; g.wsize = size; g.wp = pv; if (n) *n = size;
        if (off == 0) { vc_assert(size == 544, "only the file header is written at the start of the file"); if (size == 544) { memcpy(g.hdrb, pv, 544); g.hdr = true; } }
    }
};
// whatever a segment writer writes goes through to the stream
template <class I> static inline void through(const I& i, u64 pos)
{
    u8 b[4]; u64 w = 0, n = g.wn; i.writeFunc(pos, b, 4, &w, "x"); vc_assert(g.wn == n + 1 && g.woff == pos && g.wsize == 4 && g.wp == (const void*)b && w == 4, "the segment is written to the stream of the document");
}
static u64 al(u64 u) { u64 a = vc_u64("aligned"); vc_assume(a >= u && a - u < 32 && (a & 31) == 0); return a; }
static void rec(int kind, u64 pos, u64 alloc, bool in) { vc_assert(g.nop < 3, "not more is written than needed"); g.op[g.nop].kind = kind; g.op[g.nop].pos = pos; g.op[g.nop].alloc = alloc; g.op[g.nop].inplace = in; g.nop++; }
// ---------------------------------------------------------------- contracts (wr.cpp: H_wsb*, H_watt*, H_wmeta, H_wsbdir, H_wattdir)
static u64 c_wsb(const CWriterUtils::WriteInfo& i, const AddSubBlockInfo&)
{
    if (i.useSpecifiedAllocatedSize && g.used > i.specifiedAllocatedSize) throw std::logic_error("x");
    through(i, i.segmentPos); u64 a = i.useSpecifiedAllocatedSize ? i.specifiedAllocatedSize : al(g.used); rec(SB, i.segmentPos, a, i.useSpecifiedAllocatedSize); return a + 32;
}
static u64 c_watt(const CWriterUtils::WriteInfo& i, const AddAttachmentInfo&)
{
    vc_assert(!i.useSpecifiedAllocatedSize || i.specifiedAllocatedSize >= g.used, "a segment is written in place only if it fits");
    through(i, i.segmentPos); u64 a = i.useSpecifiedAllocatedSize ? i.specifiedAllocatedSize : al(g.used); rec(ATT, i.segmentPos, a, i.useSpecifiedAllocatedSize); return a + 32;
}
typedef std::tuple<u64, u64> T2;
template <class I> static inline T2 two(int kind, const I& i)
{
    vc_assert(i.sizeExistingSegmentPos == 0 || i.existingSegmentPos + i.sizeExistingSegmentPos + 32 <= i.segmentPosForNewSegment, "a new segment lies behind the existing one");
    bool re = i.sizeExistingSegmentPos > 0 && i.sizeExistingSegmentPos >= g.used; u64 pos = re ? i.existingSegmentPos : i.segmentPosForNewSegment, a = re ? i.sizeExistingSegmentPos : al(g.used);
    through(i, pos); rec(kind, pos, a, re); if (!re && i.sizeExistingSegmentPos > 0 && i.markAsDeletedIfExistingSegmentIsNotUsed) { g.ndel++; g.del = i.existingSegmentPos; } return T2(pos, a);
}
static T2 c_wmeta(const CWriterUtils::MetadataWriteInfo& i, const WriteMetadataInfo&) { return two(META, i); }
static T2 c_wsbdir(const CWriterUtils::SubBlkDirWriteInfo& i) { return two(SBDIR, i); }
static T2 c_wattdir(const CWriterUtils::AttachmentDirWriteInfo& i) { return two(ATTDIR, i); }
static void c_del(const CWriterUtils::MarkDeletedInfo& i) { through(i, i.segmentPos); g.ndel++; g.del = i.segmentPos; g.order = g.nop > 0; }
static bool c_calcsb(const AddSubBlockInfo&, u64* pa, u64* pu) { if (pa) *pa = al(g.used); if (pu) *pu = g.used + 32; return true; }
static void use_writers()
{
    g.nop = 0; g.ndel = 0; g.wn = 0; g.hdr = false; g.modified = g.added = g.removed = false; g.order = false;
    vc_replace((void*)&CWriterUtils::WriteSubBlock, (void*)&c_wsb); vc_replace((void*)&CWriterUtils::WriteAttachment, (void*)&c_watt); vc_replace((void*)&CWriterUtils::WriteMetadata, (void*)&c_wmeta);
    vc_replace((void*)&CWriterUtils::WriteSubBlkDirectory, (void*)&c_wsbdir); vc_replace((void*)&CWriterUtils::WriteAttachmentDirectory, (void*)&c_wattdir); vc_replace((void*)&CWriterUtils::WriteDeletedSegment, (void*)&c_del);
    vc_replace((void*)(bool(*)(const AddSubBlockInfo&, u64*, u64*))&CWriterUtils::CalculateSegmentDataSize, (void*)&c_calcsb);
}
// the file header as it arrived at the stream
static void chkhdr(u64 ds, u64 da, u64 dm, u32 g0, u8 g15)
{
    vc_assert(rd(g.hdrb, 0, 8) == rd((const u8*)"ZISRAWFI", 0, 8) && rd(g.hdrb, 8, 8) == rd((const u8*)"LE\0\0\0\0\0\0", 0, 8), "header: magic"); vc_assert(rd(g.hdrb, 16, 8) == 512 && rd(g.hdrb, 24, 8) == 512, "header: sizes"); vc_assert(rd(g.hdrb, 32, 4) == 1 && rd(g.hdrb, 36, 4) == 0, "header: version");
    vc_assert(rd(g.hdrb, 84, 8) == ds, "header: subblock directory"); vc_assert(rd(g.hdrb, 104, 8) == da, "header: attachment directory"); vc_assert(rd(g.hdrb, 92, 8) == dm, "header: metadata"); vc_assert(rd(g.hdrb, 80, 4) == 0 && rd(g.hdrb, 100, 4) == 0, "header: file part, no update pending");
    vc_assert(rd(g.hdrb, 48, 4) == g0 && g.hdrb[63] == g15 && rd(g.hdrb, 64, 4) == g0 && g.hdrb[79] == g15, "header: identifier of the document");
}
static void mkinfo(AddSubBlockInfo& a)
{
    a.Clear(); u8 d1 = vc_u8("d1"), d2 = vc_u8("d2"); vc_assume(d1 >= 1 && d1 <= 9 && d2 >= 1 && d2 <= 9); a.coordinate.Set((DimensionIndex)d1, vc_i32("v1")); a.coordinate.Set((DimensionIndex)d2, vc_i32("v2"));
    a.mIndexValid = vc_bool("mv"); a.mIndex = vc_i32("m"); a.x = vc_i32("x"); a.y = vc_i32("y"); a.logicalWidth = vc_i32("w"); a.logicalHeight = vc_i32("h"); a.physicalWidth = vc_i32("pw"); a.physicalHeight = vc_i32("ph");
    u8 pt = vc_u8("pt"); vc_assume(pt <= 4 || pt == 9); a.PixelType = (PixelType)pt; a.compressionModeRaw = vc_i32("comp"); u8 py = vc_u8("py"); vc_assume(py <= 2); a.pyramid_type = (SubBlockPyramidType)py;
    a.sizeData = a.sizeMetadata = a.sizeAttachment = 0;
}
static void chkentry(const SE& e, const AddSubBlockInfo& a)
{
    vc_assert(e.mIndex == (a.mIndexValid ? a.mIndex : INT32_MIN), "entry: mosaic index"); vc_assert(e.x == a.x && e.y == a.y && e.width == a.logicalWidth && e.height == a.logicalHeight && e.storedWidth == a.physicalWidth && e.storedHeight == a.physicalHeight, "entry: position and size");
    vc_assert(e.PixelType == (i32)a.PixelType, "entry: pixel type"); vc_assert(e.Compression == a.compressionModeRaw, "entry: compression"); vc_assert(e.pyramid_type_from_spare == (u8)a.pyramid_type, "entry: pyramid type");
    u8 q = vc_u8("q"); vc_assume(q >= 1 && q <= 9); i32 v1 = 0, v2 = 0; bool b1 = e.coordinate.TryGetPosition((DimensionIndex)q, &v1), b2 = a.coordinate.TryGetPosition((DimensionIndex)q, &v2); vc_assert(b1 == b2 && (!b1 || v1 == v2), "entry: coordinate");
}
static bool badargs(const AddSubBlockInfo& a) { return a.logicalWidth < 0 || a.logicalHeight < 0 || a.physicalWidth < 0 || a.physicalHeight < 0 || a.compressionModeRaw == INT32_MIN; }
static void mkatt(AddAttachmentInfo& a, u8* data)
{
    a.contentGuid.Data1 = vc_u32("g1"); a.contentGuid.Data2 = vc_u16("g2"); a.contentGuid.Data3 = vc_u16("g3"); for (int i = 0; i < 8; ++i) a.contentGuid.Data4[i] = vc_u8("g4"); for (int i = 0; i < 8; ++i) a.contentFileType[i] = vc_u8("type");
    u8* nm = (u8*)vc_buf(80, "name"); memcpy(a.name, nm, 80); a.dataSize = vc_u32("n"); a.ptrData = vc_bool("p") ? data : nullptr; vc_assume(g.used == 256 + (u64)a.dataSize);
}
static void chkatt(const AE& e, const AddAttachmentInfo& a)
{
    vc_assert(e.ContentGuid.Data1 == a.contentGuid.Data1 && e.ContentGuid.Data2 == a.contentGuid.Data2 && e.ContentGuid.Data3 == a.contentGuid.Data3, "entry: identifier"); u8 i = vc_u8("i"); vc_assume(i < 8); vc_assert(e.ContentGuid.Data4[i] == a.contentGuid.Data4[i], "entry: identifier");
    vc_assert(e.ContentFileType[i] == (char)a.contentFileType[i], "entry: content type"); u8 j = vc_u8("j"); vc_assume(j < 80); vc_assert(e.Name[j] == (char)a.name[j], "entry: name");
}
