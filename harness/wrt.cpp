// contracts of the document operations of CCziWriter, and of the adaptors which turn bitmaps into payloads of subblocks
// TUS: CziSubBlockDirectory.cpp CziAttachmentsDirectory.cpp CziParse.cpp CziStructs.cpp CziUtils.cpp libCZI_Utilities.cpp DimCoordinate.cpp utilities.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "CziWriter.cpp"
#undef private
#undef protected
#include "rwg.h"
typedef CCziWriter W;
static bool c_addsb(void*, const SE& e) { if (g.refuse) return false; g.se = e; g.added = true; return true; }
static bool c_addat(void*, const AE& e) { if (g.refuse) return false; g.at = e; g.added = true; return true; }
static int g_natt;
static int c_natt(const void*) { return g_natt; }
struct Inf : ICziWriterInfo
{
    GUID gd; bool hb, hm; int mmin, mmax; const IDimBounds* b; size_t rs[3]; bool r[3];
    const IDimBounds* GetDimBounds() const override { return hb ? b : nullptr; }
    const GUID& GetFileGuid() const override { return gd; }
    bool TryGetMIndexMinMax(int* mi, int* ma) const override { if (!hm) return false; if (mi) *mi = mmin; if (ma) *ma = mmax; return true; }
    bool TryGetReservedSizeForAttachmentDirectory(size_t* s) const override { if (r[2] && s) *s = rs[2]; return r[2]; }
    bool TryGetReservedSizeForSubBlockDirectory(size_t* s) const override { if (r[1] && s) *s = rs[1]; return r[1]; }
    bool TryGetReservedSizeForMetadataSegment(size_t* s) const override { if (r[0] && s) *s = rs[0]; return r[0]; }
};
struct Doc { W* w; u64 N; Inf* i; };
static void mkdoc(Doc& d, W* w, St* st)
{
    use_writers(); vc_replace_name("^_ZN6libCZI6detail27CWriterCziSubBlockDirectory14TryAddSubBlock", (void*)&c_addsb); vc_replace_name("^_ZN6libCZI6detail30CWriterCziAttachmentsDirectory16TryAddAttachment", (void*)&c_addat); vc_replace_name("^_ZNK6libCZI6detail30CWriterCziAttachmentsDirectory18GetAttachmentCount", (void*)&c_natt);
    d.w = w; w->stream = std::shared_ptr<IOutputStream>(std::shared_ptr<IOutputStream>(), (IOutputStream*)st); d.i = new Inf(); d.i->hb = d.i->hm = d.i->r[0] = d.i->r[1] = d.i->r[2] = false; d.i->b = nullptr; d.i->gd.Data1 = vc_u32("gd"); d.i->gd.Data4[7] = vc_u8("ge"); vc_assume(d.i->gd.Data1 != 0);
    w->info = std::shared_ptr<ICziWriterInfo>(std::shared_ptr<ICziWriterInfo>(), d.i);
    g.used = vc_u64("used"); g.refuse = vc_bool("refuse"); const u64 L = 1ull << 60; vc_assume(g.used <= L); d.N = vc_u64("N"); vc_assume(d.N >= 544 && d.N <= (1ull << 62)); w->nextSegmentPos = d.N;
}
static void nothing(Doc& d) { vc_assert(g.nop == 0 && g.ndel == 0 && g.wn == 0, "nothing is written"); vc_assert(!g.added, "the directory is as before"); vc_assert(d.w->nextSegmentPos == d.N, "the next free position is as before"); }
#define DOC if (!vc_is_proof()) return; void* mem = operator new(sizeof(W)); CZIWriterOptions wo; wo.allow_duplicate_subblocks = vc_bool("dup"); W* w = new (mem) W(wo); St* st = new St(); Doc d; mkdoc(d, w, st);
extern "C" void H_w_add()
{
    DOC AddSubBlockInfo a; mkinfo(a); bool t = false; try { w->SyncAddSubBlock(a); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(g.refuse || badargs(a), "only an existing coordinate or invalid arguments are refused"); return; }
    vc_cover("added"); vc_assert(!g.refuse, "an existing coordinate is refused"); vc_assert(g.nop == 1 && g.op[0].kind == SB && !g.op[0].inplace && g.ndel == 0, "one segment is written, nothing else");
    vc_assert(g.op[0].pos == d.N, "at the next free position"); vc_assert(w->nextSegmentPos == d.N + 32 + g.op[0].alloc, "the next free position is behind it"); vc_assert(g.added && g.se.FilePosition == d.N, "the directory has the new entry, with the position of the segment"); chkentry(g.se, a);
}
extern "C" void H_w_addatt()
{
    DOC AddAttachmentInfo a; u8 data[4]; mkatt(a, data); bool bad = a.dataSize > 0 && !a.ptrData; bool t = false; try { w->SyncAddAttachment(a); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(g.refuse || bad, "only an existing attachment or invalid arguments are refused"); return; }
    vc_cover("added"); vc_assert(!g.refuse && !bad, "an existing attachment is refused"); vc_assert(g.nop == 1 && g.op[0].kind == ATT && !g.op[0].inplace && g.ndel == 0, "one segment is written, nothing else");
    vc_assert(g.op[0].pos == d.N, "at the next free position"); vc_assert(w->nextSegmentPos == d.N + 32 + g.op[0].alloc, "the next free position is behind it"); vc_assert(g.added && (u64)g.at.FilePosition == d.N, "the directory has the new entry, with the position of the segment"); chkatt(g.at, a);
}
struct Seg { bool x, del; u64 p, a; };
static void mkseg(Seg& s, Doc& d, W::WrittenSegmentInfo& i, bool x, const char* np, const char* na, const char* nd)
{
    s.x = x; s.p = vc_u64(np); s.a = vc_u64(na); s.del = vc_bool(nd); const u64 L = 1ull << 60; vc_assume(s.p >= 544 && s.p <= L && s.a > 0 && s.a <= L && s.p + s.a + 32 <= d.N); if (x) i.SetPositionAndAllocatedSize(s.p, s.a, s.del);
}
extern "C" void H_w_meta()
{
    DOC Seg m; mkseg(m, d, w->metadataSegment, vc_bool("x"), "pm", "am", "dm"); WriteMetadataInfo mi; mi.Clear(); w->SyncWriteMetadata(mi); vc_cover("written");
    vc_assert(g.nop == 1 && g.op[0].kind == META, "one segment is written"); vc_assert(w->metadataSegment.IsValid() && w->metadataSegment.GetFilePos() == g.op[0].pos && w->metadataSegment.GetAllocatedSize() == g.op[0].alloc && !w->metadataSegment.GetIsMarkedAsDeleted(), "the document knows where its metadata is");
    if (g.op[0].inplace) { vc_cover("inplace"); vc_assert(m.x && g.op[0].pos == m.p && g.ndel == 0 && w->nextSegmentPos == d.N, "in place: nothing else changes"); }
    else { vc_assert(g.op[0].pos == d.N && w->nextSegmentPos == d.N + 32 + g.op[0].alloc, "new: at the next free position, which moves behind it"); vc_assert(g.ndel == (m.x && !m.del ? 1 : 0) && (g.ndel == 0 || g.del == m.p), "new: the old segment is marked as deleted"); }
}
static inline void close_(bool xs, bool xa, bool na)
{
    DOC Seg s, a, m; mkseg(s, d, w->subBlockDirectorySegment, xs, "ps", "as", "ds"); mkseg(a, d, w->attachmentDirectorySegment, xa, "pa", "aa", "da"); mkseg(m, d, w->metadataSegment, vc_bool("xm"), "pm", "am", "dm"); vc_assume(s.del && a.del);   // reserved, not yet used
    vc_assume(s.p != a.p && s.p != m.p && a.p != m.p); g_natt = vc_i32("natt"); vc_assume(na ? g_natt > 0 : g_natt == 0); Inf* inf = d.i;
    w->Finish(); vc_cover("closed"); u64 n = d.N; int k = 0; u64 ds, da = 0;
    vc_assert(g.nop > k && g.op[k].kind == SBDIR, "the subblock directory is written"); ds = g.op[k].pos; if (g.op[k].inplace) vc_assert(s.x && ds == s.p, "in place"); else { vc_assert(ds == n, "at the next free position"); n += 32 + g.op[k].alloc; } ++k;
    if (na) { vc_assert(g.nop > k && g.op[k].kind == ATTDIR, "the attachment directory is written"); da = g.op[k].pos; if (g.op[k].inplace) vc_assert(a.x && da == a.p, "in place"); else { vc_assert(da == n, "at the next free position, behind the subblock directory"); n += 32 + g.op[k].alloc; } ++k; }
    vc_assert(g.nop == k, "nothing else is written"); vc_assert(g.ndel == 0, "what was only reserved needs no mark"); vc_assert(g.hdr, "the file header is written"); chkhdr(ds, da, m.x && !m.del ? m.p : 0, inf->gd.Data1, inf->gd.Data4[7]);
}
extern "C" void H_w_close_000() { close_(false, false, false); }
extern "C" void H_w_close_001() { close_(false, false, true); }
extern "C" void H_w_close_010() { close_(false, true, false); }
extern "C" void H_w_close_011() { close_(false, true, true); }
extern "C" void H_w_close_100() { close_(true, false, false); }
extern "C" void H_w_close_101() { close_(true, false, true); }
extern "C" void H_w_close_110() { close_(true, true, false); }
extern "C" void H_w_close_111() { close_(true, true, true); }
// reservation: room for what is asked for (at least one byte), marked as deleted, behind everything, and remembered
static u8* g_rb;
struct St2 : St { u8 b[320]; void Write(u64 off, const void* pv, u64 size, u64* n) override { g.wn++; g.woff = off; g.wsize = size; if (size <= 320) memcpy(b, pv, size); if (n) *n = size; } };
static void chkres(const W::WrittenSegmentInfo& i, Doc& d, St2* st, u64 need)
{
    vc_cover("done"); vc_assert(g.wn == 1 && g.woff == d.N && g.wsize >= 32 && g.wsize <= 320, "the head of the segment is written, at the next free position"); u64 al = rd(st->b, 16, 8);
    vc_assert(rd(st->b, 0, 8) == rd((const u8*)"DELETED", 0, 8) && rd(st->b, 8, 8) == 0, "marked as deleted"); vc_assert(al >= need && (al & 31) == 0 && rd(st->b, 24, 8) <= al, "sizes"); vc_assert(g.wsize <= al + 32, "not beyond its end");
    vc_assert(i.IsValid() && i.GetFilePos() == d.N && i.GetAllocatedSize() == al && i.GetIsMarkedAsDeleted(), "remembered"); vc_assert(d.w->nextSegmentPos == d.N + 32 + al, "the next free position is behind it");
}
#define RES if (!vc_is_proof()) return; void* mem = operator new(sizeof(W)); W* w = new (mem) W(CZIWriterOptions()); St2* st = new St2(); Doc d; mkdoc(d, w, st); size_t s = vc_u64("s"); vc_assume(s <= 0x7fffffff);
extern "C" void H_res_meta() { RES w->ReserveMetadataSegment(s); chkres(w->metadataSegment, d, st, 256 + s); }
extern "C" void H_res_att() { RES w->ReserveAttachmentDirectory(s); chkres(w->attachmentDirectorySegment, d, st, 256 + s * 128); }
extern "C" void H_res_sb() { RES w->ReserveSubBlockDirectory(s); chkres(w->subBlockDirectorySegment, d, st, 128 + s * (32 + 20 * 12)); }
// the coordinate check against announced bounds
extern "C" void H_checkcoord()
{
    void* mem = operator new(sizeof(W)); W* w = new (mem) W(CZIWriterOptions()); Inf* i = new Inf(); w->info = std::shared_ptr<ICziWriterInfo>(std::shared_ptr<ICziWriterInfo>(), i); CDimBounds* b = new CDimBounds(); AddSubBlockInfo a; a.Clear();
    bool bad = false, miss = false, extra = false; i->hb = vc_bool("hb"); i->b = b; i->hm = vc_bool("hm"); i->mmin = VC_I32("mmin", 0, 5); i->mmax = VC_I32("mmax", 3, 9);
    static const int ds[3] = { (int)DimensionIndex::MinDim, 3, (int)DimensionIndex::MaxDim };
    for (int k = 0; k < 3; ++k)
    {
        DimensionIndex dm = (DimensionIndex)ds[k]; bool inb = vc_bool("inb"), inc = vc_bool("inc"); i32 s = VC_I32("s", -3, 5), n = VC_I32("n", 0, 8), v = VC_I32("v", -4, 12); vc_assume(n >= 0 && (i64)s + n <= INT32_MAX);
        if (inb) b->Set(dm, s, n); if (inc) a.coordinate.Set(dm, v);
        if (inb && inc && (v < s || (i64)v >= (i64)s + n)) bad = true; if (inb && !inc) miss = true; if (!inb && inc) extra = true;
    }
    a.mIndexValid = vc_bool("mv"); a.mIndex = VC_I32("m", -1, 10); bool mmiss = i->hm && !a.mIndexValid, mbad = i->hm && a.mIndexValid && (a.mIndex < i->mmin || a.mIndex > i->mmax);
    bool t = false; try { w->ThrowIfCoordinateIsOutOfBounds(a); } catch (LibCZIWriteException&) { t = true; }
    if (t) vc_cover("refused"); else vc_cover("ok"); vc_assert(t == (i->hb && (bad || miss || extra || mmiss || mbad)), "exactly what does not match the announced bounds is refused");
}
// ---------------------------------------------------------------- bitmaps as payloads
typedef std::function<bool(int, size_t, const void*&, size_t&)> GF;
struct Src { const u8* pm; const u8* pa; u64 nm, na; int kind; const u8* p; u64 n, line; u32 stride; i32 h; int called; const AddSubBlockInfoBase* a; };
static Src q;
static void chk(const AddSubBlockInfo& i)
{
    q.called++; vc_assert(i.mIndexValid == q.a->mIndexValid && i.mIndex == q.a->mIndex && i.x == q.a->x && i.y == q.a->y && i.logicalWidth == q.a->logicalWidth && i.logicalHeight == q.a->logicalHeight && i.physicalWidth == q.a->physicalWidth && i.physicalHeight == q.a->physicalHeight, "mosaic index, position and sizes are passed on");
    vc_assert(i.PixelType == q.a->PixelType && i.compressionModeRaw == q.a->compressionModeRaw && i.pyramid_type == q.a->pyramid_type, "pixel type, compression, pyramid type are passed on");
    u8 z = VC_U8("z", 1, 9); vc_assume(z >= 1 && z <= 9); i32 v1 = 0, v2 = 0; bool b1 = i.coordinate.TryGetPosition((DimensionIndex)z, &v1), b2 = q.a->coordinate.TryGetPosition((DimensionIndex)z, &v2); vc_assert(b1 == b2 && (!b1 || v1 == v2), "coordinate is passed on");
    vc_assert(i.sizeMetadata == q.nm && i.sizeAttachment == q.na, "sizes of metadata and attachment"); vc_assert(i.sizeData == (q.kind == 0 ? q.n : q.line * (u64)q.h), "size of the payload");
    int c = VC_I32("c", 0, 9); vc_assume(c >= 0); u64 off = vc_u64("off"); const void* p = nullptr; size_t n = 0;
    bool b = i.getMetaData(c, off, p, n); vc_assert(b == (c == 0) && (!b || (p == (const void*)q.pm && n == q.nm)), "metadata: at once");
    b = i.getAttachment(c, off, p, n); vc_assert(b == (c == 0) && (!b || (p == (const void*)q.pa && n == q.na)), "attachment: at once");
    b = i.getData(c, off, p, n);
    if (q.kind == 0) vc_assert(b == (c == 0) && (!b || (p == (const void*)q.p && n == q.n)), "payload: at once");
    else { vc_assert(b == (c < q.h), "payload: one piece per line"); if (b) { vc_cover("line"); vc_assert(n == q.line, "each line with the bytes of its pixels"); vc_assert(p == (const void*)(q.p + (q.kind == 1 ? (u64)c * q.stride : (u64)c)), "each line from its place"); } }
}
struct TW : CCziWriter { using ICziWriter::SyncAddSubBlock; void SyncAddSubBlock(const AddSubBlockInfo& i) override { chk(i); } };
template <class I> static inline void base(I& a)
{
    a.Clear(); u8 d1 = VC_U8("d1", 1, 9); vc_assume(d1 >= 1 && d1 <= 9); a.coordinate.Set((DimensionIndex)d1, vc_i32("v1")); a.mIndexValid = vc_bool("mv"); a.mIndex = vc_i32("m"); a.x = vc_i32("x"); a.y = vc_i32("y"); a.logicalWidth = vc_i32("w"); a.logicalHeight = vc_i32("h"); a.physicalWidth = VC_I32("pw", 0, 20); a.physicalHeight = VC_I32("ph", 0, 12); vc_assume(a.physicalWidth >= 0 && a.physicalHeight >= 0);
    u8 pt = VC_U8("pt", 0, 5); vc_assume(pt <= 4 || pt == 9); a.PixelType = (PixelType)pt; a.compressionModeRaw = vc_i32("comp"); u8 py = VC_U8("py", 0, 2); vc_assume(py <= 2); a.pyramid_type = (SubBlockPyramidType)py;
    static u8 m[4], t[4]; q.pm = m; q.pa = t; q.nm = vc_u32("nm"); q.na = vc_u32("na"); q.a = &a; q.called = 0; a.ptrSbBlkMetadata = m; a.sbBlkMetadataSize = (u32)q.nm; a.ptrSbBlkAttachment = t; a.sbBlkAttachmentSize = (u32)q.na;
    q.h = a.physicalHeight; q.line = (u64)a.physicalWidth * (pt == 0 ? 1 : pt == 1 ? 2 : pt == 2 ? 4 : pt == 3 ? 3 : pt == 4 ? 6 : 4);
}
static u8 g_bytes[16];
template <class O> static inline void ad_mem(O& o) { AddSubBlockInfoMemPtr a; base(a); q.kind = 0; q.p = g_bytes; q.n = vc_u32("n"); a.ptrData = q.p; a.dataSize = (u32)q.n; o.add(a); vc_cover("done"); vc_assert(q.called == 1, "added once"); }
template <class O> static inline void ad_str(O& o) { AddSubBlockInfoStridedBitmap a; base(a); q.kind = 1; q.p = g_bytes; q.stride = VC_U32("stride", 0, 90); a.ptrBitmap = q.p; a.strideBitmap = q.stride; o.add(a); vc_cover("done"); vc_assert(q.called == 1, "added once"); }
template <class O> static inline void ad_lin(O& o) { AddSubBlockInfoLinewiseBitmap a; base(a); q.kind = 2; q.p = g_bytes; a.getBitmapLine = [](int l)->const void* { const u8* p = q.p; return p + (u64)l; }; o.add(a); vc_cover("done"); vc_assert(q.called == 1, "added once"); }
struct OW { TW w; template <class I> void add(const I& i) { ICziWriter* p = &w; p->SyncAddSubBlock(i); } };
struct Fn { void operator()(const AddSubBlockInfo& i) const { chk(i); } };
struct OH { template <class I> void add(const I& i) { Fn f; AddSubBlockHelper::SyncAddSubBlock<Fn>(f, i); } };
extern "C" void H_ad_mem() { OW* o = new OW(); ad_mem(*o); }
extern "C" void H_ad_str() { OW* o = new OW(); ad_str(*o); }
extern "C" void H_ad_lin() { OW* o = new OW(); ad_lin(*o); }
extern "C" void H_adh_mem() { OH o; ad_mem(o); }
extern "C" void H_adh_str() { OH o; ad_str(o); }
extern "C" void H_adh_lin() { OH o; ad_lin(o); }
// ---------------------------------------------------------------- writing to the stream: short writes are reported
struct St3 : St { u64 off, size, ret; const void* p; int n; void Write(u64 o, const void* pv, u64 s, u64* r) override { n++; off = o; p = pv; size = s; if (r) *r = ret; } };
static void c_notenough(u64, u64, u64) { throw LibCZIWriteException("x", LibCZIWriteException::ErrorType::NotEnoughDataWritten); }
extern "C" void H_w_write()
{
    if (vc_is_proof()) vc_replace_name("ThrowNotEnoughDataWritten", (void*)&c_notenough);
    void* mem = operator new(sizeof(W)); W* w = new (mem) W(CZIWriterOptions()); St3* st = new St3(); st->n = 0; w->stream = std::shared_ptr<IOutputStream>(std::shared_ptr<IOutputStream>(), (IOutputStream*)st);
    u64 off = vc_u64("off"), size = VC_U64("size", 0, 4), got = 0x77; st->ret = VC_U64("ret", 0, 4); u8 b[4]; bool t = false, want = vc_bool("want"); try { w->WriteToOutputStream(off, b, size, want ? &got : nullptr, "x"); } catch (LibCZIWriteException&) { t = true; }
    vc_assert(st->n == 1 && st->off == off && st->size == size && st->p == (const void*)b, "the bytes are handed to the stream"); vc_assert(t == (st->ret != size), "a short write is reported"); if (t) vc_cover("short"); else { vc_cover("ok"); vc_assert(!want || got == size, "the number of bytes written"); }
}
