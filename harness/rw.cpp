// contracts of the document operations of CCziReaderWriter: where each of them puts its segment, what it marks as deleted, which directory entry it
// leaves behind and how the next free position moves; the segment writers are used by their contracts (wr.cpp), the directories by theirs
// (the operations are run on the real objects with real files by B_edit; natively these entries do nothing)
// TUS: CziWriter.cpp CziSubBlockDirectory.cpp CziAttachmentsDirectory.cpp CziParse.cpp CziStructs.cpp CziUtils.cpp libCZI_Utilities.cpp DimCoordinate.cpp utilities.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "CziReaderWriter.cpp"
#undef private
#undef protected
#include "rwg.h"
typedef CCziReaderWriter RW;
// contract of ReadSegmentHeader (parse.cpp: H_segheader)
static CCZIParse::SegmentSizes c_seghdr(CCZIParse::SegmentType, IStream*, u64 pos) { if (g.hthrow) throw std::runtime_error("x"); vc_assert(pos == g.pe, "the header of the existing segment is read"); CCZIParse::SegmentSizes s; s.AllocatedSize = g.ae; s.UsedSize = g.ae; return s; }
static CCZIParse::SegmentSizes c_seghdrany(IStream*, u64 pos) { if (g.hthrow) throw std::runtime_error("x"); vc_assert(pos == g.lastpos, "the header of the last segment is read"); CCZIParse::SegmentSizes s; s.AllocatedSize = g.lastalloc; s.UsedSize = g.lastalloc; return s; }
// directory: one entry under consideration (operations on the map itself: H_rwdir_*)
static bool c_getsb(const void*, int key, SE* e) { vc_assert(key == g.key, "key"); if (!g.exists) return false; if (e) { e->Invalidate(); e->FilePosition = g.pe; } return true; }
static bool c_modsb(void*, int key, const SE& e) { vc_assert(key == g.key, "key"); g.se = e; g.modified = true; return true; }
static bool c_remsb(void*, int key, SE* e) { vc_assert(key == g.key, "key"); if (!g.exists) return false; if (e) { e->Invalidate(); e->FilePosition = g.pe; } g.removed = true; return true; }
static bool c_addsb(void*, const SE& e, int* key) { if (g.refuse) return false; g.se = e; g.added = true; if (key) *key = 1; return true; }
static bool c_getat(const void*, int key, AE* e) { vc_assert(key == g.key, "key"); if (!g.exists) return false; if (e) e->FilePosition = (i64)g.pe; return true; }
static bool c_modat(void*, int key, const AE& e) { vc_assert(key == g.key, "key"); g.at = e; g.modified = true; return true; }
static bool c_remat(void*, int key, AE* e) { vc_assert(key == g.key, "key"); if (!g.exists) return false; if (e) e->FilePosition = (i64)g.pe; g.removed = true; return true; }
static bool c_addat(void*, const AE& e, int* key) { if (g.refuse) return false; g.at = e; g.added = true; if (key) *key = 1; return true; }
#define SBD "^_ZN6libCZI6detail33CReaderWriterCziSubBlockDirectory"
#define SBDK "^_ZNK6libCZI6detail33CReaderWriterCziSubBlockDirectory"
#define ATD "^_ZN6libCZI6detail36CReaderWriterCziAttachmentsDirectory"
#define ATDK "^_ZNK6libCZI6detail36CReaderWriterCziAttachmentsDirectory"
static void contracts()
{
    use_writers();
    vc_replace((void*)&CCZIParse::ReadSegmentHeader, (void*)&c_seghdr); vc_replace((void*)&CCZIParse::ReadSegmentHeaderAny, (void*)&c_seghdrany);
    vc_replace_name(SBDK "14TryGetSubBlock", (void*)&c_getsb); vc_replace_name(SBD "17TryModifySubBlock", (void*)&c_modsb); vc_replace_name(SBD "17TryRemoveSubBlock", (void*)&c_remsb); vc_replace_name(SBD "14TryAddSubBlock", (void*)&c_addsb);
    vc_replace_name(ATDK "16TryGetAttachment", (void*)&c_getat); vc_replace_name(ATD "19TryModifyAttachment", (void*)&c_modat); vc_replace_name(ATD "19TryRemoveAttachment", (void*)&c_remat); vc_replace_name(ATD "16TryAddAttachment", (void*)&c_addat);
}
// ---------------------------------------------------------------- a document under editing
struct Doc { RW* w; u64 N; bool known; };
static void mkdoc(Doc& d, RW* w, St* st)
{
    contracts();
    d.w = w; w->stream = std::shared_ptr<IInputOutputStream>(std::shared_ptr<IInputOutputStream>(), st);
    g.used = vc_u64("used"); g.exists = vc_bool("exists"); g.pe = vc_u64("pe"); g.ae = vc_i64("ae"); g.hthrow = vc_bool("hthrow"); g.refuse = vc_bool("refuse"); g.key = vc_i32("key"); g.lastpos = vc_u64("lastpos"); g.lastalloc = vc_i64("lastalloc");
    const u64 L = 1ull << 60; vc_assume(g.used <= L && g.pe <= L && g.pe >= 544 && g.ae >= 0 && (u64)g.ae <= L && g.lastpos <= L && g.lastalloc >= 0 && (u64)g.lastalloc <= L);
    d.known = vc_bool("known"); d.N = vc_u64("N"); vc_assume(d.N >= 544 && d.N <= (1ull << 62));
    w->nextSegmentInfo.SetLastSegmentPos(g.lastpos);
    if (d.known) w->nextSegmentInfo.SetNextSegmentPos(d.N); else vc_assume(d.N == g.lastpos + 32 + (u64)g.lastalloc);
    vc_assume(g.pe + 32 + (u64)g.ae <= d.N);   // N: every existing segment lies before it
}
static u64 nextpos(Doc& d) { return d.w->nextSegmentInfo.IsNextSegmentPosValid() ? d.w->nextSegmentInfo.GetNextSegmentPos() : d.N; }
static void nothing(Doc& d) { vc_assert(g.nop == 0 && g.ndel == 0 && g.wn == 0, "nothing is written"); vc_assert(!g.modified && !g.added && !g.removed, "the directory is as before"); vc_assert(nextpos(d) == d.N, "the next free position is as before"); }
#define DOC if (!vc_is_proof()) return; void* mem = operator new(sizeof(RW)); RW* w = new (mem) RW(); St* st = new St(); Doc d; mkdoc(d, w, st);
// ---------------------------------------------------------------- operations
extern "C" void H_rw_add()
{
    DOC AddSubBlockInfo a; mkinfo(a); bool t = false; try { w->SyncAddSubBlock(a); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(g.refuse || badargs(a) || (g.hthrow && !d.known), "only an existing coordinate or invalid arguments are refused"); return; }
    vc_cover("added"); vc_assert(!g.refuse, "an existing coordinate is refused"); vc_assert(g.nop == 1 && g.op[0].kind == SB && !g.op[0].inplace && g.ndel == 0, "one segment is written, nothing else");
    vc_assert(g.op[0].pos == d.N, "at the next free position"); vc_assert(nextpos(d) == d.N + 32 + g.op[0].alloc, "the next free position is behind it"); vc_assert(g.added && g.se.FilePosition == d.N && !g.modified && !g.removed, "the directory has the new entry, with the position of the segment"); chkentry(g.se, a);
}
extern "C" void H_rw_replace()
{
    DOC AddSubBlockInfo a; mkinfo(a); bool t = false; try { ((ICziReaderWriter*)w)->ReplaceSubBlock(g.key, a); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(!g.exists || g.hthrow || badargs(a), "only an unknown key is refused"); return; }
    vc_assert(g.exists, "an unknown key is refused"); vc_assert(g.nop == 1 && g.op[0].kind == SB, "one segment is written");
    if (g.op[0].inplace) { vc_cover("inplace"); vc_assert(g.op[0].pos == g.pe && g.op[0].alloc == (u64)g.ae, "in place: exactly over the existing segment"); vc_assert(g.ndel == 0, "in place: nothing is marked as deleted"); vc_assert(nextpos(d) == d.N, "in place: the next free position is as before"); }
    else { vc_cover("atend"); vc_assert(g.op[0].pos == d.N, "new: at the next free position"); vc_assert(nextpos(d) == d.N + 32 + g.op[0].alloc, "new: the next free position is behind it"); vc_assert(g.ndel == 1 && g.del == g.pe, "new: the old segment is marked as deleted"); vc_assert(g.order, "new: only after the new one is written"); }
    vc_assert(g.modified && !g.added && !g.removed && g.se.FilePosition == g.op[0].pos, "the entry has the position of the segment"); chkentry(g.se, a);
}
extern "C" void H_rw_remove()
{
    DOC bool t = false; try { w->RemoveSubBlock(g.key); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(!g.exists, "only an unknown key is refused"); return; }
    vc_cover("removed"); vc_assert(g.exists && g.removed && !g.added && !g.modified, "the entry is removed"); vc_assert(g.nop == 0 && g.ndel == 1 && g.del == g.pe, "its segment, and no other, is marked as deleted"); vc_assert(nextpos(d) == d.N, "the next free position is as before");
}
extern "C" void H_rw_addatt()
{
    DOC AddAttachmentInfo a; u8 data[4]; mkatt(a, data); bool bad = a.dataSize > 0 && !a.ptrData; bool t = false; try { w->SyncAddAttachment(a); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(g.refuse || bad || (g.hthrow && !d.known), "only an existing attachment or invalid arguments are refused"); return; }
    vc_cover("added"); vc_assert(!g.refuse && !bad, "an existing attachment is refused"); vc_assert(g.nop == 1 && g.op[0].kind == ATT && !g.op[0].inplace && g.ndel == 0, "one segment is written, nothing else");
    vc_assert(g.op[0].pos == d.N, "at the next free position"); vc_assert(nextpos(d) == d.N + 32 + g.op[0].alloc, "the next free position is behind it"); vc_assert(g.added && (u64)g.at.FilePosition == d.N && !g.modified && !g.removed, "the directory has the new entry, with the position of the segment"); chkatt(g.at, a);
}
extern "C" void H_rw_replaceatt()
{
    DOC AddAttachmentInfo a; u8 data[4]; mkatt(a, data); bool t = false; try { w->ReplaceAttachment(g.key, a); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(!g.exists || g.hthrow || (a.dataSize > 0 && !a.ptrData), "only an unknown key is refused"); return; }
    vc_assert(g.exists, "an unknown key is refused"); vc_assert(g.nop == 1 && g.op[0].kind == ATT, "one segment is written");
    if (g.op[0].inplace) { vc_cover("inplace"); vc_assert(g.op[0].pos == g.pe && g.op[0].alloc == (u64)g.ae, "in place: exactly over the existing segment"); vc_assert(g.ndel == 0, "in place: nothing is marked as deleted"); vc_assert(nextpos(d) == d.N, "in place: the next free position is as before"); }
    else { vc_cover("atend"); vc_assert(g.op[0].pos == d.N, "new: at the next free position"); vc_assert(nextpos(d) == d.N + 32 + g.op[0].alloc, "new: the next free position is behind it"); vc_assert(g.ndel == 1 && g.del == g.pe, "new: the old segment is marked as deleted"); vc_assert(g.order, "new: only after the new one is written"); }
    vc_assert(g.modified && !g.added && !g.removed && (u64)g.at.FilePosition == g.op[0].pos, "the entry has the position of the segment"); chkatt(g.at, a);
}
extern "C" void H_rw_removeatt()
{
    DOC bool t = false; try { w->RemoveAttachment(g.key); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(!g.exists, "only an unknown key is refused"); return; }
    vc_cover("removed"); vc_assert(g.exists && g.removed && !g.added && !g.modified, "the entry is removed"); vc_assert(g.nop == 0 && g.ndel == 1 && g.del == g.pe, "its segment, and no other, is marked as deleted"); vc_assert(nextpos(d) == d.N, "the next free position is as before");
}
extern "C" void H_rw_meta()
{
    DOC WriteMetadataInfo m; m.Clear(); bool ex = vc_bool("ex"); if (ex) w->metadataSegment.SetPositionAndAllocatedSize(g.pe, (u64)g.ae, false);
    bool t = false; try { w->SyncWriteMetadata(m); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("refused"); nothing(d); vc_assert(g.hthrow && !d.known, "not refused"); return; }
    vc_cover("written"); vc_assert(g.nop == 1 && g.op[0].kind == META, "one segment is written"); vc_assert(w->metadataSegment.IsValid() && w->metadataSegment.GetFilePos() == g.op[0].pos && w->metadataSegment.GetAllocatedSize() == g.op[0].alloc, "the document knows where its metadata is");
    if (g.op[0].inplace) { vc_cover("inplace"); vc_assert(ex && g.op[0].pos == g.pe && g.ndel == 0 && nextpos(d) == d.N, "in place: nothing else changes"); }
    else { vc_assert(g.op[0].pos == d.N && nextpos(d) == d.N + 32 + g.op[0].alloc, "new: at the next free position, which moves behind it"); vc_assert(g.ndel == (ex && g.ae > 0 ? 1 : 0) && (g.ndel == 0 || g.del == g.pe), "new: the old segment is marked as deleted"); }
}
// closing: the directories are written where modified, disjoint from everything, and the file header points at the three segments
static inline void close_(bool ms, bool ma)
{
    DOC bool xs = vc_bool("xs"), xa = vc_bool("xa"), xm = vc_bool("xm"); w->sbBlkDirectory.SetModified(ms); w->attachmentDirectory.SetModified(ma);
    u64 ps = vc_u64("ps"), as = vc_u64("as"), pa = vc_u64("pa"), aa = vc_u64("aa"), pm = vc_u64("pm"), am = vc_u64("am"); const u64 L = 1ull << 60;
    vc_assume(ps >= 544 && ps <= L && as <= L && ps + as + 32 <= d.N); vc_assume(pa >= 544 && pa <= L && aa <= L && pa + aa + 32 <= d.N); vc_assume(pm >= 544 && pm <= L && am <= L && pm + am + 32 <= d.N); vc_assume(ps != pa && ps != pm && pa != pm);
    if (xs) w->subBlockDirectorySegment.SetPositionAndAllocatedSize(ps, as, false); if (xa) w->attachmentDirectorySegment.SetPositionAndAllocatedSize(pa, aa, false); if (xm) w->metadataSegment.SetPositionAndAllocatedSize(pm, am, false);
    // the header as it was read: it points at the existing directories; the metadata may have been moved since
    u64 hm = vc_u64("hm"); FileHeaderSegmentData h; memset(&h, 0, sizeof(h)); h.SubBlockDirectoryPosition = xs ? ps : 0; h.AttachmentDirectoryPosition = xa ? pa : 0; h.MetadataPosition = hm; h.FileGuid.Data1 = vc_u32("gd"); h.FileGuid.Data4[7] = vc_u8("ge"); w->hdrSegmentData = CFileHeaderSegmentData(&h);
    bool t = false; try { w->Close(); } catch (std::exception&) { t = true; }
    if (t) { vc_cover("failed"); vc_assert(g.hthrow && !d.known, "not refused"); return; }
    vc_cover("closed"); int k = 0; u64 n = d.N, ds = xs ? ps : 0, da = xa ? pa : 0; int nd = 0;
    if (ms) { vc_assert(g.nop > k && g.op[k].kind == SBDIR, "a modified subblock directory is written"); ds = g.op[k].pos; if (g.op[k].inplace) vc_assert(xs && ds == ps, "in place"); else { vc_assert(ds == n, "at the next free position"); n += 32 + g.op[k].alloc; if (xs && as > 0) ++nd; } ++k; }
    if (ma) { vc_assert(g.nop > k && g.op[k].kind == ATTDIR, "a modified attachment directory is written"); da = g.op[k].pos; if (g.op[k].inplace) vc_assert(xa && da == pa, "in place"); else { vc_assert(da == n, "at the next free position, behind the subblock directory"); n += 32 + g.op[k].alloc; if (xa && aa > 0) ++nd; } ++k; }
    vc_assert(g.nop == k, "nothing else is written"); vc_assert(g.ndel == nd, "directories which were moved, and nothing else, are marked as deleted"); vc_assert(nextpos(d) == n, "the next free position is behind everything");
    u64 dm = xm ? pm : 0; bool need = ds != (xs ? ps : 0) || da != (xa ? pa : 0) || dm != hm;
    if (need) vc_assert(g.hdr, "the file header is written when a position has changed");
    if (g.hdr)
    {
        vc_cover("header"); chkhdr(ds, da, dm, h.FileGuid.Data1, h.FileGuid.Data4[7]);
    }
}
extern "C" void H_rw_close_00() { close_(false, false); }
extern "C" void H_rw_close_01() { close_(false, true); }
extern "C" void H_rw_close_10() { close_(true, false); }
extern "C" void H_rw_close_11() { close_(true, true); }
struct St3 : St { u64 off, size, ret; const void* p; int n; void Write(u64 o, const void* pv, u64 s, u64* r) override { n++; off = o; p = pv; size = s; if (r) *r = ret; } };
static void c_notenough(u64, u64, u64) { throw LibCZIWriteException("x", LibCZIWriteException::ErrorType::NotEnoughDataWritten); }
extern "C" void H_rw_write()
{
    if (vc_is_proof()) vc_replace_name("ThrowNotEnoughDataWritten", (void*)&c_notenough);
    void* mem = operator new(sizeof(RW)); RW* w = new (mem) RW(); St3* st = new St3(); st->n = 0; w->stream = std::shared_ptr<IInputOutputStream>(std::shared_ptr<IInputOutputStream>(), st);
    u64 off = vc_u64("off"), size = VC_U64("size", 0, 4), got = 0x77; st->ret = VC_U64("ret", 0, 4); u8 b[4]; bool t = false, want = vc_bool("want"); try { w->WriteToOutputStream(off, b, size, want ? &got : nullptr, "x"); } catch (LibCZIWriteException&) { t = true; }
    vc_assert(st->n == 1 && st->off == off && st->size == size && st->p == (const void*)b, "the bytes are handed to the stream"); vc_assert(t == (st->ret != size), "a short write is reported"); if (t) vc_cover("short"); else { vc_cover("ok"); vc_assert(!want || got == size, "the number of bytes written"); }
}
// frames of reference (P16): statistics by contract
static SubBlockStatistics g_stat;
static const SubBlockStatistics& c_stat(void*) { return g_stat; }
extern "C" void H_rw_transform()
{
    if (!vc_is_proof()) return; vc_replace_name(SBD "13GetStatistics", (void*)&c_stat);
    void* mem = operator new(sizeof(RW)); RW* w = new (mem) RW(); St* st = new St(); w->stream = std::shared_ptr<IInputOutputStream>(std::shared_ptr<IInputOutputStream>(), st);
    struct Inf : ICziReaderWriterInfo { GUID gd; CZIFrameOfReference f; bool GetForceFileGuid() const override { return false; } const GUID& GetFileGuid() const override { return gd; } CZIFrameOfReference GetDefaultFrameOfReference() const override { return f; } };
    Inf* i = new Inf(); u8 fd = vc_u8("fd"), fs = vc_u8("fs"), ft = vc_u8("ft"); vc_assume(fd <= 3 && fs <= 3 && ft <= 3); i->f = (CZIFrameOfReference)fd; w->info = std::shared_ptr<ICziReaderWriterInfo>(std::shared_ptr<ICziReaderWriterInfo>(), i);
    g_stat.boundingBoxLayer0Only.x = vc_i32("bx"); g_stat.boundingBoxLayer0Only.y = vc_i32("by"); i32 x = vc_i32("x"), y = vc_i32("y");
    auto eff = [fd](u8 f)->CZIFrameOfReference { CZIFrameOfReference c = (CZIFrameOfReference)f; if (c == CZIFrameOfReference::Default) c = (CZIFrameOfReference)fd == CZIFrameOfReference::PixelCoordinateSystem ? CZIFrameOfReference::PixelCoordinateSystem : CZIFrameOfReference::RawSubBlockCoordinateSystem; return c; };
    bool t = false; IntPointAndFrameOfReference r; try { r = w->TransformPoint(IntPointAndFrameOfReference{ (CZIFrameOfReference)fs, { x, y } }, (CZIFrameOfReference)ft); } catch (std::exception&) { t = true; }
    bool inv = (CZIFrameOfReference)fs == CZIFrameOfReference::Invalid || (CZIFrameOfReference)ft == CZIFrameOfReference::Invalid; vc_assert(t == inv, "exactly an invalid frame is refused"); if (t) { vc_cover("refused"); return; } vc_cover("done");
    CZIFrameOfReference s = eff(fs), e = eff(ft); vc_assert(r.frame_of_reference == e, "the result is in the frame asked for"); i64 dx = s == e ? 0 : e == CZIFrameOfReference::RawSubBlockCoordinateSystem ? g_stat.boundingBoxLayer0Only.x : -(i64)g_stat.boundingBoxLayer0Only.x, dy = s == e ? 0 : e == CZIFrameOfReference::RawSubBlockCoordinateSystem ? g_stat.boundingBoxLayer0Only.y : -(i64)g_stat.boundingBoxLayer0Only.y;
    vc_assert(r.point.x == (i32)(u32)(u64)(x + dx) && r.point.y == (i32)(u32)(u64)(y + dy), "shifted by the origin of the bounding box");
}
