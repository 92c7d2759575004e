// thread-modular contracts (P21): what a mutex protects is only meaningful while it is held.  Acquiring it makes the protected state known (arbitrary: other
// threads may have changed it since), releasing it makes it unknown again; so a call that is correct here is correct in every interleaving with other calls
// that keep the same discipline.
// TUS: CziSubBlock.cpp CziAttachment.cpp CziMetadataSegment.cpp CziUtils.cpp libCZI_Utilities.cpp DimCoordinate.cpp
#include "vc.h"
#include "std_all.h"
#include <cstdio>
#include <unistd.h>
struct LockG { bool held; bool used; void (*acq)(); void (*rel)(); };
static LockG g_l;
namespace std { struct vcmutex
{
    void lock() { vc_assert(!g_l.held, "the mutex is not locked twice"); g_l.held = true; g_l.used = true; if (g_l.acq) g_l.acq(); }
    void unlock() { vc_assert(g_l.held, "only a held mutex is released"); if (g_l.rel) g_l.rel(); g_l.held = false; }
    bool try_lock() { if (!vc_bool("free")) return false; lock(); return true; }
}; }
#define private public
#define protected public
#define mutex vcmutex
#include "CZIReader.cpp"
#include "StreamsLib/simplefileinputstream.cpp"
#include "StreamsLib/preadfileinputstream.cpp"
#include "StreamImpl.cpp"
#undef mutex
#include "CziSubBlockDirectory.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef uint8_t u8;
// ---- streams: byte j of the caller's buffer (arbitrary j) must come from position offset+j of the file
struct F { FILE* fp; int fd; u64 pos; u8* dst; u64 size, j; bool has; u64 src; const void* obj; };
static F f;
static void deliver(void* p, u64 n, u64 from) { vc_assert((u8*)p >= f.dst && (u8*)p + n <= f.dst + f.size, "only the caller's buffer is written"); if (n) { vc_havoc(p, n); u64 o = (u64)((u8*)p - f.dst); if (f.j >= o && f.j < o + n) { f.has = true; f.src = from + (f.j - o); } } }
static void moved() { f.pos = vc_u64("pos"); }                     // other threads have moved the position of the file
static int c_seek(FILE* fp, off_t o, int wh) { vc_assert(g_l.held, "the position of the file is only used while the mutex is held"); vc_assert(fp == f.fp, "the stream's own file"); if (wh != SEEK_SET || vc_bool("seekfails")) { moved(); return -1; } f.pos = (u64)o; return 0; }
static size_t c_fread(void* p, size_t s, size_t n, FILE* fp)
{
    vc_assert(g_l.held, "the position of the file is only used while the mutex is held"); vc_assert(fp == f.fp && s == 1, "the stream's own file");
    u64 k = vc_u64("got"); vc_assume(k <= n); deliver(p, k, f.pos); f.pos += k; return k;
}
static ssize_t c_pread(int fd, void* p, size_t n, off_t o) { vc_assert(fd == f.fd, "the stream's own file"); if (vc_bool("fails")) return -1; u64 k = vc_u64("got"); vc_assume(k <= n && k <= 0x7fffffffffffffffull); deliver(p, k, (u64)o); return (ssize_t)k; }
// the position of a file descriptor is shared between all threads, too
static off_t c_lseek(int fd, off_t o, int) { vc_assert(g_l.held, "the position of the file is only used while a mutex is held"); f.pos = (u64)o; return o; }
static ssize_t c_read(int fd, void* p, size_t n) { vc_assert(g_l.held, "the position of the file is only used while a mutex is held"); if (vc_bool("fails")) return -1; u64 k = vc_u64("got"); vc_assume(k <= n); deliver(p, k, f.pos); f.pos += k; return (ssize_t)k; }
template <class S> static void stream(S* s, u64 sz)
{
    g_l.held = false; g_l.used = false; g_l.acq = &moved; g_l.rel = nullptr; f.size = vc_u64("size"); vc_assume(f.size >= 1 && f.size <= (1u << 30)); f.dst = (u8*)vc_buf(f.size, "dst"); f.j = vc_u64("j"); vc_assume(f.j < f.size); f.has = false; moved();
    vc_replace_name("^fseeko$", (void*)&c_seek); vc_replace_name("^fseeko64$", (void*)&c_seek); vc_replace_name("^fseek$", (void*)&c_seek); vc_replace_name("^fread$", (void*)&c_fread); vc_replace_name("^pread$", (void*)&c_pread); vc_replace_name("^pread64$", (void*)&c_pread); vc_replace_name("^lseek$", (void*)&c_lseek); vc_replace_name("^lseek64$", (void*)&c_lseek); vc_replace_name("^read$", (void*)&c_read);
    u64 off = vc_u64("off"), k = vc_u64("k"), n = 0; vc_assume(off <= (1ull << 62) && k < sz); u8 before = ((u8*)s)[k]; bool ask = vc_bool("ask");
    try { s->S::Read(off, f.dst, f.size, ask ? &n : nullptr); } catch (std::runtime_error&) { vc_cover("fails"); vc_assert(((u8*)s)[k] == before, "the stream object is not changed"); return; }
    vc_cover("read"); vc_assert(!g_l.held, "the mutex is released"); vc_assert(((u8*)s)[k] == before, "the stream object is not changed by reading");
    if (ask) { vc_assert(n <= f.size, "not more than requested"); if (f.j < n) { vc_cover("byte"); vc_assert(f.has && f.src == off + f.j, "each byte delivered is the one at its position of the file, whatever other threads read"); } }
}
extern "C" void H_stream_file()
{
    if (!vc_is_proof()) return; typedef SimpleFileInputStream S; S* s = (S*)vc_buf(sizeof(S), "obj"); f.fp = s->fp_; stream(s, sizeof(S));
}
extern "C" void H_stream_pread()
{
    if (!vc_is_proof()) return; typedef PreadFileInputStream S; S* s = (S*)vc_buf(sizeof(S), "obj"); f.fd = s->fileDescriptor; stream(s, sizeof(S));
}
extern "C" void H_stream_rw()
{
    if (!vc_is_proof()) return; typedef CInputOutputStreamImplPreadPwrite S; S* s = (S*)vc_buf(sizeof(S), "obj"); f.fd = s->fileDescriptor; stream(s, sizeof(S));
}
// ---- reader: the pointer to the stream belongs to the mutex; Close may be executed by another thread at any time
struct Str : IStream { void Read(uint64_t, void*, uint64_t, uint64_t*) override { vc_assert(false, "the stream is only read through the parser"); } };
struct R { CCZIReader* r; std::shared_ptr<IStream>* own; u8 cur[16], bad[16]; bool first, closed; u64 parsed; u64 pos; bool close; };
static R g;
// references to the stream are counted by the specification of the control block
static void* g_cb; static int64_t g_refs;
static void c_addref(void* cb) { if (cb == g_cb) g_refs++; }
static void c_release(void* cb) { if (cb == g_cb) g_refs--; }
static void c_drop(void** sc) { if (*sc && *sc == g_cb) g_refs--; }
static u8* fld() { return (u8*)(void*)&g.r->stream; }
static void unchanged() { for (int i = 0; i < 16; ++i) vc_assert(fld()[i] == g.bad[i], "the pointer to the stream is only changed while the mutex is held"); }
static void scramble() { for (int i = 0; i < 16; ++i) { g.cur[i] = fld()[i]; fld()[i] = g.bad[i]; } }
static void r_acq()
{
    unchanged(); for (int i = 0; i < 16; ++i) fld()[i] = g.cur[i];
    if (!g.closed && vc_bool("closed by another thread")) { g.r->stream.reset(); g.closed = true; vc_cover("closed"); }
}
static void r_rel() { if (g.close && !g.r->stream) g.closed = true; vc_assert((g.r->stream.get() == nullptr) == g.closed, "the stream is released by Close only"); scramble(); }
static void parsed(IStream* s, u64 pos)
{
    g.parsed++; vc_assert(s == g.own->get() , "the stream of the document is read"); vc_assert(pos == g.pos, "at the position of the item");
    vc_assert(g_refs >= (g.closed ? 1 : 2), "the call holds a reference to the stream of its own, so that it survives a concurrent Close");
}
static CCZIParse::SubBlockData c_sub(IStream* s, u64 pos, const CCZIParse::SubBlockStorageAllocate&) { parsed(s, pos); CCZIParse::SubBlockData d; vc_havoc(&d, 0); d.ptrData = d.ptrAttachment = d.ptrMetadata = nullptr; d.dataSize = 0; d.attachmentSize = 0; d.metaDataSize = 0; d.pixelType = d.compression = 0; d.mIndex = 0; return d; }
static CCZIParse::AttachmentData c_att(IStream* s, u64 pos, const CCZIParse::SubBlockStorageAllocate&) { parsed(s, pos); CCZIParse::AttachmentData d; d.ptrData = nullptr; d.dataSize = 0; return d; }
static CCZIParse::MetadataSegmentData c_meta(IStream* s, u64 pos, const CCZIParse::SubBlockStorageAllocate&) { parsed(s, pos); CCZIParse::MetadataSegmentData d; d.ptrXmlData = nullptr; d.xmlDataSize = 0; d.ptrAttachment = nullptr; d.attachmentSize = 0; return d; }
static bool g_found;
static bool c_tsb(const CCziSubBlockDirectory* d, int, CCziSubBlockDirectoryBase::SubBlkEntry& e) { vc_assert(d == &g.r->subBlkDir, "the directory of the document"); if (!g_found) return false; e.FilePosition = g.pos; return true; }
static bool c_tat(const CCziAttachmentsDirectory* d, int, CCziAttachmentsDirectoryBase::AttachmentEntry& e) { vc_assert(d == &g.r->attachmentDir, "the directory of the document"); if (!g_found) return false; e.FilePosition = g.pos; return true; }
static libCZI::AttachmentInfo c_conv(const CCziAttachmentsDirectoryBase::AttachmentEntry&) { libCZI::AttachmentInfo i; return i; }
static void reader(int op)
{
    if (!vc_is_proof()) return;
    g.r = (CCZIReader*)vc_buf(sizeof(CCZIReader), "obj"); Str* st = new Str(); std::shared_ptr<IStream> own(st), bad(std::shared_ptr<IStream>(), (IStream*)(void*)&g_l); g.own = &own; g.closed = vc_bool("already closed"); g.parsed = 0; g.close = op == 3; g.pos = vc_u64("filepos"); g_found = vc_bool("found");
    g_cb = ((void**)(void*)&own)[1]; g_refs = 0; vc_replace_name("16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE15_M_add_ref_copyEv$", (void*)&c_addref); vc_replace_name("16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE10_M_releaseEv$", (void*)&c_release); vc_replace_name("14__shared_countILN9__gnu_cxx12_Lock_policyE2EED2Ev$", (void*)&c_drop);
    new ((void*)&g.r->stream) std::shared_ptr<IStream>(); if (!g.closed) g.r->stream = own; vc_assert(g_refs == (g.closed ? 0 : 1), "ghost"); for (int i = 0; i < 16; ++i) g.bad[i] = ((u8*)(void*)&bad)[i]; scramble();
    bool oper = vc_bool("operational"); new ((void*)&g.r->isOperational) decltype(g.r->isOperational)(oper); g.r->sub_block_directory_info_policy_ = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)vc_u8("policy");
    g_l.held = g_l.used = false; g_l.acq = &r_acq; g_l.rel = &r_rel;
    vc_replace_name("9CCZIParse12ReadSubBlock", (void*)&c_sub); vc_replace_name("9CCZIParse14ReadAttachment", (void*)&c_att); vc_replace_name("9CCZIParse19ReadMetadataSegment", (void*)&c_meta); vc_replace_name("21CCziSubBlockDirectory14TryGetSubBlock", (void*)&c_tsb); vc_replace_name("24CCziAttachmentsDirectory16TryGetAttachment", (void*)&c_tat); vc_replace_name("ConvertToAttachmentInfo", (void*)&c_conv);
    u64 k = vc_u64("k"); vc_assume(k < sizeof(CCZIReader)); u64 so = (u64)(fld() - (u8*)g.r), mo = (u64)((u8*)&g.r->stream_mutex_ - (u8*)g.r), oo = (u64)((u8*)&g.r->isOperational - (u8*)g.r); vc_assume(!(k >= so && k < so + 16) && !(k >= mo && k < mo + sizeof(g.r->stream_mutex_)) && !(op == 3 && k == oo)); u8 before = ((u8*)g.r)[k];
    bool threw = false, got = false;
    try
    {
        if (op == 0) got = (bool)g.r->CCZIReader::ReadSubBlock(vc_i32("index")); else if (op == 1) got = (bool)g.r->CCZIReader::ReadAttachment(vc_i32("index")); else if (op == 2) { got = (bool)g.r->CCZIReader::ReadMetadataSegment(g.pos); } else g.r->CCZIReader::Close();
    }
    catch (std::logic_error&) { threw = true; } catch (std::runtime_error&) { vc_cover("mismatch"); vc_assert(op == 0 && g.parsed == 1, "an item that disagrees with the directory"); return; }
    vc_assert(!g_l.held, "the mutex is released"); unchanged(); vc_assert(((u8*)g.r)[k] == before, "nothing else of the reader is changed");
    if (op == 3) { if (!threw) { vc_cover("close"); vc_assert(oper && g.closed && g_refs == 0, "the stream is released"); vc_assert(!g.r->isOperational, "the reader is not operational any more"); } else vc_assert(!oper, "refused only if not operational"); }
    else
    {
        vc_assert(g.parsed <= 1, "the item is read once"); if (got) { vc_cover("item"); vc_assert(g.parsed == 1, "an item delivered was read from the stream"); }
        if (threw) { vc_cover("refused"); vc_assert((op != 2 && !oper) || g.closed, "an operation is only refused when the reader is closed"); vc_assert(!got && g.parsed == 0, "and then nothing is read"); }
        vc_assert(g_refs == (g.closed ? 0 : 1), "the reference is given back");
    }
    // leave nothing behind whose destructor would look at the scrambled pointer
}
extern "C" void H_reader_sub() { reader(0); }
extern "C" void H_reader_att() { reader(1); }
extern "C" void H_reader_meta() { reader(2); }
extern "C" void H_reader_close() { reader(3); }
// ---- statistics: sorted at most once, when the directory is complete; afterwards queries do not change anything
static u64 g_sorts; static void c_sort(CSbBlkStatisticsUpdater*) { g_sorts++; }
extern "C" void H_stat_query()
{
    if (!vc_is_proof()) return;
    CSbBlkStatisticsUpdater* u = (CSbBlkStatisticsUpdater*)vc_buf(sizeof(CSbBlkStatisticsUpdater), "obj"); vc_assume(*(u8*)&u->pyramidStatisticsDirty <= 1); vc_replace_name("SortPyramidStatistics", (void*)&c_sort); g_sorts = 0; bool d0 = u->pyramidStatisticsDirty;
    u->Consolidate(); vc_assert(g_sorts == (d0 ? 1u : 0u), "sorted exactly if something was added since");
    u64 k = vc_u64("k"); vc_assume(k < sizeof(*u)); u8 before = ((u8*)u)[k]; g_sorts = 0;
    const auto& p = u->GetPyramidStatistics(); const auto& s = u->GetStatistics(); vc_cover("done");
    vc_assert(&p == &u->pyramidStatistics && &s == &u->statistics, "the statistics themselves are delivered"); vc_assert(g_sorts == 0 && ((u8*)u)[k] == before, "a query of a complete directory changes nothing");
}
