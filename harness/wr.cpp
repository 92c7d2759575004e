// contracts of the segment writers (CziWriter.cpp, CWriterUtils): the bytes each of them puts into the file, for an arbitrary (ghost)
// position of the file, and the space they use
// TUS: CziParse.cpp CziStructs.cpp CziUtils.cpp libCZI_Utilities.cpp DimCoordinate.cpp utilities.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "CziWriter.cpp"
#undef private
#undef protected
using namespace libCZI; using namespace libCZI::detail;
typedef uint64_t u64; typedef uint8_t u8; typedef int32_t i32; typedef int64_t i64; typedef uint32_t u32;
static u64 rd(const u8* p, u64 o, int n) { u64 v = 0; for (int i = n - 1; i >= 0; --i) v = (v << 8) | p[o + i]; return v; }
typedef std::function<void(u64, const void*, u64, u64*, const char*)> WF;

// the file: the byte at one arbitrary position g, the head of the segment being written, and how far the segment has been written without a gap
struct S { u64 end; bool seq, hit; u8 val; u64 nhead; bool deleted; };
struct F { u64 pos, g, del; S* s; u8* head; };
static const u8 kDeleted[16] = { 'D', 'E', 'L', 'E', 'T', 'E', 'D' };
static void fwrite_(const F* f, u64 off, const void* pv, u64 size, u64* n)
{
    const u8* p = (const u8*)pv; S* s = f->s;
    if (f->del != ~0ull && off == f->del && off != f->pos) { s->deleted = size == 16 && rd(p, 0, 8) == rd(kDeleted, 0, 8) && rd(p, 8, 8) == 0; *n = size; return; }
    s->seq = s->seq & (off == s->end || size == 0);
    if (off == f->pos && size <= 320 && s->nhead == 0) { memcpy(f->head, p, size); s->nhead = size; }
    if (f->g >= off && f->g - off < size) { s->hit = true; s->val = p[f->g - off]; }
    s->end = off + size; *n = size;
}
static WF wf(const F& f) { const F* q = &f; return [q](u64 off, const void* pv, u64 size, u64* n, const char*) { fwrite_(q, off, pv, size, n); }; }
static void mkf(F& f, S& s, u8* head, u64 span)
{
    f.pos = VC_U64("pos", 0, 5000); f.g = VC_U64("g", 0, 6000); vc_assume(f.pos <= (1ull << 60)); f.s = &s; f.head = head; f.del = ~0ull;
    s.end = f.pos; s.seq = true; s.hit = false; s.val = 0; s.nhead = 0; s.deleted = false;
    if (!vc_is_proof()) f.g = f.pos + f.g % (span + 1);
}
// ---------------------------------------------------------------- sizes
extern "C" void H_align()
{
    u64 u = VC_U64("used", 0, 200); vc_assume(u <= 0xffffffffffffffe0ull);
    u64 a = CWriterUtils::AlignSegmentSize(u); vc_cover("done");
    vc_assert(a >= u, "the allocated size is not below the used size"); vc_assert(a % 32 == 0, "the allocated size is a multiple of 32"); vc_assert(a - u < 32, "less than 32 bytes are added");
}
// contract of AlignSegmentSize (H_align)
static u64 g_al;
static u64 c_align(u64 u) { u64 a = vc_u64("aligned"); vc_assume(a >= u && a - u < 32 && (a & 31) == 0); g_al = a; return a; }
static void use_align() { if (vc_is_proof()) vc_replace((void*)&CWriterUtils::AlignSegmentSize, (void*)&c_align); }
static bool aligned(u64 a, u64 u) { return a >= u && a - u < 32 && (a & 31) == 0; }
// ---------------------------------------------------------------- padding
struct Z { u64 cnt; const F* f; };
extern "C" void H_zeroes()
{
    F f; S s; u8 head[320]; Z z; z.cnt = VC_U64("cnt", 0, 20000); vc_assume(z.cnt <= (vc_is_proof() ? 1ull << 60 : 1u << 20)); mkf(f, s, head, z.cnt); z.f = &f; s.nhead = 1;
    struct I { static bool inv(void* c, u64 k, u64) { Z* z = (Z*)c; const F* f = z->f; S* s = f->s; u64 t = k * 4096 < z->cnt ? k * 4096 : z->cnt; return k <= (1ull << 48) + 1 && s->nhead == 1 && s->seq && s->end == f->pos + t && s->hit == (f->g >= f->pos && f->g - f->pos < t) && (!s->hit || s->val == 0) && (k == 0 || (k - 1) * 4096 < z->cnt); }
        static u64 tot(void* c, u64 k, u64) { Z* z = (Z*)c; return k * 4096 < z->cnt ? k * 4096 : z->cnt; }
        static u64 rem(void* c, u64 k, u64) { Z* z = (Z*)c; return k * 4096 < z->cnt ? z->cnt - k * 4096 : 0; } };
    vc_loop_inv(0, I::inv, &z, "padding so far"); vc_loop_val(0, I::rem, &z); vc_loop_val(0, I::tot, &z);
    u64 r = CWriterUtils::WriteZeroes(wf(f), f.pos, z.cnt); vc_cover("done");
    vc_assert(r == z.cnt, "the number of bytes written is the one asked for"); vc_assert(s.seq && s.end == f.pos + z.cnt, "written without gap, and not beyond");
    bool inside = f.g >= f.pos && f.g - f.pos < z.cnt; vc_assert(s.hit == inside, "exactly the bytes of the range are written"); vc_assert(!inside || s.val == 0, "each is zero");
}
// contract of WriteZeroes (H_zeroes), with the state of the file as ghost
static const F* g_f;
static u64 c_zeroes(const WF& w, u64 pos, u64 cnt)
{
    const F* f = g_f; S* s = f->s;
    s->seq = s->seq & (pos == s->end || cnt == 0);
    if (f->g >= pos && f->g - pos < cnt) { s->hit = true; s->val = 0; }
    s->end = pos + cnt; return cnt;
}
static void use_zeroes(const F& f) { g_f = &f; if (vc_is_proof()) vc_replace((void*)(u64(*)(const WF&, u64, u64))&CWriterUtils::WriteZeroes, (void*)&c_zeroes); }
// ---------------------------------------------------------------- payload delivered piecewise by a functor
struct G { const F* f; u64 size, off; u64 calls; bool stop; const u8* p; };
typedef std::function<bool(int, size_t, const void*&, size_t&)> GF;
extern "C" void H_generic()
{
    G g; F f; S s; u8 head[320]; struct C { u64 size; const u8* p; const F* f; G* g; } c;
    c.size = VC_U64("size", 0, 400); vc_assume(c.size <= (vc_is_proof() ? 1ull << 48 : 100000)); mkf(f, s, head, c.size); s.nhead = 1; use_zeroes(f);
    c.p = (const u8*)vc_buf(c.size, "payload"); c.f = &f; c.g = &g; g.off = 0; g.calls = 0; g.stop = false;
    C* q = &c;
    struct I { static bool inv(void* x, u64 k, u64) { C* c = (C*)x; G* g = c->g; const F* f = c->f; S* s = f->s; return g->calls == k && !g->stop && g->off < c->size && s->nhead == 1 && s->seq && s->end == f->pos + g->off && s->hit == (f->g >= f->pos && f->g - f->pos < g->off) && (!s->hit || s->val == c->p[f->g - f->pos]); }
        static u64 off(void* x, u64, u64) { return ((C*)x)->g->off; } };
    vc_loop_inv(0, I::inv, &c, "payload so far"); vc_loop_val(0, I::off, &c);
    GF fn = [q](int i, size_t off, const void*& ptr, size_t& n)->bool
        {
            G* g = q->g; vc_assert(i == (int)(u32)g->calls, "the functor gets the number of the call"); vc_assert(off == g->off, "and the offset of the next byte"); g->calls++;
            if (VC_U8("stop", 1, 9) == 0) { vc_cover("stop"); g->stop = true; return false; }
            u64 n_ = VC_U64("n", 1, 90); if (!vc_is_proof() && n_ == 0) n_ = 1; n = n_; ptr = q->p + off; u64 rem = q->size - off; g->off += n_ < rem ? n_ : rem; return true;
        };
    CWriterUtils::WriteInfo wi; wi.segmentPos = f.pos; wi.writeFunc = wf(f); wi.useSpecifiedAllocatedSize = false;
    u64 r = CWriterUtils::WriteSubBlkDataGeneric(wi, f.pos, c.size, fn, "x"); vc_cover("done");
    vc_assert(r == c.size, "the number of bytes written is the announced size"); vc_assert(s.seq && s.end == f.pos + c.size, "written without gap, and not beyond");
    bool inside = f.g >= f.pos && f.g - f.pos < c.size; vc_assert(s.hit == inside, "exactly the bytes of the payload are written");
    if (inside) vc_assert(s.val == (f.g - f.pos < g.off ? c.p[f.g - f.pos] : 0), "each with the byte delivered by the functor, zero where it delivered too little");
    vc_assert(g.stop || g.off == c.size, "everything the functor has to deliver is fetched");
}
// contract of WriteSubBlkDataGeneric (H_generic), for functors which deliver everything at once
static size_t c_generic(const CWriterUtils::WriteInfo&, u64 pos, size_t size, GF* fn, const char*)
{
    const void* p = nullptr; size_t n = 0; bool b = (*fn)(0, 0, p, n); vc_assert(b && n == size, "the functor delivers the payload"); u64 w;
    fwrite_(g_f, pos, p, size, &w); return size;
}
// ---------------------------------------------------------------- the dimension entries of a subblock
struct Dims { int n; DimensionIndex d[9]; i32 v[9]; };
static Dims g_d;
static const char kLetter[10] = { 0, 'Z', 'C', 'T', 'R', 'S', 'I', 'H', 'V', 'B' };
// contracts (H_coord_enum, H_dimension_letter)
static void c_enumdims(const CDimCoordinate*, const std::function<bool(DimensionIndex, int)>& f) { for (int i = 0; i < 9; ++i) { if (i >= g_d.n) break; if (!f(g_d.d[i], g_d.v[i])) break; } }
static int c_countdims(const CDimCoordinate*) { return g_d.n; }
static char c_letter(DimensionIndex d) { u8 i = (u8)d; vc_assert(i >= 1 && i <= 9, "a dimension of the coordinate"); return kLetter[i]; }
static void mkdims(CDimCoordinate& c, int n)
{
    g_d.n = n; int last = 0;
    for (int i = 0; i < n; ++i)
    {
        u8 d = VC_U8("dim", 1, 9); if (!vc_is_proof()) { d = 1 + d % 9; if (d <= last) d = last + 1; }
        vc_assume(d > last && d <= 9 - (n - 1 - i)); last = d; g_d.d[i] = (DimensionIndex)d; g_d.v[i] = vc_i32("value"); if (!vc_is_proof()) c.Set(g_d.d[i], g_d.v[i]);
    }
    if (vc_is_proof()) { vc_replace_name("^_ZNK6libCZI14CDimCoordinate19EnumValidDimensions", (void*)&c_enumdims); vc_replace_name("^_ZNK6libCZI14CDimCoordinate23GetValidDimensionsCount", (void*)&c_countdims); vc_replace((void*)&Utils::DimensionToChar, (void*)&c_letter); }
}
struct E { bool mv; i32 m, x, y, w, h, pw, ph; };
static void entry(const u8* h, const E& e, int n)
{
    int k = 0; const u8* d = h + 32;
    vc_assert(h[0] == 'D' && h[1] == 'V', "schema"); vc_assert((i32)rd(h, 28, 4) == n + (e.mv ? 3 : 2), "the number of dimension entries"); vc_assert(rd(h, 14, 4) == 0, "file part");
    vc_assert(rd(d, 0, 4) == 'X' && (i32)rd(d, 4, 4) == e.x && (i32)rd(d, 8, 4) == e.w && rd(d, 12, 4) == 0 && (i32)rd(d, 16, 4) == e.pw, "X: position, logical and physical width"); d += 20;
    vc_assert(rd(d, 0, 4) == 'Y' && (i32)rd(d, 4, 4) == e.y && (i32)rd(d, 8, 4) == e.h && rd(d, 12, 4) == 0 && (i32)rd(d, 16, 4) == e.ph, "Y: position, logical and physical height"); d += 20;
    if (e.mv) { vc_assert(rd(d, 0, 4) == 'M' && (i32)rd(d, 4, 4) == e.m && rd(d, 8, 4) == 1 && rd(d, 12, 4) == 0 && rd(d, 16, 4) == 1, "M: mosaic index"); d += 20; }
    for (k = 0; k < n; ++k) { vc_assert(rd(d, 0, 4) == (u8)kLetter[(int)g_d.d[k]] && (i32)rd(d, 4, 4) == g_d.v[k] && rd(d, 8, 4) == 1 && rd(d, 12, 4) == 0 && rd(d, 16, 4) == 1, "each dimension with its value"); d += 20; }
}
static void mke(E& e, bool mv)
{
    e.mv = mv; e.m = vc_i32("m"); e.x = vc_i32("x"); e.y = vc_i32("y"); e.w = vc_i32("w"); e.h = vc_i32("h"); e.pw = vc_i32("pw"); e.ph = vc_i32("ph");
}
template <int N, bool MV> static inline void filldv()
{
    CCziSubBlockDirectoryBase::SubBlkEntry b; E e; mke(e, MV); b.Invalidate(); mkdims(b.coordinate, N);
    vc_assume(!e.mv || e.m != -0x7fffffff - 1); b.mIndex = e.mv ? e.m : -0x7fffffff - 1; b.x = e.x; b.y = e.y; b.width = e.w; b.height = e.h; b.storedWidth = e.pw; b.storedHeight = e.ph; b.PixelType = vc_i32("pt"); b.FilePosition = vc_u64("fp"); b.Compression = vc_i32("comp"); b.pyramid_type_from_spare = vc_u8("py");
    u64 n = 32 + 20 * (N + (MV ? 3 : 2)); u8* p = (u8*)vc_buf(n, "entry");
    u64 sz = CWriterUtils::CalcSizeOfSubBlockDirectoryEntryDV(b); vc_assert(sz == n, "the size of the entry");
    u64 r = CWriterUtils::FillSubBlockDirectoryEntryDV((SubBlockDirectoryEntryDV*)p, b); vc_cover("done");
    vc_assert(r == n, "the entry has the size it was counted with"); entry(p, e, N);
    vc_assert((i32)rd(p, 2, 4) == b.PixelType && rd(p, 6, 8) == b.FilePosition && (i32)rd(p, 18, 4) == b.Compression, "pixel type, position and compression"); vc_assert(p[22] == b.pyramid_type_from_spare && rd(p, 23, 5) == 0, "pyramid type");
}
#define FD(n) extern "C" void H_filldv_##n() { if (vc_bool("mv")) filldv<n, true>(); else filldv<n, false>(); }
FD(0) FD(1) FD(2) FD(3) FD(4) FD(5) FD(6) FD(7) FD(8) FD(9)
// ---------------------------------------------------------------- subblock segment
template <int N, bool MV> static inline void wsb(bool spec)
{
    AddSubBlockInfo a; a.Clear(); E e; mke(e, MV); mkdims(a.coordinate, N);
    u64 nm = VC_U64("nm", 0, 90), nd = VC_U64("nd", 0, 90), na = VC_U64("na", 0, 90); const u64 L = vc_is_proof() ? 1ull << 40 : 5000; vc_assume(nm <= L && nd <= L && na <= L);
    const u8* pm = (const u8*)vc_buf(nm, "meta"); const u8* pd = (const u8*)vc_buf(nd, "data"); const u8* pa = (const u8*)vc_buf(na, "att");
    a.mIndexValid = e.mv; a.mIndex = e.m; a.x = e.x; a.y = e.y; a.logicalWidth = e.w; a.logicalHeight = e.h; a.physicalWidth = e.pw; a.physicalHeight = e.ph;
    u8 pt = VC_U8("pt", 0, 5); vc_assume(pt <= 4 || pt == 9); a.PixelType = (PixelType)pt; a.compressionModeRaw = vc_i32("comp"); u8 py = VC_U8("py", 0, 2); vc_assume(py <= 2); a.pyramid_type = (SubBlockPyramidType)py;
    a.sizeMetadata = nm; a.sizeData = nd; a.sizeAttachment = na;
    a.getMetaData = [pm, nm](int i, size_t, const void*& p, size_t& n)->bool { if (i) return false; p = pm; n = nm; return true; };
    a.getData = [pd, nd](int i, size_t, const void*& p, size_t& n)->bool { if (i) return false; p = pd; n = nd; return true; };
    a.getAttachment = [pa, na](int i, size_t, const void*& p, size_t& n)->bool { if (i) return false; p = pa; n = na; return true; };
    const u64 H = 80 + 20 * (N + (MV ? 3 : 2)) > 288 ? 80 + 20 * (N + (MV ? 3 : 2)) : 288;
    F f; S s; u8 head[320]; mkf(f, s, head, H + nm + nd + na + 40); use_zeroes(f); use_align(); if (vc_is_proof()) vc_replace_name("WriteSubBlkDataGeneric", (void*)&c_generic);
    CWriterUtils::WriteInfo wi; wi.segmentPos = f.pos; wi.writeFunc = wf(f); wi.useSpecifiedAllocatedSize = spec; u64 sp = VC_U64("sp", 256, 700); wi.specifiedAllocatedSize = sp; vc_assume(sp <= (vc_is_proof() ? 1ull << 60 : 100000));
    u64 r = 0; bool threw = false; try { r = CWriterUtils::WriteSubBlock(wi, a); } catch (std::exception&) { threw = true; }
    u64 used = H - 32 + nm + nd + na;
    if (threw) { vc_cover("threw"); vc_assert(nm > 0x7fffffff || na > 0x7fffffff || (spec && used > sp), "only what does not fit is refused"); vc_assert(s.end == f.pos && !s.hit, "nothing is written when refused"); return; }
    vc_cover("done"); vc_assert(nm <= 0x7fffffff && na <= 0x7fffffff, "the sizes can be represented in the segment");
    u64 alloc = rd(head, 16, 8);
    vc_assert(s.nhead >= 288, "the head of the segment is written"); if (s.nhead < 288) return;
    vc_assert(rd(head, 0, 8) == rd((const u8*)"ZISRAWSU", 0, 8) && rd(head, 8, 8) == rd((const u8*)"BBLOCK\0\0", 0, 8), "magic");
    vc_assert(rd(head, 24, 8) == used, "used size"); vc_assert(alloc >= used && (spec ? alloc == sp : aligned(alloc, used)), "allocated size");
    vc_assert(rd(head, 32, 4) == nm && rd(head, 36, 4) == na && rd(head, 40, 8) == nd, "payload sizes");
    vc_assert((i32)rd(head, 50, 4) == (pt == 0 ? 0 : pt == 1 ? 1 : pt == 2 ? 2 : pt == 3 ? 3 : pt == 4 ? 4 : 9), "pixel type"); vc_assert(rd(head, 54, 8) == f.pos, "position"); vc_assert((i32)rd(head, 66, 4) == a.compressionModeRaw, "compression"); vc_assert(head[70] == py && rd(head, 71, 5) == 0, "pyramid type");
    entry(head + 48, e, N);
    vc_assert(s.seq && s.end == f.pos + 32 + alloc, "the segment is written without gap, exactly to its end"); vc_assert(r == 32 + alloc, "the result is the size of the segment");
    u64 o = f.g - f.pos; bool inside = f.g >= f.pos && o < 32 + alloc;
    if (f.g < f.pos) vc_assert(!s.hit, "no byte before the segment is written"); else if (!inside) vc_assert(!s.hit, "no byte behind the segment is written"); else vc_assert(s.hit, "every byte of the segment is written");
    if (inside && o >= H)
    {
        u64 q = o - H;
        if (q < nm) vc_assert(s.val == pm[q], "first the metadata");
        else if (q - nm < nd) vc_assert(s.val == pd[q - nm], "then the pixel data");
        else if (q - nm - nd < na) vc_assert(s.val == pa[q - nm - nd], "then the attachment");
        else vc_assert(s.val == 0, "then zeroes");
    }
}
#define WS(n) extern "C" void H_wsb_##n() { wsb<n, false>(false); } extern "C" void H_wsbm_##n() { wsb<n, true>(false); } extern "C" void H_wsbin_##n() { wsb<n, false>(true); } extern "C" void H_wsbinm_##n() { wsb<n, true>(true); }
WS(0) WS(1) WS(2) WS(3) WS(4) WS(5) WS(6) WS(7) WS(8) WS(9)
// ---------------------------------------------------------------- attachment segment
static void chk_magic(const u8* h, const char* m, int n) { for (int i = 0; i < 16; ++i) vc_assert(h[i] == (i < n ? (u8)m[i] : 0), "magic"); }
static inline void watt(bool spec)
{
    AddAttachmentInfo a; u64 n = VC_U64("n", 0, 200); vc_assume(n <= (vc_is_proof() ? 0xffffffffull : 20000)); const u8* p = (const u8*)vc_buf(n, "data");
    a.ptrData = p; a.dataSize = (u32)n; a.contentGuid.Data1 = vc_u32("g1"); a.contentGuid.Data2 = vc_u16("g2"); a.contentGuid.Data3 = vc_u16("g3"); for (int i = 0; i < 8; ++i) a.contentGuid.Data4[i] = vc_u8("g4");
    u8 t = VC_U8("t", 0, 79); vc_assume(t < 80); for (int i = 0; i < 8; ++i) a.contentFileType[i] = vc_u8("type"); u8* nm = (u8*)vc_buf(80, "name"); memcpy(a.name, nm, 80);
    F f; S s; u8 head[320]; mkf(f, s, head, n + 340); use_zeroes(f); use_align();
    CWriterUtils::WriteInfo wi; wi.segmentPos = f.pos; wi.writeFunc = wf(f); wi.useSpecifiedAllocatedSize = spec; u64 sp = VC_U64("sp", 256, 700); wi.specifiedAllocatedSize = sp; vc_assume(sp <= (vc_is_proof() ? 1ull << 60 : 100000)); vc_assume(!spec || sp >= 256 + n);
    u64 need, al; CWriterUtils::CalculateSegmentDataSize(a, &al, &need); vc_assert(need == 256 + n && aligned(al, need), "the size calculated beforehand");
    u64 r = CWriterUtils::WriteAttachment(wi, a); vc_cover("done");
    u64 alloc = rd(head, 16, 8); vc_assert(s.nhead == 288, "the head of the segment is written"); chk_magic(head, "ZISRAWATTACH", 12);
    vc_assert(rd(head, 24, 8) == 256 + n, "used size"); vc_assert(alloc >= 256 + n && (spec ? alloc == sp : aligned(alloc, 256 + n)), "allocated size"); vc_assert(rd(head, 32, 8) == n, "data size");
    vc_assert(head[48] == 'A' && head[49] == '1' && rd(head, 60, 8) == f.pos && rd(head, 68, 4) == 0, "schema and position");
    vc_assert(rd(head, 72, 4) == a.contentGuid.Data1 && rd(head, 76, 2) == a.contentGuid.Data2 && rd(head, 78, 2) == a.contentGuid.Data3, "identifier"); for (int i = 0; i < 8; ++i) vc_assert(head[80 + i] == a.contentGuid.Data4[i], "identifier");
    for (int i = 0; i < 8; ++i) vc_assert(head[88 + i] == (u8)a.contentFileType[i], "content type"); vc_assert(head[96 + t] == nm[t], "name");
    vc_assert(s.seq && s.end == f.pos + 32 + alloc, "the segment is written without gap, exactly to its end"); vc_assert(r == 32 + alloc, "the result is the size of the segment");
    u64 o = f.g - f.pos; bool inside = f.g >= f.pos && o < 32 + alloc;
    if (f.g < f.pos) vc_assert(!s.hit, "no byte before the segment is written"); else if (!inside) vc_assert(!s.hit, "no byte behind the segment is written"); else vc_assert(s.hit, "every byte of the segment is written");
    if (inside && o >= 288) { if (o - 288 < n) vc_assert(s.val == p[o - 288], "the data"); else vc_assert(s.val == 0, "then zeroes"); }
}
extern "C" void H_watt() { watt(false); }
extern "C" void H_wattin() { watt(true); }
// ---------------------------------------------------------------- metadata segment
extern "C" void H_checkmeta()
{
    WriteMetadataInfo m; m.Clear(); m.szMetadataSize = vc_u64("nx"); m.attachmentSize = vc_u64("na"); char c; m.szMetadata = vc_bool("p") ? &c : nullptr; m.ptrAttachment = vc_bool("q") ? &c : nullptr;
    bool t = false; try { CWriterUtils::CheckWriteMetadataArguments(m); } catch (std::invalid_argument&) { t = true; }
    if (t) vc_cover("refused"); else vc_cover("ok");
    vc_assert(t == ((m.szMetadataSize > 0 && !m.szMetadata) || (m.attachmentSize > 0 && !m.ptrAttachment) || m.szMetadataSize > 0x7fffffff || m.attachmentSize > 0x7fffffff), "exactly what cannot be stored is refused");
}
// two positions: that of an existing segment of the same kind, and the one for a new segment
struct Two { bool re, mark; u64 pe, se, pn; };
static void mk2(Two& w, F& f)
{
    w.re = vc_bool("re"); w.mark = vc_bool("mark"); w.pe = VC_U64("pe", 1, 9000); w.se = VC_U64("se", 0, 900); w.pn = f.pos; const u64 L = vc_is_proof() ? 1ull << 59 : 100000; vc_assume(w.pe <= L && w.se <= L); if (w.se == 0) w.pe = 0;
    if (!vc_is_proof()) { u64 d = f.g - f.pos; w.pn += w.pe + w.se + 32; f.g = (w.re ? w.pe : w.pn) + d; }
    vc_assume(w.pn > 0); vc_assume(w.se == 0 || (w.pe > 0 && w.pe + w.se + 32 <= w.pn));   // a new segment lies behind all existing ones
    f.pos = w.re ? w.pe : w.pn; f.del = w.re || w.se == 0 ? ~0ull : w.pe; f.s->end = f.pos;
}
static void chk2(const Two& w, const S& s, u64 need)
{
    if (w.re) vc_assert(w.se >= need, "an existing segment is used again only if it is large enough");
    else { vc_assert(s.deleted == (w.mark && w.se > 0), "an existing segment which is not used again is marked as deleted, if asked for"); }
}
extern "C" void H_wmeta()
{
    WriteMetadataInfo m; m.Clear(); u64 nx = VC_U64("nx", 0, 200), na = VC_U64("na", 0, 200); const u64 L = vc_is_proof() ? 0x7fffffff : 20000; vc_assume(nx <= L && na <= L); const u8* px = (const u8*)vc_buf(nx, "xml"); const u8* pa = (const u8*)vc_buf(na, "att");
    m.szMetadata = (const char*)px; m.szMetadataSize = nx; m.ptrAttachment = pa; m.attachmentSize = na;
    F f; S s; u8 head[320]; mkf(f, s, head, nx + na + 340); Two w; mk2(w, f); use_zeroes(f); use_align();
    CWriterUtils::MetadataWriteInfo wi; wi.markAsDeletedIfExistingSegmentIsNotUsed = w.mark; wi.existingSegmentPos = w.pe; wi.sizeExistingSegmentPos = w.se; wi.segmentPosForNewSegment = w.pn; wi.writeFunc = wf(f);
    auto r = CWriterUtils::WriteMetadata(wi, m); u64 rp = std::get<0>(r), alloc = std::get<1>(r);
    vc_assert(rp == w.pe || rp == w.pn, "the segment is at the existing or at the new position"); vc_assume(rp == f.pos); if (w.re) vc_cover("reused"); else vc_cover("new");
    u64 used = 256 + nx + na; chk2(w, s, used);
    vc_assert(s.nhead == 288, "the head of the segment is written"); chk_magic(head, "ZISRAWMETADATA", 14);
    vc_assert(rd(head, 16, 8) == alloc && rd(head, 24, 8) == used && alloc >= used && (w.re ? alloc == w.se : aligned(alloc, used)), "used and allocated size"); vc_assert(rd(head, 32, 4) == nx && rd(head, 36, 4) == na, "sizes of XML and attachment");
    vc_assert(s.seq && s.end == f.pos + 32 + alloc, "the segment is written without gap, exactly to its end");
    u64 o = f.g - f.pos; bool inside = f.g >= f.pos && o < 32 + alloc;
    if (f.g < f.pos) vc_assert(!s.hit, "no byte before the segment is written"); else if (!inside) vc_assert(!s.hit, "no byte behind the segment is written"); else vc_assert(s.hit, "every byte of the segment is written");
    if (inside && o >= 288) { if (o - 288 < nx) vc_assert(s.val == px[o - 288], "the XML"); else if (o - 288 - nx < na) vc_assert(s.val == pa[o - 288 - nx], "the attachment"); else vc_assert(s.val == 0, "then zeroes"); }
}
// ---------------------------------------------------------------- directories: any number of entries, an arbitrary (ghost) entry j and byte t of it
static u8* g_mal; static u64 g_maln;
static void* c_malloc(size_t n) { g_maln = n; g_mal = (u8*)vc_buf(n, "mal"); return g_mal; }
typedef CCziAttachmentsDirectoryBase::AttachmentEntry AE; typedef CCziSubBlockDirectoryBase::SubBlkEntry SE;
struct AD { u64 n, j; u32 t; const u8* e; };
static u8 att_byte(const u8* e, u32 t)   // byte t of the directory entry for an attachment
{
    const AE* a = (const AE*)e;
    return t == 0 ? 'A' : t == 1 ? '1' : t < 12 ? 0 : t < 20 ? ((const u8*)&a->FilePosition)[t - 12] : t < 24 ? 0 : t < 40 ? ((const u8*)&a->ContentGuid)[t - 24] : t < 48 ? (u8)a->ContentFileType[t - 40] : (u8)a->Name[t - 48];
}
extern "C" void H_wattdir()
{
    AD d; d.n = VC_U64("n", 0, 9); vc_assume(d.n <= (vc_is_proof() ? 0x7fffffffull : 50)); d.e = (const u8*)vc_buf(d.n * sizeof(AE), "entries"); d.j = VC_U64("j", 0, 8); d.t = VC_U32("t", 0, 127); vc_assume(d.t < 128);
    F f; S s; u8 head[320]; mkf(f, s, head, d.n * 128 + 340); if (!vc_is_proof() && d.n) { d.j %= d.n; f.g = f.pos + 288 + d.j * 128 + d.t; } Two w; mk2(w, f); use_zeroes(f); use_align(); if (vc_is_proof()) vc_replace((void*)&malloc, (void*)&c_malloc);
    AD* q = &d;
    CWriterUtils::AttachmentDirWriteInfo wi; wi.markAsDeletedIfExistingSegmentIsNotUsed = w.mark; wi.existingSegmentPos = w.pe; wi.sizeExistingSegmentPos = w.se; wi.segmentPosForNewSegment = w.pn; wi.entryCnt = d.n; wi.writeFunc = wf(f);
    wi.enumEntriesFunc = [q](const std::function<void(size_t, const AE&)>& fn) { for (u64 i = 0; i < q->n; ++i) fn((size_t)i, *(const AE*)(q->e + i * sizeof(AE))); };
    struct I { static bool inv(void* c, u64 k, u64) { AD* d = (AD*)c; return k <= d->n && (d->j >= k || g_mal[d->j * 128 + d->t] == att_byte(d->e + d->j * sizeof(AE), d->t)); } };
    vc_loop_inv(0, I::inv, &d, "entries so far");
    auto r = CWriterUtils::WriteAttachmentDirectory(wi); vc_loop_clear(); u64 rp = std::get<0>(r), alloc = std::get<1>(r);
    vc_assert(rp == w.pe || rp == w.pn, "the segment is at the existing or at the new position"); vc_assume(rp == f.pos); if (w.re) vc_cover("reused"); else vc_cover("new");
    u64 used = 256 + d.n * 128; chk2(w, s, used);
    vc_assert(s.nhead == 288, "the head of the segment is written"); chk_magic(head, "ZISRAWATTDIR", 12);
    vc_assert(rd(head, 16, 8) == alloc && rd(head, 24, 8) == used && alloc >= used && (w.re ? alloc == w.se : aligned(alloc, used)), "used and allocated size"); vc_assert(rd(head, 32, 4) == d.n, "number of entries");
    vc_assert(s.seq && s.end == f.pos + 32 + alloc, "the segment is written without gap, exactly to its end");
    u64 o = f.g - f.pos; bool inside = f.g >= f.pos && o < 32 + alloc;
    if (f.g < f.pos) vc_assert(!s.hit, "no byte before the segment is written"); else if (!inside) vc_assert(!s.hit, "no byte behind the segment is written"); else vc_assert(s.hit, "every byte of the segment is written");
    if (d.j < d.n && o == 288 + d.j * 128 + d.t && f.g >= f.pos) { vc_cover("entry"); vc_assert(s.val == att_byte(d.e + d.j * sizeof(AE), d.t), "each entry with its position, identifier, type and name"); }
    if (inside && o >= 288 + d.n * 128) vc_assert(s.val == 0, "then zeroes");
}
struct SD { u64 n, j; u32 t; u8 b; const u64* pre; int phase; u64 cur; };
static SD* g_sd;
// contracts of CalcSizeOfSubBlockDirectoryEntryDV and FillSubBlockDirectoryEntryDV (H_filldv_*): the entry has the size which was calculated for it; byte t of entry j is b
static size_t c_calc(const SE& e) { u64 i = e.FilePosition; return g_sd->pre[i + 1] - g_sd->pre[i]; }
static size_t c_filldv(u8* p, const SE& e)
{
    u64 i = e.FilePosition, n = g_sd->pre[i + 1] - g_sd->pre[i]; vc_writable(p, n, "there is room for the entry"); vc_havoc(p, n);
    if (i == g_sd->j && g_sd->t < n) p[g_sd->t] = g_sd->b;
    return n;
}
extern "C" void H_wsbdir()
{
    SD d; g_sd = &d; d.n = VC_U64("n", 0, 9); vc_assume(d.n <= (vc_is_proof() ? 0x7fffffull : 40)); d.j = VC_U64("j", 0, 8); d.t = VC_U32("t", 0, 100); d.b = vc_u8("b"); d.phase = 0; d.cur = 0;
    u64* pre = (u64*)vc_buf((d.n + 1) * 8, "pre"); d.pre = pre; std::vector<SE>* real = nullptr;
    if (!vc_is_proof())
    {
        real = new std::vector<SE>(); pre[0] = 0; if (d.n) d.j %= d.n;
        for (u64 i = 0; i < d.n; ++i) { SE e; e.Invalidate(); e.x = vc_i32("x"); e.y = vc_i32("y"); e.width = vc_i32("w"); e.height = vc_i32("h"); e.storedWidth = vc_i32("pw"); e.storedHeight = vc_i32("ph"); e.PixelType = vc_i32("pt"); e.FilePosition = vc_u64("fp"); e.Compression = vc_i32("co"); e.pyramid_type_from_spare = vc_u8("py"); if (vc_bool("mv")) e.mIndex = VC_I32("m", 0, 9); u8 nd = VC_U8("nd", 0, 9) % 10; for (int q = 1; q <= nd; ++q) e.coordinate.Set((DimensionIndex)q, vc_i32("v")); real->push_back(e); pre[i + 1] = pre[i] + 32 + 20 * (nd + (e.IsMIndexValid() ? 3 : 2)); }
        if (d.n) { u64 sz = pre[d.j + 1] - pre[d.j]; d.t %= sz; u8 tmp[300]; CWriterUtils::FillSubBlockDirectoryEntryDV((SubBlockDirectoryEntryDV*)tmp, (*real)[d.j]); d.b = tmp[d.t]; }
    }
    else { vc_assume(pre[0] == 0); if (d.j < d.n) vc_assume(pre[d.j + 1] >= pre[d.j] && pre[d.j + 1] - pre[d.j] > d.t); }
    F f; S s; u8 head[320]; mkf(f, s, head, 200); if (!vc_is_proof() && d.n) f.g = f.pos + (VC_U8("gg", 0, 9) == 0 ? 160 + pre[d.n] + f.g % 300 : 160 + pre[d.j] + d.t); Two w; mk2(w, f); use_zeroes(f); use_align();
    if (vc_is_proof()) { vc_replace((void*)&malloc, (void*)&c_malloc); vc_replace((void*)&CWriterUtils::CalcSizeOfSubBlockDirectoryEntryDV, (void*)&c_calc); vc_replace((void*)&CWriterUtils::FillSubBlockDirectoryEntryDV, (void*)&c_filldv); }
    SD* q = &d;
    CWriterUtils::SubBlkDirWriteInfo wi; wi.markAsDeletedIfExistingSegmentIsNotUsed = w.mark; wi.existingSegmentPos = w.pe; wi.sizeExistingSegmentPos = w.se; wi.segmentPosForNewSegment = w.pn; wi.writeFunc = wf(f);
    wi.enumEntriesFunc = [q, real](const std::function<void(size_t, const SE&)>& fn) { q->phase++; if (real) { for (size_t i = 0; i < real->size(); ++i) fn(i, (*real)[i]); return; } SE e; for (u64 i = 0; i < q->n; ++i) { e.FilePosition = i; fn((size_t)i, e); } };
    struct I {
        static bool inv(void* c, u64 k, u64) { SD* d = (SD*)c; return k <= d->n && d->pre[k] <= 272 * k && (d->j >= k || d->pre[k] >= d->pre[d->j + 1]) && (d->phase == 1 || d->j >= k || g_mal[160 + d->pre[d->j] + d->t] == d->b) && (d->phase == 1 || (g_maln == 160 + d->pre[d->n] && rd(g_mal, 0, 8) == rd((const u8*)"ZISRAWDI", 0, 8) && rd(g_mal, 8, 8) == rd((const u8*)"RECTORY", 0, 8) && rd(g_mal, 16, 8) == g_al && rd(g_mal, 24, 8) == 128 + d->pre[d->n] && rd(g_mal, 32, 4) == k)); }
        static bool ax(void* c, u64 k, u64) { SD* d = (SD*)c; return k >= d->n || (d->pre[k + 1] >= d->pre[k] + 72 && d->pre[k + 1] <= d->pre[k] + 272 && d->pre[k + 1] <= d->pre[d->n]); }
        static u64 sum(void* c, u64 k, u64) { return ((SD*)c)->pre[k]; } };
    vc_loop_inv(0, I::inv, &d, "entries so far"); vc_assume_forall(0, I::ax, &d); vc_loop_val(0, I::sum, &d);
    auto r = CWriterUtils::WriteSubBlkDirectory(wi); vc_loop_clear(); u64 rp = std::get<0>(r), alloc = std::get<1>(r);
    vc_assert(rp == w.pe || rp == w.pn, "the segment is at the existing or at the new position"); vc_assume(rp == f.pos); if (w.re) vc_cover("reused"); else vc_cover("new");
    u64 T = d.pre[d.n], used = 128 + T; chk2(w, s, used); const u8* h = vc_is_proof() ? g_mal : head;
    if (vc_is_proof() || s.nhead)   // (natively, only short directories are captured)
    {
        chk_magic(h, "ZISRAWDIRECTORY", 15);
        vc_assert(rd(h, 16, 8) == alloc && rd(h, 24, 8) == used && alloc >= used && (w.re ? alloc == w.se : aligned(alloc, used)), "used and allocated size"); vc_assert(rd(h, 32, 4) == d.n, "number of entries");
    }
    vc_assert(s.seq && s.end == f.pos + 32 + alloc, "the segment is written without gap, exactly to its end");
    u64 o = f.g - f.pos; bool inside = f.g >= f.pos && o < 32 + alloc;
    if (f.g < f.pos) vc_assert(!s.hit, "no byte before the segment is written"); else if (!inside) vc_assert(!s.hit, "no byte behind the segment is written"); else vc_assert(s.hit, "every byte of the segment is written");
    if (d.j < d.n && f.g >= f.pos && o == 160 + d.pre[d.j] + d.t) { vc_cover("entry"); vc_assert(s.val == d.b, "each entry follows the one before, with its own bytes"); }
    if (inside && o >= 160 + T) vc_assert(s.val == 0, "then zeroes");
    delete real;
}
