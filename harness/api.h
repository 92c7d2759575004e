// Public-interface toolkit for the bounded stand-ins: an in-memory stream, a random document model and a comparison of a
// document with the model.  Everything is derived from one input "seed", so a failing run replays from one number.
#pragma once
#include "vc.h"
#include "libCZI.h"
#include <vector>
#include <string>
#include <map>
#include <set>
#include <memory>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
namespace api {
using namespace libCZI;
using std::vector; using std::string; using std::shared_ptr;
typedef vector<uint8_t> bytes;
struct Rng
{
    uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)((int64_t)hi - lo + 1)); }
    bool p(int percent) { return in(0, 99) < percent; }
    bytes data(size_t n) { bytes b(n); bool z = p(10); for (auto& x : b) x = z ? 0 : (uint8_t)next(); return b; }
    template <class T> const T& pick(const vector<T>& v) { return v[in(0, (int)v.size() - 1)]; }
};
inline Rng make_rng() { return Rng(vc_u64("seed")); }

struct MemStream : IInputOutputStream
{
    bytes d; uint64_t maxend = 0; uint64_t limit = 64u << 20;
    void Read(uint64_t off, void* pv, uint64_t size, uint64_t* n) override
    {
        uint64_t k = 0;
        if (off < d.size()) k = std::min<uint64_t>(size, d.size() - off);
        if (k) memcpy(pv, d.data() + off, k);
        if (n) *n = k;
    }
    void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* n) override
    {
        vc_assert(off <= limit && size <= limit, "no write far beyond the document");
        if (off + size > d.size()) d.resize(off + size, 0xCD);
        if (size) memcpy(d.data() + off, pv, size);
        maxend = std::max<uint64_t>(maxend, off + size);
        if (n) *n = size;
    }
};

struct MSub
{
    CDimCoordinate c; bool mv = false; int m = 0; int x = 0, y = 0, lw = 1, lh = 1, pw = 1, ph = 1;
    PixelType pt = PixelType::Gray8; int comp = 0; SubBlockPyramidType py = SubBlockPyramidType::None;
    bytes data, meta, att;
};
struct MAtt { GUID g; string type, name; bytes data; };
struct MDoc { vector<MSub> subs; vector<MAtt> atts; bool has_meta = false; string xml; bytes xmlatt; GUID guid; };

static const DimensionIndex kDims[] = { DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B };
inline int bpp(PixelType t) { switch (t) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: case PixelType::Bgra32: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; default: return 0; } }
inline bool coord_eq(const CDimCoordinate& a, const CDimCoordinate& b)
{
    for (DimensionIndex d : kDims) { int x = 0, y = 0; bool p = a.TryGetPosition(d, &x), q = b.TryGetPosition(d, &y); if (p != q || (p && x != y)) return false; }
    return true;
}
inline size_t some_size(Rng& r) { switch (r.in(0, 9)) { case 0: case 1: return 0; case 2: return r.in(4000, 4200); case 3: return r.in(8100, 20000); case 4: return r.in(1, 32); case 5: return r.in(200, 300); default: return r.in(1, 600); } }
inline GUID some_guid(Rng& r) { GUID g; g.Data1 = (uint32_t)r.next(); g.Data2 = (uint16_t)r.next(); g.Data3 = (uint16_t)r.next(); for (auto& x : g.Data4) x = (uint8_t)r.next(); return g; }
inline CDimCoordinate some_coord(Rng& r, int spread)
{
    CDimCoordinate c;
    for (DimensionIndex d : kDims)
        if (r.p(d == DimensionIndex::C ? 85 : d == DimensionIndex::S || d == DimensionIndex::T ? 40 : 15)) c.Set(d, r.p(5) ? r.in(-100000, 100000) : r.in(0, spread));
    return c;
}
// arbitrary subblock (any compression code, any payload)
inline MSub some_sub(Rng& r, int spread = 3)
{
    MSub s; s.c = some_coord(r, spread); s.mv = r.p(70); s.m = s.mv ? (r.p(4) ? r.in(0, 2000000000) : r.in(0, 12)) : 0;
    int f[] = { 1, 1, 1, 2, 4, 3, 9 };
    s.x = r.p(6) ? r.in(-1000000000, 1000000000) : r.in(-300, 300); s.y = r.p(6) ? r.in(-1000000000, 1000000000) : r.in(-300, 300);
    s.pw = r.in(1, 64); s.ph = r.in(1, 64); int q = f[r.in(0, 6)]; s.lw = s.pw * q; s.lh = s.ph * q;
    if (r.p(5)) { s.lw = r.in(1, 100000); s.lh = r.in(1, 100000); }
    static const vector<PixelType> pts = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgr96Float, PixelType::Bgra32, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat, PixelType::Gray32, PixelType::Gray64Float };
    s.pt = r.pick(pts);
    static const vector<int> comps = { 0, 0, 1, 2, 4, 5, 6, 100, 1000, 0x7fffffff, -5 };
    s.comp = r.pick(comps);
    s.py = (SubBlockPyramidType)(r.p(60) ? 0 : r.in(1, 2));
    s.data = r.data(some_size(r)); s.meta = r.data(r.p(40) ? some_size(r) : 0); s.att = r.data(r.p(30) ? some_size(r) : 0);
    return s;
}
inline MAtt some_att(Rng& r)
{
    MAtt a; a.g = some_guid(r); static const vector<string> ts = { "CZTIMS", "JPG", "CZI", "", "ABCDEFGH", "ABCDEFG", "x" };
    a.type = r.pick(ts);
    int n = r.p(10) ? r.in(77, 79) : r.in(0, 20); for (int i = 0; i < n; ++i) a.name += (char)r.in('A', 'F');
    a.data = r.data(some_size(r)); return a;
}
inline void fill_base(AddSubBlockInfoBase& i, const MSub& s)
{
    i.Clear(); i.coordinate = s.c; i.mIndexValid = s.mv; i.mIndex = s.mv ? s.m : 0; i.x = s.x; i.y = s.y; i.logicalWidth = s.lw; i.logicalHeight = s.lh;
    i.physicalWidth = s.pw; i.physicalHeight = s.ph; i.PixelType = s.pt; i.compressionModeRaw = s.comp; i.pyramid_type = s.py;
}
inline std::function<bool(int, size_t, const void*&, size_t&)> feeder(shared_ptr<bytes> b, int chunk, int* calls)
{
    return [b, chunk, calls](int cnt, size_t off, const void*& p, size_t& n) -> bool
    {
        (void)calls; (void)cnt; if (off >= b->size()) return false;
        p = b->data() + off; n = chunk > 0 ? std::min<size_t>(chunk, b->size() - off) : b->size() - off; return true;
    };
}
// adds through one of the interfaces; T is ICziWriter or ICziReaderWriter (with key >= 0: replace)
inline void put(ICziWriter* w, const AddSubBlockInfo& i, int) { w->SyncAddSubBlock(i); }
inline void put(ICziWriter* w, const AddSubBlockInfoMemPtr& i, int) { w->SyncAddSubBlock(i); }
inline void put(ICziWriter* w, const AddSubBlockInfoStridedBitmap& i, int) { w->SyncAddSubBlock(i); }
inline void put(ICziWriter* w, const AddSubBlockInfoLinewiseBitmap& i, int) { w->SyncAddSubBlock(i); }
inline void put(ICziReaderWriter* w, const AddSubBlockInfo& i, int k) { if (k < 0) w->SyncAddSubBlock(i); else w->ReplaceSubBlock(k, i); }
inline void put(ICziReaderWriter* w, const AddSubBlockInfoMemPtr& i, int k) { if (k < 0) w->SyncAddSubBlock(i); else w->ReplaceSubBlock(k, i); }
inline void put(ICziReaderWriter* w, const AddSubBlockInfoStridedBitmap& i, int k) { if (k < 0) w->SyncAddSubBlock(i); else w->ReplaceSubBlock(k, i); }
inline void put(ICziReaderWriter* w, const AddSubBlockInfoLinewiseBitmap& i, int k) { if (k < 0) w->SyncAddSubBlock(i); else w->ReplaceSubBlock(k, i); }
// s.data may be adjusted (bitmap variants, short callbacks): on return s is what the document has to contain
template <class W> inline void add_sub(W* w, MSub& s, Rng& r, int key = -1)
{
    int v = r.in(0, 9); if (v >= 8 && bpp(s.pt) == 0) v = 0;
    if (v < 4)
    {
        AddSubBlockInfoMemPtr i; fill_base(i, s); i.ptrData = s.data.data(); i.dataSize = (uint32_t)s.data.size();
        i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size(); i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size();
        put(w, i, key);
    }
    else if (v < 8)
    {
        AddSubBlockInfo i; fill_base(i, s); int chunk = r.p(50) ? 0 : r.in(1, 700);
        auto D = std::make_shared<bytes>(s.data), M = std::make_shared<bytes>(s.meta), A = std::make_shared<bytes>(s.att);
        i.sizeData = s.data.size(); i.getData = feeder(D, chunk, nullptr); i.sizeMetadata = s.meta.size(); i.getMetaData = feeder(M, chunk, nullptr); i.sizeAttachment = s.att.size(); i.getAttachment = feeder(A, chunk, nullptr);
        if (r.p(25))   // the callback delivers less than announced: the rest is zero
        {
            bytes& t = r.p(50) ? s.data : r.p(50) ? s.meta : s.att; auto& o = &t == &s.data ? D : &t == &s.meta ? M : A;
            size_t keep = t.empty() ? 0 : r.next() % t.size(); o->resize(keep); std::fill(t.begin() + keep, t.end(), 0);
        }
        put(w, i, key);
    }
    else if (v == 8)
    {
        s.comp = 0; int line = s.pw * bpp(s.pt); int pad = r.p(40) ? 0 : r.in(1, 9);
        bytes b = r.data((size_t)(line + pad) * s.ph); s.data.clear();
        for (int y = 0; y < s.ph; ++y) s.data.insert(s.data.end(), b.begin() + (size_t)y * (line + pad), b.begin() + (size_t)y * (line + pad) + line);
        AddSubBlockInfoStridedBitmap i; fill_base(i, s); i.ptrBitmap = b.data(); i.strideBitmap = line + pad;
        i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size(); i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size();
        put(w, i, key);
    }
    else
    {
        s.comp = 0; int line = s.pw * bpp(s.pt); s.data = r.data((size_t)line * s.ph);
        AddSubBlockInfoLinewiseBitmap i; fill_base(i, s); const bytes* D = &s.data; i.getBitmapLine = [D, line](int y) -> const void* { return D->data() + (size_t)y * line; };
        i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size(); i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size();
        put(w, i, key);
    }
}
inline AddAttachmentInfo att_info(const MAtt& a)
{
    AddAttachmentInfo i; i.Clear(); i.contentGuid = a.g; i.SetContentFileType(a.type.c_str()); i.SetName(a.name.c_str()); i.ptrData = a.data.data(); i.dataSize = (uint32_t)a.data.size(); return i;
}
inline bool guid_eq(const GUID& a, const GUID& b) { return a.Data1 == b.Data1 && a.Data2 == b.Data2 && a.Data3 == b.Data3 && memcmp(a.Data4, b.Data4, 8) == 0; }
inline bool info_eq(const SubBlockInfo& i, const MSub& s)
{
    return coord_eq(i.coordinate, s.c) && i.IsMindexValid() == s.mv && (!s.mv || i.mIndex == s.m) && i.logicalRect.x == s.x && i.logicalRect.y == s.y && i.logicalRect.w == s.lw && i.logicalRect.h == s.lh &&
        (int)i.physicalSize.w == s.pw && (int)i.physicalSize.h == s.ph && i.pixelType == s.pt && i.compressionModeRaw == s.comp && i.pyramidType == s.py;
}
inline bytes raw(ISubBlock* b, ISubBlock::MemBlkType t) { size_t n = 0; auto p = b->GetRawData(t, &n); bytes r; if (p && n) r.assign((const uint8_t*)p.get(), (const uint8_t*)p.get() + n); return r; }
template <class R> inline bytes raw_att(R& a) { size_t n = 0; auto p = a->GetRawData(&n); bytes r; if (p && n) r.assign((const uint8_t*)p.get(), (const uint8_t*)p.get() + n); return r; }
inline bool payload_eq(ISubBlock* b, const MSub& s) { return raw(b, ISubBlock::Data) == s.data && raw(b, ISubBlock::Metadata) == s.meta && raw(b, ISubBlock::Attachment) == s.att; }
inline bool att_info_eq(const AttachmentInfo& i, const MAtt& a) { return guid_eq(i.contentGuid, a.g) && string(i.contentFileType) == a.type && i.name == a.name; }
// the document contains exactly the items of the model; R is ICZIReader or ICziReaderWriter
template <class R> inline void check_doc(R* rd, const MDoc& d, bool payload = true)
{
    vector<bool> used(d.subs.size(), false); int n = 0; std::set<int> ids; vector<std::pair<int, SubBlockInfo>> list;
    rd->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { list.push_back({ i, s }); return true; });
    for (auto& e : list)
    {
        ++n; vc_assert(ids.insert(e.first).second, "each subblock index is reported once");
        shared_ptr<ISubBlock> b; if (payload) { b = rd->ReadSubBlock(e.first); vc_assert((bool)b, "an enumerated subblock can be read"); }
        bool found = false, infofound = false;
        for (size_t k = 0; k < d.subs.size() && !found; ++k)
            if (!used[k] && info_eq(e.second, d.subs[k])) { infofound = true; if (!payload || (info_eq(b->GetSubBlockInfo(), d.subs[k]) && payload_eq(b.get(), d.subs[k]))) { used[k] = true; found = true; } }
        vc_assert(infofound, "a reported subblock is one of those in the document (coordinate, rectangle, type)");
        if (!found && getenv("VCD")) for (auto& q : d.subs) if (info_eq(e.second, q)) { auto& bi = b->GetSubBlockInfo(); fprintf(stderr, "data %d meta %d att %d info %d (py %d %d pt %d %d m %d %d comp %d %d rect %d,%d,%d,%d vs %d,%d,%d,%d phys %u,%u vs %d,%d coord %d) sizes %zu %zu %zu vs %zu %zu %zu\n", raw(b.get(), ISubBlock::Data) == q.data, raw(b.get(), ISubBlock::Metadata) == q.meta, raw(b.get(), ISubBlock::Attachment) == q.att, info_eq(bi, q), (int)bi.pyramidType, (int)q.py, (int)bi.pixelType, (int)q.pt, bi.mIndex, q.m, bi.compressionModeRaw, q.comp, bi.logicalRect.x, bi.logicalRect.y, bi.logicalRect.w, bi.logicalRect.h, q.x, q.y, q.lw, q.lh, bi.physicalSize.w, bi.physicalSize.h, q.pw, q.ph, coord_eq(bi.coordinate, q.c), raw(b.get(), ISubBlock::Data).size(), raw(b.get(), ISubBlock::Metadata).size(), raw(b.get(), ISubBlock::Attachment).size(), q.data.size(), q.meta.size(), q.att.size()); }
        vc_assert(found, "the subblock's payload is what was written");
        SubBlockInfo t; vc_assert(rd->TryGetSubBlockInfo(e.first, &t), "info by index exists"); bool tf = false; for (auto& s : d.subs) tf = tf || info_eq(t, s);
        vc_assert(tf, "info by index is that of a subblock of the document");
    }
    vc_assert(n == (int)d.subs.size(), "no subblock is missing");
    vector<bool> ua(d.atts.size(), false); int na = 0; vector<std::pair<int, AttachmentInfo>> al; std::set<int> aids;
    rd->EnumerateAttachments([&](int i, const AttachmentInfo& a) { al.push_back({ i, a }); return true; });
    for (auto& e : al)
    {
        ++na; vc_assert(aids.insert(e.first).second, "each attachment index is reported once");
        auto b = rd->ReadAttachment(e.first); vc_assert((bool)b, "an enumerated attachment can be read");
        bool found = false;
        for (size_t k = 0; k < d.atts.size() && !found; ++k)
            if (!ua[k] && att_info_eq(e.second, d.atts[k]) && att_info_eq(b->GetAttachmentInfo(), d.atts[k]) && raw_att(b) == d.atts[k].data) { ua[k] = true; found = true; }
        if (!found && getenv("VCD")) { fprintf(stderr,"type %s name %s size %zu\n", e.second.contentFileType, e.second.name.c_str(), raw_att(b).size()); for (auto& q : d.atts) fprintf(stderr," have %s %s %zu\n", q.type.c_str(), q.name.c_str(), q.data.size()); }
        vc_assert(found, "a reported attachment is one of those in the document, with its data");
        AttachmentInfo t; vc_assert(rd->TryGetAttachmentInfo(e.first, &t), "attachment info by index exists"); vc_assert(guid_eq(t.contentGuid, e.second.contentGuid) && string(t.contentFileType) == e.second.contentFileType && t.name == e.second.name, "attachment info by index agrees with the enumeration");
    }
    vc_assert(na == (int)d.atts.size(), "no attachment is missing"); vc_assert(rd->GetAttachmentCount() == na, "attachment count");
    if (d.has_meta)
    {
        auto m = rd->ReadMetadataSegment(); vc_assert((bool)m, "metadata can be read");
        size_t k = 0; auto p = m->GetRawData(IMetadataSegment::XmlMetadata, &k); vc_assert(k == d.xml.size() && (k == 0 || memcmp(p.get(), d.xml.data(), k) == 0), "metadata XML is what was written");
        k = 0; auto q = m->GetRawData(IMetadataSegment::Attachment, &k); vc_assert(k == d.xmlatt.size() && (k == 0 || memcmp(q.get(), d.xmlatt.data(), k) == 0), "metadata attachment is what was written");
    }
}
inline shared_ptr<ICZIReader> open(shared_ptr<MemStream> s, ICZIReader::OpenOptions* o = nullptr) { auto r = CreateCZIReader(); r->Open(s, o); return r; }

// duplicates the writer has to refuse / must not refuse
inline double zoomf(const MSub& s) { return s.pw > s.ph ? (double)s.pw / s.lw : (double)s.ph / s.lh; }
enum class Dup { No, Yes, Unclear };
inline Dup writer_dup(const MSub& a, const MSub& b)
{
    if (!coord_eq(a.c, b.c)) return Dup::No;
    if (a.mv != b.mv) return Dup::No;
    if (a.mv && a.m != b.m) return Dup::No;
    if (!a.mv && (a.x != b.x || a.y != b.y)) return Dup::No;
    if (a.lw == b.lw && a.lh == b.lh && a.pw == b.pw && a.ph == b.ph) return Dup::Yes;
    auto z = [](const MSub& s) { return (double)s.pw / s.lw; }; double d = z(a) - z(b), d2 = (double)a.ph / a.lh - (double)b.ph / b.lh; if (d < 0) d = -d; if (d2 < 0) d2 = -d2;
    return d > 0.01 && d2 > 0.01 ? Dup::No : Dup::Unclear;
}
inline void some_meta(MDoc& d, Rng& r) { d.has_meta = true; d.xml.clear(); int n = (int)some_size(r); for (int i = 0; i < n; ++i) d.xml += (char)r.in(32, 126); d.xmlatt = r.data(r.p(20) ? some_size(r) : 0); }
inline WriteMetadataInfo meta_info(const MDoc& d) { WriteMetadataInfo i; i.Clear(); i.szMetadata = d.xml.data(); i.szMetadataSize = d.xml.size(); i.ptrAttachment = d.xmlatt.data(); i.attachmentSize = d.xmlatt.size(); return i; }

// a random writing history; returns the expected document
struct Written { shared_ptr<MemStream> s; MDoc d; bool closed = false; };
inline Written write_random(Rng& r, int nsub, int natt, std::function<MSub(Rng&)> gen = nullptr, bool reserve = true)
{
    Written o; o.s = std::make_shared<MemStream>(); o.d.guid = some_guid(r);
    CZIWriterOptions opt; opt.allow_duplicate_subblocks = r.p(15);
    auto w = CreateCZIWriter(&opt); auto wi = std::make_shared<CCziWriterInfo>(o.d.guid);
    if (reserve)
    {
        if (r.p(25)) wi->SetReservedSizeForMetadataSegment(true, r.in(0, 2) ? r.in(0, 5000) : 0);
        if (r.p(25)) wi->SetReservedSizeForSubBlockDirectory(true, r.in(0, 40));
        if (r.p(25)) wi->SetReservedSizeForAttachmentsDirectory(true, r.in(0, 12));
    }
    w->Create(o.s, wi);
    int n = r.in(0, nsub), a = r.in(0, natt); if (r.p(10)) n += r.in(40, 90);
    for (int i = 0; i < n + a; ++i)
    {
        if (r.in(0, n + a - 1) < n)
        {
            MSub s = gen ? gen(r) : some_sub(r); if (!o.d.subs.empty() && r.p(8)) { s = r.pick(o.d.subs); }
            bool yes = false, unclear = false; for (auto& q : o.d.subs) { Dup u = writer_dup(q, s); yes |= u == Dup::Yes; unclear |= u == Dup::Unclear; }
            uint64_t before = o.s->maxend;
            bool ok = true; try { add_sub(w.get(), s, r); } catch (LibCZIWriteException& e) { ok = false; vc_assert(e.GetErrorType() == LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting, "a refused subblock is reported as a duplicate"); }
            if (opt.allow_duplicate_subblocks) vc_assert(ok, "with duplicates allowed no subblock is refused");
            else if (yes) vc_assert(!ok, "a duplicate subblock is refused"); else if (!unclear) vc_assert(ok, "a subblock that is not a duplicate is accepted");
            if (ok) o.d.subs.push_back(s); else vc_assert(o.s->maxend == before, "a refused subblock changes nothing");
        }
        else
        {
            MAtt t = some_att(r); if (!o.d.atts.empty() && r.p(15)) { t = r.pick(o.d.atts); if (r.p(40)) t.name += "x"; if (t.name.size() > 79) t.name.resize(79); if (r.p(20)) t.g = some_guid(r); }
            bool dup = false; for (auto& q : o.d.atts) dup |= guid_eq(q.g, t.g) && q.type == t.type && q.name == t.name;
            uint64_t before = o.s->maxend; bool ok = true; try { w->SyncAddAttachment(att_info(t)); } catch (LibCZIWriteException& e) { ok = false; vc_assert(e.GetErrorType() == LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting, "a refused attachment is reported as a duplicate"); }
            vc_assert(ok != dup, "an attachment is refused exactly if it is a duplicate");
            if (ok) o.d.atts.push_back(t); else vc_assert(o.s->maxend == before, "a refused attachment changes nothing");
        }
        if (r.p(10)) { some_meta(o.d, r); w->SyncWriteMetadata(meta_info(o.d)); }
    }
    if (r.p(50)) { some_meta(o.d, r); w->SyncWriteMetadata(meta_info(o.d)); }
    w->Close();
    return o;
}

// ---------------------------------------------------------------- segment chain
inline int64_t le(const bytes& b, uint64_t o, int n) { vc_assert(o + n <= b.size(), "structure lies inside the file"); uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t)b[o + i] << (8 * i); if (n == 4) return (int32_t)v; return (int64_t)v; }
struct Seg { uint64_t pos; string id; int64_t alloc, used; };
inline void check_chain(const bytes& f, bool edited)
{
    vector<Seg> segs; std::map<uint64_t, size_t> at; uint64_t p = 0;
    vc_assert(f.size() >= 544, "file header is complete");
    auto seg_at = [&](uint64_t q) { Seg s; s.pos = q; const char* c = (const char*)&f[q]; s.id = string(c, strnlen(c, 16)); s.alloc = le(f, q + 16, 8); s.used = le(f, q + 24, 8); return s; };
    uint64_t dirp = le(f, 32 + 52, 8), mdp = le(f, 32 + 60, 8), attp = le(f, 32 + 72, 8);
    static const char* ids[] = { "ZISRAWFILE", "ZISRAWDIRECTORY", "ZISRAWSUBBLOCK", "ZISRAWMETADATA", "ZISRAWATTACH", "ZISRAWATTDIR", "DELETED" };
    auto known = [&](const string& s) { for (auto i : ids) if (s == i) return true; return false; };
    // the live segments
    std::map<uint64_t, string> live; live[0] = "ZISRAWFILE";
    auto want = [&](uint64_t q, const char* id) { vc_assert(live.emplace(q, id).second, "every live segment is referenced once"); };
    if (dirp) want(dirp, "ZISRAWDIRECTORY"); if (mdp) want(mdp, "ZISRAWMETADATA"); if (attp) want(attp, "ZISRAWATTDIR");
    vc_assert(dirp != 0, "the header points to a subblock directory");
    uint64_t e = dirp + 32 + 128; int cnt = (int)le(f, dirp + 32, 4); vc_assert(cnt >= 0, "entry count");
    for (int i = 0; i < cnt; ++i)
    {
        vc_assert(le(f, e, 1) == 'D' && le(f, e + 1, 1) == 'V', "directory entry schema"); int nd = (int)le(f, e + 28, 4); vc_assert(nd >= 0 && nd <= 12, "dimension count"); uint64_t len = 32 + 20 * nd;
        uint64_t fp = le(f, e + 6, 8); want(fp, "ZISRAWSUBBLOCK");
        vc_assert(fp + 32 + 16 + len <= f.size() && memcmp(&f[e], &f[fp + 32 + 16], len) == 0, "the subblock carries a directory entry identical to the one in the directory");
        int64_t ms = le(f, fp + 32, 4), as = le(f, fp + 36, 4), ds = le(f, fp + 40, 8); uint64_t hd = std::max<uint64_t>(256, 16 + len);
        vc_assert(ms >= 0 && as >= 0 && ds >= 0 && (uint64_t)le(f, fp + 24, 8) == hd + ms + as + ds, "used size of a subblock segment is the size of its content");
        e += len;
    }
    vc_assert(e - (dirp + 32) <= (uint64_t)le(f, dirp + 24, 8), "subblock directory entries lie inside the used size");
    if (attp)
    {
        int n = (int)le(f, attp + 32, 4); vc_assert(n >= 0, "attachment count");
        for (int i = 0; i < n; ++i)
        {
            uint64_t q = attp + 32 + 256 + 128ull * i; vc_assert(le(f, q, 1) == 'A' && le(f, q + 1, 1) == '1', "attachment entry schema"); uint64_t fp = le(f, q + 12, 8); want(fp, "ZISRAWATTACH");
            vc_assert(fp + 32 + 16 + 128 <= f.size() && memcmp(&f[q], &f[fp + 32 + 16], 128) == 0, "the attachment carries an entry identical to the one in the directory");
            vc_assert(le(f, fp + 24, 8) == 256 + le(f, fp + 32, 4), "used size of an attachment segment is the size of its content");
        }
        vc_assert(256 + 128ll * n <= le(f, attp + 24, 8), "attachment directory entries lie inside the used size");
    }
    if (mdp) vc_assert(le(f, mdp + 24, 8) == 256 + le(f, mdp + 32, 4) + le(f, mdp + 36, 4), "used size of the metadata segment is the size of its content");
    size_t seen = 0; uint64_t lastlive = live.rbegin()->first; int nd = 0, nm = 0, na = 0;
    while (p < f.size())
    {
        if (edited && p > lastlive) break;     // bytes behind the last live segment of an edited document are unreferenced
        vc_assert(p + 32 <= f.size(), "a segment header is complete");
        Seg s = seg_at(p); vc_assert(known(s.id), "the chain of segments has no gap (segment id expected)");
        vc_assert(s.alloc >= 0 && s.alloc % 32 == 0, "allocated size is a multiple of 32"); vc_assert(s.used >= 0 && s.used <= s.alloc, "used size does not exceed the allocated size");
        auto l = live.find(p);
        if (l == live.end() && (uint64_t)s.alloc > f.size() - p - 32) { p = f.size(); break; }   // an unused reservation at the end may be left unwritten
        vc_assert((uint64_t)s.alloc <= f.size() - p - 32, "a segment ends inside the file");
        if (l != live.end()) { ++seen; vc_assert(l->second == s.id, "a reference leads to a segment of the right kind"); }
        else vc_assert(s.id == "DELETED", "a segment that is not referenced is marked as deleted");
        nd += s.id == "ZISRAWDIRECTORY"; nm += s.id == "ZISRAWMETADATA"; na += s.id == "ZISRAWATTDIR";
        p += 32 + s.alloc;
    }
    vc_assert(seen == live.size(), "every reference leads to the start of a segment of the chain");
    if (!edited) vc_assert(p == f.size(), "the chain ends at the end of the file");
}
}
