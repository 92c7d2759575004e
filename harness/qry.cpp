// bounded stand-ins: statistics, subset enumeration, frames of reference (public interface only)
// NTUS: @lib
#include "api.h"
#include "edit.h"
#include "stats.h"
using namespace api;
static MSub qsub(Rng& r) { MSub s = some_sub(r, 3); static const vector<int> q = { 1, 1, 1, 2, 4, 8, 16, 3, 9, 27, 5, 6, 7, 32, 64, 81, 243, 128, 256, 512, 1024, 729, 2187 }; int f = r.pick(q); if (!r.p(5)) { s.lw = s.pw * f; s.lh = s.ph * f; } s.data = r.data(r.in(0, 8)); s.meta.clear(); s.att.clear(); return s; }
extern "C" void B_stats()
{
    Rng r = make_rng(); Written w = write_random(r, 14, 0, qsub, false); auto rd = open(w.s);
    if (r.p(50)) rd->GetPyramidStatistics();
    check_stats(rd->GetStatistics(), rd->GetPyramidStatistics(), w.d.subs); if (w.d.subs.size() > 3) vc_cover("several subblocks");
}
extern "C" void B_stats_edit()
{
    Rng r = make_rng(); Written w = write_random(r, 8, 0, qsub, false); EditModel m; m.doc = w.d;
    edit_session(w.s, m, r, r.in(1, 8), false, qsub, [&](ICziReaderWriter* e, EditModel& em) { vector<MSub> l; for (auto& x : em.s) l.push_back(x.second); if (r.p(40)) return; if (r.p(50)) e->GetPyramidStatistics(); check_stats(e->GetStatistics(), e->GetPyramidStatistics(), l); });
    auto rd = open(w.s); check_stats(rd->GetStatistics(), rd->GetPyramidStatistics(), m.doc.subs);
}
template <class R> static void subset(R* rd, const MDoc& d, Rng& r)
{
    vector<std::pair<int, SubBlockInfo>> all; rd->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { all.push_back({ i, s }); return true; });
    for (int round = 0; round < 4; ++round)
    {
        CDimCoordinate pc; bool usepc = r.p(70); if (usepc) { if (!all.empty() && r.p(70)) { auto& s = all[r.in(0, (int)all.size() - 1)].second; for (DimensionIndex x : kDims) { int v; if (s.coordinate.TryGetPosition(x, &v) && r.p(60)) pc.Set(x, v); } } else pc = some_coord(r, 3); }
        bool useroi = r.p(60); IntRect roi{ r.in(-350, 300), r.in(-350, 300), r.in(1, 400), r.in(1, 400) }; if (!all.empty() && r.p(40)) { auto& q = all[r.in(0, (int)all.size() - 1)].second.logicalRect; roi.x = q.x + (r.p(50) ? q.w : -roi.w) + r.in(-1, 1); roi.y = q.y + r.in(-2, 2); } if (r.p(5)) roi.w = r.in(-1, 0);
        bool l0 = r.p(50); vector<int> want;
        for (auto& e : all)
        {
            auto& s = e.second; if (l0 && !((int)s.physicalSize.w == s.logicalRect.w && (int)s.physicalSize.h == s.logicalRect.h)) continue;
            bool ok = true; if (usepc) for (DimensionIndex x : kDims) { int v, u; if (pc.TryGetPosition(x, &v)) ok = ok && s.coordinate.TryGetPosition(x, &u) && u == v; }
            if (!ok) continue;
            if (useroi) { int64_t w = std::min<int64_t>((int64_t)roi.x + roi.w, (int64_t)s.logicalRect.x + s.logicalRect.w) - std::max<int64_t>(roi.x, s.logicalRect.x), h = std::min<int64_t>((int64_t)roi.y + roi.h, (int64_t)s.logicalRect.y + s.logicalRect.h) - std::max<int64_t>(roi.y, s.logicalRect.y); if (w <= 0 || h <= 0 || roi.w <= 0 || roi.h <= 0) continue; }
            want.push_back(e.first);
        }
        size_t stop = r.p(30) ? (size_t)r.in(1, 4) : SIZE_MAX; vector<int> got;
        rd->EnumSubset(usepc ? &pc : nullptr, useroi ? &roi : nullptr, l0, [&](int i, const SubBlockInfo& s) { vc_assert(got.size() < stop, "the enumeration stops when the callback asks for it"); SubBlockInfo t; vc_assert(rd->TryGetSubBlockInfo(i, &t) && coord_eq(t.coordinate, s.coordinate) && t.logicalRect.x == s.logicalRect.x && t.mIndex == s.mIndex, "the enumeration reports the item's own information"); got.push_back(i); return got.size() < stop; });
        if (want.size() > stop) want.resize(stop);
        vc_assert(got == want, "the enumeration reports exactly the matching subblocks, in order"); if (!want.empty() && want.size() < all.size()) vc_cover("proper subset");
    }
    { SubBlockInfo info; int c = r.in(-1, 4); bool anyC = false, hasC = false; for (auto& e : all) { int v; if (e.second.coordinate.TryGetPosition(DimensionIndex::C, &v)) { anyC = true; hasC |= v == c; } } bool b = rd->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, info); vc_assert(b == (anyC ? hasC : !all.empty()), "a subblock of the channel is found exactly if there is one"); int v; if (b && anyC) vc_assert(info.coordinate.TryGetPosition(DimensionIndex::C, &v) && v == c, "the subblock found is in the channel"); }
    { SubBlockInfo t; std::set<int> ids; for (auto& e : all) ids.insert(e.first); int k = r.p(30) ? -1 - r.in(0, 5) : r.p(20) ? std::numeric_limits<int>::min() : r.in(0, 30); bool in = ids.count(k) != 0; vc_assert(rd->TryGetSubBlockInfo(k, &t) == in, "info exists exactly for the indices that exist"); vc_assert((bool)rd->ReadSubBlock(k) == in, "reading by an index that does not exist reports absence"); }
    vector<std::pair<int, AttachmentInfo>> at; rd->EnumerateAttachments([&](int i, const AttachmentInfo& a) { at.push_back({ i, a }); return true; });
    for (int round = 0; round < 3; ++round)
    {
        string ty, nm; bool ut = r.p(60), un = r.p(50); if (!at.empty() && r.p(80)) { auto& e = at[r.in(0, (int)at.size() - 1)].second; ty = e.contentFileType; nm = e.name; if (r.p(20)) nm += "x"; if (r.p(20) && !nm.empty()) nm.pop_back(); if (r.p(20)) ty += "H"; if (r.p(20) && !ty.empty()) ty.pop_back(); } else { ty = some_att(r).type; nm = "A"; }
        vector<int> want, got; for (auto& e : at) if ((!ut || ty == e.second.contentFileType) && (!un || nm == e.second.name)) want.push_back(e.first);
        size_t stop = r.p(30) ? (size_t)r.in(1, 3) : SIZE_MAX; rd->EnumerateSubset(ut ? ty.c_str() : nullptr, un ? nm.c_str() : nullptr, [&](int i, const AttachmentInfo& a) { got.push_back(i); AttachmentInfo t; vc_assert(rd->TryGetAttachmentInfo(i, &t) && t.name == a.name && guid_eq(t.contentGuid, a.contentGuid) && string(t.contentFileType) == a.contentFileType, "the attachment enumeration reports the item's own information"); return got.size() < stop; });
        if (want.size() > stop) want.resize(stop); vc_assert(got == want, "the enumeration reports exactly the matching attachments"); if (!want.empty()) vc_cover("attachments found");
    }
    { AttachmentInfo t; std::set<int> ids; for (auto& e : at) ids.insert(e.first); int k = r.p(30) ? -1 - r.in(0, 5) : r.in(0, 8); bool in = ids.count(k) != 0; vc_assert(rd->TryGetAttachmentInfo(k, &t) == in, "attachment info exists exactly for the indices that exist"); vc_assert((bool)rd->ReadAttachment(k) == in, "reading an attachment that does not exist reports absence"); }
    // stop of the plain enumerations
    { size_t n = 0, stop = r.in(1, 3); rd->EnumerateSubBlocks([&](int, const SubBlockInfo&) { ++n; return n < stop; }); vc_assert(n == std::min(stop, all.size()), "enumeration of all subblocks stops when asked to"); n = 0; rd->EnumerateAttachments([&](int, const AttachmentInfo&) { ++n; return n < stop; }); vc_assert(n == std::min(stop, at.size()), "enumeration of all attachments stops when asked to"); }
    (void)d;
}
extern "C" void B_subset()
{
    Rng r = make_rng(); Written w = write_random(r, 12, 4, [](Rng& q) { MSub s = qsub(q); s.x = q.in(-60, 60); s.y = q.in(-60, 60); return s; }, false);
    if (r.p(70)) { auto rd = open(w.s); subset(rd.get(), w.d, r);
        // enumeration with file positions agrees
        vector<std::pair<int, SubBlockInfo>> a; rd->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { a.push_back({ i, s }); return true; }); size_t k = 0; std::set<uint64_t> pos;
        rd->EnumerateSubBlocksEx([&](int i, const DirectorySubBlockInfo& s) { vc_assert(k < a.size() && a[k].first == i && coord_eq(a[k].second.coordinate, s.coordinate) && a[k].second.mIndex == s.mIndex && a[k].second.logicalRect.x == s.logicalRect.x && a[k].second.physicalSize.w == s.physicalSize.w && a[k].second.pixelType == s.pixelType && a[k].second.compressionModeRaw == s.compressionModeRaw && a[k].second.pyramidType == s.pyramidType, "extended enumeration agrees"); vc_assert(pos.insert(s.filePosition).second && memcmp(&w.s->d[s.filePosition], "ZISRAWSUBBLOCK", 14) == 0, "the file position is that of the subblock"); ++k; return true; });
        vc_assert(k == a.size(), "extended enumeration is complete"); }
    else { auto e = CreateCZIReaderWriter(); e->Create(w.s); EditModel m; m.doc = w.d; edit_sync(e.get(), m); for (int i = r.in(0, 4); i > 0; --i) edit_step(e.get(), m, r, qsub); subset(e.get(), edit_doc(m), r); }
}
extern "C" void B_frames()
{
    Rng r = make_rng(); Written w = write_random(r, 6, 0, [](Rng& q) { MSub s = qsub(q); return s; }, false); if (w.d.subs.empty()) return;
    Box l0; for (auto& s : w.d.subs) if (layer0(s)) l0.add(s); if (!l0.v) return;
    ICZIReader::OpenOptions oo; oo.SetDefault(); int f = r.in(0, 3); oo.default_frame_of_reference = f == 0 ? CZIFrameOfReference::Invalid : f == 1 ? CZIFrameOfReference::Default : f == 2 ? CZIFrameOfReference::RawSubBlockCoordinateSystem : CZIFrameOfReference::PixelCoordinateSystem;
    bool useRw = r.p(30); shared_ptr<ISubBlockRepository> rep; CZIFrameOfReference def = CZIFrameOfReference::RawSubBlockCoordinateSystem;
    if (useRw) { auto e = CreateCZIReaderWriter(); e->Create(w.s); rep = e; } else { rep = open(w.s, &oo); if (f == 3) def = CZIFrameOfReference::PixelCoordinateSystem; }
    CZIFrameOfReference fr[] = { CZIFrameOfReference::RawSubBlockCoordinateSystem, CZIFrameOfReference::PixelCoordinateSystem, CZIFrameOfReference::Default };
    for (int i = 0; i < 6; ++i)
    {
        IntPointAndFrameOfReference p; p.frame_of_reference = fr[r.in(0, 2)]; p.point = { r.in(-100000, 100000), r.in(-100000, 100000) }; CZIFrameOfReference dst = fr[r.in(0, 2)];
        CZIFrameOfReference s1 = p.frame_of_reference == CZIFrameOfReference::Default ? def : p.frame_of_reference, d1 = dst == CZIFrameOfReference::Default ? def : dst;
        int64_t x = p.point.x, y = p.point.y; if (s1 != d1) { int sg = s1 == CZIFrameOfReference::RawSubBlockCoordinateSystem ? -1 : 1; x += sg * l0.x0; y += sg * l0.y0; vc_cover("frames differ"); }
        auto q = rep->TransformPoint(p, dst); vc_assert(q.frame_of_reference == d1, "the destination frame is the requested one"); vc_assert(q.point.x == x && q.point.y == y, "the point is shifted by the origin of the layer-0 bounding box");
        auto back = rep->TransformPoint(q, s1); vc_assert(back.point.x == p.point.x && back.point.y == p.point.y, "converting back restores the point");
        IntRectAndFrameOfReference rc; rc.frame_of_reference = p.frame_of_reference; rc.rectangle = { p.point.x, p.point.y, r.in(0, 5000), r.in(0, 5000) }; auto t = rep->TransformRectangle(rc, dst);
        vc_assert(t.frame_of_reference == d1 && t.rectangle.x == x && t.rectangle.y == y && t.rectangle.w == rc.rectangle.w && t.rectangle.h == rc.rectangle.h, "a rectangle is shifted and keeps its size");
    }
    { bool t = false; IntPointAndFrameOfReference p; p.frame_of_reference = CZIFrameOfReference::Invalid; p.point = { 1, 2 }; try { rep->TransformPoint(p, CZIFrameOfReference::RawSubBlockCoordinateSystem); } catch (std::invalid_argument&) { t = true; } vc_assert(t, "an invalid frame is refused"); }
}
