// bounded stand-in for the tile accessors (public interface): the composed image is compared with a direct painting of the tiles
// LIBS: -lzstd
// NTUS: @lib
#include "bmpapi.h"
using namespace api;
namespace {
struct Tile { int c, s, t, m; bool mv; int x, y, w, h, f; PixelType pt; bytes px; bool hasmask; bytes mask; uint32_t mw, mh, mst; };
const PixelType kPT[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48 };
struct Doc { vector<Tile> l; bool hasS, hasT; shared_ptr<MemStream> st; PixelType pt[2]; };
Doc make_doc(Rng& r, bool masks, bool pyramid)
{
    Doc d; d.hasS = r.p(40); d.hasT = r.p(25); d.st = std::make_shared<MemStream>(); d.pt[0] = kPT[r.in(0, 4)]; d.pt[1] = r.p(60) ? d.pt[0] : kPT[r.in(0, 4)];
    CZIWriterOptions opt; opt.allow_duplicate_subblocks = true; auto w = CreateCZIWriter(&opt); w->Create(d.st, std::make_shared<CCziWriterInfo>(some_guid(r)));
    int n = r.in(1, 12); std::set<int> ms; bool inv = r.p(30); int spread = r.in(5, 40);
    for (int i = 0; i < n; ++i)
    {
        Tile t; t.c = r.in(0, 1); t.s = d.hasS ? r.in(0, 2) : 0; t.t = d.hasT ? r.in(0, 1) : 0; t.mv = !(inv && i == 0); t.m = 0; if (t.mv) do t.m = r.p(5) ? r.in(0, 2000000000) : r.in(0, 40); while (!ms.insert(t.m).second);
        t.f = pyramid && r.p(40) ? (r.p(60) ? 2 : 4) : 1; t.w = r.in(1, 20); t.h = r.in(1, 20); t.x = r.in(-spread, spread); t.y = r.in(-spread, spread); if (pyramid) { t.x *= 4; t.y *= 4; }
        t.pt = d.pt[t.c]; t.px = r.data((size_t)t.w * t.h * bpp(t.pt)); if (t.pt == PixelType::Gray32Float) for (size_t k = 0; k < t.px.size(); k += 4) { float f = (float)r.in(-1000, 1000) / 8; memcpy(&t.px[k], &f, 4); }
        t.hasmask = masks && r.p(50); if (t.hasmask) { t.mw = r.p(60) ? t.w : r.in(1, 24); t.mh = r.p(60) ? t.h : r.in(1, 24); t.mst = (t.mw + 7) / 8 + (r.p(50) ? 0 : r.in(1, 3)); t.mask = r.data((size_t)t.mst * t.mh); }
        MSub s; s.c.Set(DimensionIndex::C, t.c); if (d.hasS) s.c.Set(DimensionIndex::S, t.s); if (d.hasT) s.c.Set(DimensionIndex::T, t.t); s.mv = t.mv; s.m = t.m; s.x = t.x; s.y = t.y; s.pw = t.w; s.ph = t.h; s.lw = t.w * t.f; s.lh = t.h * t.f; s.pt = t.pt; s.py = t.f > 1 ? SubBlockPyramidType::MultiSubBlock : SubBlockPyramidType::None;
        s.data = t.px; s.comp = 0; if (t.pt != PixelType::Gray32Float && r.p(40)) { bool z1 = r.p(60); auto mb = z1 ? ZstdCompress::CompressZStd1Alloc(t.w, t.h, t.w * bpp(t.pt), t.pt, t.px.data(), nullptr) : ZstdCompress::CompressZStd0Alloc(t.w, t.h, t.w * bpp(t.pt), t.pt, t.px.data(), nullptr); s.comp = z1 ? 6 : 5; s.data.assign((const uint8_t*)mb->GetPtr(), (const uint8_t*)mb->GetPtr() + mb->GetSizeOfData()); }
        if (t.hasmask) { s.meta.assign(kMaskXml, kMaskXml + sizeof kMaskXml - 1); s.att = mask_attachment(r, t.mask, t.mw, t.mh, t.mst); }
        AddSubBlockInfoMemPtr i2; fill_base(i2, s); i2.ptrData = s.data.data(); i2.dataSize = (uint32_t)s.data.size(); i2.ptrSbBlkMetadata = s.meta.data(); i2.sbBlkMetadataSize = (uint32_t)s.meta.size(); i2.ptrSbBlkAttachment = s.att.data(); i2.sbBlkAttachmentSize = (uint32_t)s.att.size(); w->SyncAddSubBlock(i2);
        d.l.push_back(t);
    }
    w->Close(); return d;
}
// paints the tiles (in the given order) into img; pixel (0,0) of img is at (x0,y0), f: size of a pixel on layer 0
void paint(const vector<const Tile*>& l, bytes& img, PixelType dt, int w, int h, int x0, int y0, int f, bool mask)
{
    int D = (int)dt, B = bpp(dt);
    for (auto t : l) for (int y = 0; y < t->h; ++y) for (int x = 0; x < t->w; ++x)
    {
        int64_t px = (t->x - x0) / f + x, py = (t->y - y0) / f + y; if (px < 0 || py < 0 || px >= w || py >= h) continue;
        if (mask && t->hasmask) { if ((uint32_t)x >= t->mw || (uint32_t)y >= t->mh || !(t->mask[(size_t)y * t->mst + x / 8] & (0x80 >> (x % 8)))) continue; }
        spec_convert((int)t->pt, D, &t->px[((size_t)y * t->w + x) * bpp(t->pt)], &img[((size_t)py * w + px) * B]);
    }
}
bytes background(Rng&, PixelType dt, int w, int h, int kind) { bytes b((size_t)w * h * bpp(dt), 0); if (kind == 1) { if (dt == PixelType::Gray32Float) for (size_t i = 0; i < b.size(); i += 4) { float f = 1; memcpy(&b[i], &f, 4); } else std::fill(b.begin(), b.end(), 0xff); } return b; }
template <class O> void common(Rng& r, O& o, int bg, shared_ptr<ISubBlockCache> cache, shared_ptr<IIndexSet> sf, bool mask) { o.Clear(); o.maskAware = mask; if (bg == 0) o.backGroundColor = RgbFloatColor{ 0, 0, 0 }; if (bg == 1) o.backGroundColor = RgbFloatColor{ 1, 1, 1 }; o.sortByM = true; o.sceneFilter = sf; if (r.p(60)) { o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = r.p(50); } }
PixelType dest_type(Rng& r, PixelType s) { if (s == PixelType::Gray32Float || r.p(50)) return s; return kPT[r.in(0, 4)]; }
void vis(Rng& r, ISingleChannelTileAccessor::Options& o) { o.useVisibilityCheckOptimization = r.p(60); }
void vis(Rng& r, ISingleChannelScalingTileAccessor::Options& o) { o.useVisibilityCheckOptimization = r.p(60); }
void vis(Rng&, ISingleChannelPyramidLayerTileAccessor::Options&) {}
// one request through accessor 'kind' (0 tile, 1 pyramid layer, 2 scaling at zoom 1)
void request(Rng& r, ICZIReader* rd, const Doc& d, int kind, shared_ptr<ISubBlockCache> cache, bool masks, const IntRect& bb)
{
    int c = r.in(0, 1), t = r.in(0, 1); bool hc = false, ht = false; for (auto& q : d.l) { hc |= q.c == c; ht |= q.t == t; } if (!hc || (d.hasT && !ht)) return;
    CDimCoordinate pc; pc.Set(DimensionIndex::C, c); if (d.hasT) pc.Set(DimensionIndex::T, t);
    int k = kind == 1 ? r.in(0, 2) : 0, f = 1 << k; int w = r.in(1, 60), h = r.in(1, 60), x0 = r.in(-60, 60), y0 = r.in(-60, 60); if (kind == 1) { x0 *= 4; y0 *= 4; }
    bool mask = masks && r.p(60); shared_ptr<IIndexSet> sf; std::set<int> sc; if (r.p(35)) { std::wstring s; for (int i = 0; i < 3; ++i) if (r.p(50)) { if (!s.empty()) s += L","; s += std::to_wstring(i); sc.insert(i); } if (s.empty()) s = L"7"; sf = Utils::IndexSetFromString(s); }
    vector<const Tile*> l; for (auto& q : d.l) { if (q.c != c || (d.hasT && q.t != t) || q.f != f) continue; if (sf && d.hasS && !sc.count(q.s)) continue; l.push_back(&q); }
    auto key = [](const Tile* q) { return q->mv ? q->m : -1; };
    std::stable_sort(l.begin(), l.end(), [&](const Tile* a, const Tile* b) { if (kind == 2 && d.hasS && a->s != b->s) return a->s < b->s; return key(a) < key(b); });
    PixelType dt = d.pt[c]; int mode = r.in(0, 2); if (mode) dt = dest_type(r, d.pt[c]); int bg = r.in(0, 2); if (bg == 2 && mode < 2) bg = 0;   // kind 2: not cleared, needs a caller's bitmap
    bytes want = background(r, dt, w, h, bg); PBmp own(dt, w, h, r.p(50) ? 0 : r.in(1, 7)); memset(own.d.get(), 0xA5, own.n); if (bg == 2) std::fill(want.begin(), want.end(), 0xA5);
    paint(l, want, dt, w, h, x0, y0, f, mask);
    bool pixframe = r.p(40) && bb.IsValid(); IntRectAndFrameOfReference roi; roi.frame_of_reference = pixframe ? CZIFrameOfReference::PixelCoordinateSystem : CZIFrameOfReference::RawSubBlockCoordinateSystem; roi.rectangle = IntRect{ pixframe ? x0 - bb.x : x0, pixframe ? y0 - bb.y : y0, w * f, h * f };
    IntPointAndFrameOfReference pos; pos.frame_of_reference = roi.frame_of_reference; pos.point.x = roi.rectangle.x; pos.point.y = roi.rectangle.y;
    shared_ptr<IBitmapData> res;
    if (kind == 0) { auto a = rd->CreateSingleChannelTileAccessor(); ISingleChannelTileAccessor::Options o; common(r, o, bg, cache, sf, mask); vis(r, o); if (mode == 0) res = a->Get(roi, &pc, &o); else if (mode == 1) res = a->Get(dt, roi, &pc, &o); else a->Get(&own, pos, &pc, &o); }
    else if (kind == 1) { auto a = rd->CreateSingleChannelPyramidLayerTileAccessor(); ISingleChannelPyramidLayerTileAccessor::Options o; common(r, o, bg, cache, sf, mask); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = 2; pi.pyramidLayerNo = (uint8_t)k; if (mode == 0) res = a->Get(roi, &pc, pi, &o); else if (mode == 1) res = a->Get(dt, roi, &pc, pi, &o); else a->Get(&own, pos, &pc, pi, &o); }
    else { auto a = rd->CreateSingleChannelScalingTileAccessor(); ISingleChannelScalingTileAccessor::Options o; common(r, o, bg, cache, sf, mask); vis(r, o); if (mode == 0) res = a->Get(roi, &pc, 1.f, &o); else if (mode == 1) res = a->Get(dt, roi, &pc, 1.f, &o); else a->Get(&own, roi, &pc, 1.f, &o); }
    IBitmapData* b = mode == 2 ? &own : res.get(); vc_assert(b && b->GetPixelType() == dt && (int)b->GetWidth() == w && (int)b->GetHeight() == h, "type and size of the result are those requested");
    vc_assert(pixels(b) == want, kind == 0 ? "the image is the tiles painted in order over the background" : kind == 1 ? "the image is the tiles of the layer painted in order over the background" : "the image at zoom 1 is the tiles painted in order over the background");
    if (mode == 2) for (int y = 0; y < h; ++y) for (uint32_t x = w * bpp(dt); x < own.stride; ++x) vc_assert(own.d[(size_t)y * own.stride + x] == 0xA5, "row padding is untouched");
    if (l.size() > 2) vc_cover("several tiles"); if (mask && !l.empty()) vc_cover("masks");
}
void run(bool masks)
{
    Rng r = make_rng(); bool pyr = r.p(40); Doc d = make_doc(r, masks, pyr); auto rd = open(d.st); auto cache = CreateSubBlockCache(); auto bb = rd->GetStatistics().boundingBoxLayer0Only;
    for (int i = 0; i < 6; ++i) { request(r, rd.get(), d, r.in(0, 2), cache, masks, bb); if (r.p(15)) { ISubBlockCacheControl::PruneOptions o; o.maxSubBlockCount = r.in(0, 3); cache->Prune(o); } }
}
}
extern "C" void B_compose() { run(false); }
extern "C" void B_compose_mask() { run(true); }
