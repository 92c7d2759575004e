// contracts of the query layer, one arbitrary item at a time: statistics update, subset filter, frames of reference, item conversion
// TUS: CziUtils.cpp libCZI_Utilities.cpp DimCoordinate.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "CziSubBlockDirectory.cpp"
#include "CziReaderCommon.cpp"
#include "CZIReader.cpp"
#undef private
#undef protected
typedef DimensionIndex D; typedef int64_t i64; typedef CCziSubBlockDirectoryBase::SubBlkEntry Ent;
struct M { bool v[10]; int32_t p[10]; int32_t s[10]; };
static void mk(CDimCoordinate& c, M& m, const char* nv, const char* nb)
{
    for (int i = 1; i <= 9; ++i) { m.p[i] = VC_I32(nv, -2, 2); m.v[i] = vc_bool(nb); c.Set((D)i, m.p[i]); if (!m.v[i]) c.Clear((D)i); }
}
static bool fits(i64 v) { return v >= INT32_MIN && v <= INT32_MAX; }
static void geo(Ent& e)
{
    e.x = VC_I32("x", -50, 50); e.y = VC_I32("y", -50, 50); e.width = VC_I32("width", 1, 50); e.height = VC_I32("height", 1, 50);
    vc_assume(e.width >= 0 && e.height >= 0 && fits((i64)e.x + e.width) && fits((i64)e.y + e.height));
    if (vc_bool("layer0")) { e.storedWidth = e.width; e.storedHeight = e.height; } else { e.storedWidth = VC_I32("sw", 1, 50); e.storedHeight = VC_I32("sh", 1, 50); }
    e.mIndex = VC_I32("m", -3, 10); e.PixelType = VC_I32("pt", 0, 14); e.FilePosition = vc_u64("pos"); e.Compression = vc_i32("comp"); e.pyramid_type_from_spare = VC_U8("pyr", 0, 3);
}
// the hull of the previous rectangle (empty: invalid) and the entry, by point sets
static void hull(const IntRect& o, const Ent& e, const IntRect& n, const char* what)
{
    if (!(o.w >= 0 && o.h >= 0)) { vc_assert(n.x == e.x && n.y == e.y && n.w == e.width && n.h == e.height, what); return; }
    i64 x0 = std::min<i64>(o.x, e.x), y0 = std::min<i64>(o.y, e.y), x1 = std::max<i64>((i64)o.x + o.w, (i64)e.x + e.width), y1 = std::max<i64>((i64)o.y + o.h, (i64)e.y + e.height);
    vc_assert(n.x == x0 && n.y == y0, what); vc_assert((i64)n.x + n.w == x1 && (i64)n.y + n.h == y1, what);
}
static IntRect prev(const Ent& e, const char* a, const char* b, const char* c, const char* d)
{
    IntRect r; r.x = VC_I32(a, -50, 50); r.y = VC_I32(b, -50, 50); r.w = VC_I32(c, -1, 50); r.h = VC_I32(d, -1, 50);
    if (r.w >= 0 && r.h >= 0)
    {   // the hull is representable
        vc_assume(fits((i64)r.x + r.w) && fits((i64)r.y + r.h));
        vc_assume(std::max<i64>((i64)r.x + r.w, (i64)e.x + e.width) - std::min(r.x, e.x) <= INT32_MAX && std::max<i64>((i64)r.y + r.h, (i64)e.y + e.height) - std::min(r.y, e.y) <= INT32_MAX);
    }
    return r;
}
extern "C" void H_bbox()
{
    Ent e; geo(e); IntRect r = prev(e, "bx", "by", "bw", "bh"), o = r; CSbBlkStatisticsUpdater::UpdateBoundingBox(r, e);
    vc_cover("done"); hull(o, e, r, "the bounding box becomes the hull of itself and the subblock");
}
// one update of statistics in an arbitrary state (the maps of scenes are empty here; their content: B_stats)
// libstdc++'s tree insertion: the node is linked where the caller found its place (balancing does not change the set of nodes)
static void c_rbinsert(bool left, std::_Rb_tree_node_base* n, std::_Rb_tree_node_base* p, std::_Rb_tree_node_base& h)
{
    n->_M_parent = p; n->_M_left = n->_M_right = nullptr; n->_M_color = std::_S_red;
    if (left) { p->_M_left = n; if (p == &h) { h._M_parent = n; h._M_right = n; } else if (p == h._M_left) h._M_left = n; }
    else { p->_M_right = n; if (p == h._M_right) h._M_right = n; }
}
// contract of UpdateBoundingBox (shown by H_bbox)
static void c_bbox(IntRect& r, const Ent& e)
{
    if (!(r.w >= 0 && r.h >= 0)) { r.x = e.x; r.y = e.y; r.w = e.width; r.h = e.height; return; }
    i64 x0 = std::min<i64>(r.x, e.x), y0 = std::min<i64>(r.y, e.y), x1 = std::max<i64>((i64)r.x + r.w, (i64)e.x + e.width), y1 = std::max<i64>((i64)r.y + r.h, (i64)e.y + e.height);
    r.x = (int)x0; r.y = (int)y0; r.w = (int)(x1 - x0); r.h = (int)(y1 - y0);
}
static bool c_pyr(const Ent&, uint8_t* f, uint8_t* l) { if (!vc_bool("pyr_known")) return false; *f = vc_u8("pyr_factor"); *l = vc_u8("pyr_layer"); return true; }
static void h_update(int dim)
{
    if (vc_is_proof()) { vc_replace_name("CSbBlkStatisticsUpdater17UpdateBoundingBox", (void*)&c_bbox); vc_replace_name("CSbBlkStatisticsUpdater30TryToDeterminePyramidLayerInfo", (void*)&c_pyr); }
    if (vc_is_proof()) vc_replace_name("^_ZSt29_Rb_tree_insert_and_rebalance", (void*)&c_rbinsert);
    CSbBlkStatisticsUpdater u; Ent e; geo(e); M c, b; for (int i = 0; i < 10; ++i) b.v[i] = c.v[i] = false;
    for (int i = 1; i <= 9; ++i) if (i == dim || i == 5)
    {
        if (i == 5 && dim != 5) { c.v[i] = vc_bool("hasS"); c.p[i] = VC_I32("S", 0, 5); if (c.v[i]) e.coordinate.Set((D)i, c.p[i]); continue; }
        c.v[i] = vc_bool("has"); c.p[i] = VC_I32("val", -3, 6); if (c.v[i]) e.coordinate.Set((D)i, c.p[i]);
        b.v[i] = vc_bool("bhas"); b.p[i] = VC_I32("bstart", -3, 6); b.s[i] = VC_I32("bsize", 1, 6);
        vc_assume(b.s[i] >= 1 && fits((i64)b.p[i] + b.s[i]));
        vc_assume(std::max<i64>((i64)b.p[i] + b.s[i], (i64)c.p[i] + 1) - std::min(b.p[i], c.p[i]) <= INT32_MAX);
        if (b.v[i]) u.statistics.dimBounds.Set((D)i, b.p[i], b.s[i]);
    }
    u.statistics.boundingBox = prev(e, "bx", "by", "bw", "bh"); u.statistics.boundingBoxLayer0Only = prev(e, "lx", "ly", "lw", "lh");
    u.statistics.minMindex = VC_I32("mmin", -3, 10); u.statistics.maxMindex = VC_I32("mmax", -3, 10); u.statistics.subBlockCount = VC_I32("cnt", 0, 9); vc_assume(u.statistics.subBlockCount < INT32_MAX);
    IntRect o = u.statistics.boundingBox, ol = u.statistics.boundingBoxLayer0Only; int mn = u.statistics.minMindex, mx = u.statistics.maxMindex, n = u.statistics.subBlockCount;
    u.UpdateStatistics(e);
    const SubBlockStatistics& s = u.GetStatistics(); vc_cover("done");
    hull(o, e, s.boundingBox, "the bounding box includes the subblock and nothing else");
    if (e.width == e.storedWidth && e.height == e.storedHeight) { vc_cover("layer 0"); hull(ol, e, s.boundingBoxLayer0Only, "the layer-0 bounding box includes the layer-0 subblock and nothing else"); }
    else { vc_cover("pyramid"); const IntRect& q = s.boundingBoxLayer0Only; vc_assert(q.x == ol.x && q.y == ol.y && q.w == ol.w && q.h == ol.h, "a pyramid subblock does not change the layer-0 bounding box"); }
    vc_assert(s.subBlockCount == n + 1, "the subblock is counted once");
    bool mv = e.mIndex != INT32_MIN; vc_assert(s.minMindex == (mv && e.mIndex < mn ? e.mIndex : mn) && s.maxMindex == (mv && e.mIndex > mx ? e.mIndex : mx), "minimum and maximum of the mosaic indices");
    for (int i = 1; i <= 9; ++i)
    {
        int st = 0, sz = 0; bool v = s.dimBounds.TryGetInterval((D)i, &st, &sz);
        vc_assert(v == (b.v[i] || c.v[i]), "exactly the dimensions seen have bounds");
        if (!v) continue;
        i64 lo = b.v[i] && c.v[i] ? std::min(b.p[i], c.p[i]) : b.v[i] ? b.p[i] : c.p[i], hi = b.v[i] && c.v[i] ? std::max<i64>((i64)b.p[i] + b.s[i], (i64)c.p[i] + 1) : b.v[i] ? (i64)b.p[i] + b.s[i] : (i64)c.p[i] + 1;
        vc_assert(st == lo && (i64)st + sz == hi, "the bounds of a dimension are the smallest interval with all values");
    }
}
#define UPD(n) extern "C" void H_update_##n() { h_update(n); }
UPD(1) UPD(2) UPD(3) UPD(4) UPD(5) UPD(6) UPD(7) UPD(8) UPD(9)

// two subblocks: bounding boxes per scene and the number of subblocks per scene and pyramid layer
static void boxis(const IntRect& r, const Ent* a, const Ent* b, const char* what)
{
    if (!a && !b) { vc_assert(!r.IsValid(), what); return; }
    if (!a || !b) { const Ent* e = a ? a : b; vc_assert(r.x == e->x && r.y == e->y && r.w == e->width && r.h == e->height, what); return; }
    IntRect o{ a->x, a->y, a->width, a->height }; c_bbox(o, *b); vc_assert(r.x == o.x && r.y == o.y && r.w == o.w && r.h == o.h, what);
}
static std::_Rb_tree_node_base* c_rbdec(std::_Rb_tree_node_base* n) { vc_assert(false, "a tree of one node has no inner predecessor"); vc_path_end(); return n; }
static int total(CSbBlkStatisticsUpdater& u, int scene) { auto i = u.pyramidStatistics.scenePyramidStatistics.find(scene); if (i == u.pyramidStatistics.scenePyramidStatistics.end()) return 0; int n = 0; for (auto& l : i->second) n += l.count; return n; }
static void update_two(int mode)   // 0: none has a scene, 1: the first, 2: the second, 3..5: both (equal, ascending, descending)
{
    if (vc_is_proof()) { vc_replace_name("CSbBlkStatisticsUpdater17UpdateBoundingBox", (void*)&c_bbox); vc_replace_name("CSbBlkStatisticsUpdater30TryToDeterminePyramidLayerInfo", (void*)&c_pyr); vc_replace_name("^_ZSt29_Rb_tree_insert_and_rebalance", (void*)&c_rbinsert); }
    if (vc_is_proof()) vc_replace_name("^_ZSt18_Rb_tree_decrement", (void*)&c_rbdec);
    CSbBlkStatisticsUpdater u; Ent a, b; geo(a); geo(b); bool hb = true; int sa = VC_I32("SA", 0, 2), sb = VC_I32("SB", 0, 2); const bool va = mode == 1 || mode >= 3, vb = mode >= 2;
    vc_assume(sa != INT32_MAX && sb != INT32_MAX && std::max<i64>((i64)a.x + a.width, (i64)b.x + b.width) - std::min(a.x, b.x) <= INT32_MAX && std::max<i64>((i64)a.y + a.height, (i64)b.y + b.height) - std::min(a.y, b.y) <= INT32_MAX);
    if (mode == 3) sb = sa; if (mode == 4) vc_assume(sa < sb); if (mode == 5) vc_assume(sa > sb);
    if (va) a.coordinate.Set(D::S, sa); if (vb) b.coordinate.Set(D::S, sb); (void)hb;
    u.UpdateStatistics(a); u.UpdateStatistics(b); const SubBlockStatistics& s = u.GetStatistics(); vc_cover("done");
    bool la = a.IsStoredSizeEqualLogicalSize(), lb = b.IsStoredSizeEqualLogicalSize();
    vc_assert(s.subBlockCount == 2, "both subblocks are counted");
    vc_assert(s.sceneBoundingBoxes.size() == (size_t)((va ? 1 : 0) + (vb && !(va && sa == sb) ? 1 : 0)), "exactly the scenes in use have a bounding box");
    int q = VC_I32("Q", 0, 2); auto i = s.sceneBoundingBoxes.find(q); bool ia = va && sa == q, ib = vb && sb == q;
    vc_assert((i != s.sceneBoundingBoxes.end()) == (ia || ib), "a scene has a bounding box exactly if a subblock lies in it");
    if (ia || ib) { vc_cover("scene"); boxis(i->second.boundingBox, ia ? &a : nullptr, ib ? &b : nullptr, "the bounding box of a scene is the hull of its subblocks"); boxis(i->second.boundingBoxLayer0, ia && la ? &a : nullptr, ib && lb ? &b : nullptr, "the layer-0 bounding box of a scene is the hull of its layer-0 subblocks"); }
    else vc_cover("other scene");
    int none = INT32_MAX; vc_assert(total(u, none) == (va ? 0 : 1) + (vb ? 0 : 1), "the pyramid statistics count the subblocks without a scene"); if (q != none) vc_assert(total(u, q) == (ia ? 1 : 0) + (ib ? 1 : 0), "the pyramid statistics count every subblock of a scene once");
}
#define TWO(n) extern "C" void H_two_##n() { update_two(n); }
TWO(0) TWO(1) TWO(2) TWO(3) TWO(4) TWO(5)

// ---------------------------------------------------------------- subset filter
struct Repo : public ISubBlockRepository
{
    int index; SubBlockInfo* info; bool ret; int n;
    void EnumerateSubBlocks(const std::function<bool(int index, const SubBlockInfo& info)>& f) override { ret = f(index, *info); ++n; }
    void EnumSubset(const IDimCoordinate*, const IntRect*, bool, const std::function<bool(int, const SubBlockInfo&)>&) override {}
    std::shared_ptr<ISubBlock> ReadSubBlock(int) override { return nullptr; }
    bool TryGetSubBlockInfoOfArbitrarySubBlockInChannel(int, SubBlockInfo&) override { return false; }
    bool TryGetSubBlockInfo(int, SubBlockInfo*) const override { return false; }
    SubBlockStatistics GetStatistics() override { return SubBlockStatistics(); }
    PyramidStatistics GetPyramidStatistics() override { return PyramidStatistics(); }
    IntPointAndFrameOfReference TransformPoint(const IntPointAndFrameOfReference& p, CZIFrameOfReference) override { return p; }
};
static void h_filter(bool usePc)
{
    Repo r; SubBlockInfo info; r.info = &info; r.index = vc_i32("index"); r.n = 0; r.ret = false; M a, p; for (int i = 0; i < 10; ++i) a.v[i] = p.v[i] = false;
    CDimCoordinate pc; if (usePc) { mk(info.coordinate, a, "val", "valid"); mk(pc, p, "pval", "pvalid"); }
    info.logicalRect = IntRect{ VC_I32("x", -20, 20), VC_I32("y", -20, 20), VC_I32("w", 1, 20), VC_I32("h", 1, 20) }; info.physicalSize = IntSize{ VC_U32("pw", 1, 20), VC_U32("ph", 1, 20) };
    vc_assume(info.logicalRect.w >= 0 && info.logicalRect.h >= 0);
    IntRect roi{ VC_I32("rx", -20, 20), VC_I32("ry", -20, 20), VC_I32("rw", 0, 20), VC_I32("rh", 0, 20) }; vc_assume(roi.w >= 0 && roi.h >= 0);
    bool useRoi = vc_bool("useroi"), l0 = vc_bool("l0"), cont = vc_bool("cont"); int calls = 0; bool own = true;
    CziReaderCommon::EnumSubset(&r, usePc ? &pc : nullptr, useRoi ? &roi : nullptr, l0, [&](int i, const SubBlockInfo& s)->bool { ++calls; own = own && i == r.index && &s == &info; return cont; });
    const IntRect& q = info.logicalRect; bool want = true;
    if (l0) want = want && (i64)info.physicalSize.w == q.w && (i64)info.physicalSize.h == q.h;
    if (usePc) for (int i = 1; i <= 9; ++i) want = want && (!p.v[i] || (a.v[i] && a.p[i] == p.p[i]));
    if (useRoi) { i64 w = std::min<i64>((i64)roi.x + roi.w, (i64)q.x + q.w) - std::max(roi.x, q.x), h = std::min<i64>((i64)roi.y + roi.h, (i64)q.y + q.h) - std::max(roi.y, q.y); want = want && w > 0 && h > 0; }
    vc_assert(r.n == 1, "the repository is enumerated once");
    if (want) { vc_cover("match"); vc_assert(calls == 1, "a matching subblock is delivered, once"); vc_assert(own, "with its own index and information"); vc_assert(r.ret == cont, "the enumeration goes on exactly if the callback wants it to"); }
    else { vc_cover("no match"); vc_assert(calls == 0, "a subblock which does not match is not delivered"); vc_assert(r.ret, "the enumeration goes on after a subblock which does not match"); }
}
extern "C" void H_filter() { h_filter(false); }
extern "C" void H_filter_pc() { h_filter(true); }
extern "C" void H_coordmatch()
{
    CDimCoordinate a, p; M ma, mp; mk(a, ma, "val", "valid"); mk(p, mp, "pval", "pvalid"); bool want = true;
    for (int i = 1; i <= 9; ++i) want = want && (!mp.v[i] || (ma.v[i] && ma.p[i] == mp.p[i]));
    bool b = CziUtils::CompareCoordinate(&p, &a); if (b) vc_cover("match"); else vc_cover("no match");
    vc_assert(b == want, "a coordinate matches a plane exactly if it has the same value in every dimension of the plane");
}
extern "C" void H_sbinfo()
{
    Ent e; geo(e); M m; mk(e.coordinate, m, "val", "valid"); SubBlockInfo s = CziReaderCommon::ConvertToSubBlockInfo(e);
    vc_cover("done");
    vc_assert(s.compressionModeRaw == e.Compression && s.mIndex == e.mIndex && s.logicalRect.x == e.x && s.logicalRect.y == e.y && s.logicalRect.w == e.width && s.logicalRect.h == e.height && s.physicalSize.w == (uint32_t)e.storedWidth && s.physicalSize.h == (uint32_t)e.storedHeight, "the information of a subblock is that of its directory entry");
    vc_assert((int)s.pixelType == (e.PixelType == 0 || e.PixelType == 1 || e.PixelType == 2 || e.PixelType == 3 || e.PixelType == 4 || e.PixelType == 8 || e.PixelType == 9 || e.PixelType == 10 || e.PixelType == 11 || e.PixelType == 12 || e.PixelType == 13 ? (int)CziUtils::PixelTypeFromInt(e.PixelType) : (int)PixelType::Invalid), "pixel type");
    for (int i = 1; i <= 9; ++i) { int v = 0; vc_assert(s.coordinate.TryGetPosition((D)i, &v) == m.v[i] && (!m.v[i] || v == m.p[i]), "the coordinate is that of the directory entry"); }
}
// the directory delivers entry 0..n-1 in order, each with its own index, until the callback stops
struct EnumCtx { uint64_t calls, bad, stop, n; };
static bool enum_inv(void* c, uint64_t k, uint64_t) { EnumCtx* x = (EnumCtx*)c; return x->bad == 0 && x->calls == k && k < x->stop && k <= x->n; }
extern "C" void H_enum()
{
    uint64_t n = VC_U64("n", 0, 5), stop = VC_U64("stop", 1, 6); vc_assume(n <= 1000000 && stop >= 1); static_assert(sizeof(Ent) % 8 == 0, "");
    Ent* buf = (Ent*)vc_buf(n * sizeof(Ent), "entries");
    alignas(CCziSubBlockDirectory) static unsigned char mem[sizeof(CCziSubBlockDirectory)]; CCziSubBlockDirectory* d = new (mem) CCziSubBlockDirectory();
    Ent** v = (Ent**)&d->subBlks; v[0] = buf; v[1] = buf + n; v[2] = buf + n;
    EnumCtx x{ 0, 0, stop, n }; const Ent* first = buf; vc_loop_inv(0, enum_inv, &x, "the callback has seen the entries up to here");
    d->EnumSubBlocks([&](int i, const Ent& e)->bool { if ((uint64_t)(int64_t)i != x.calls || &e != first + x.calls) ++x.bad; ++x.calls; return x.calls < stop; });
    vc_loop_clear(); vc_cover("done");
    vc_assert(x.bad == 0, "every entry is delivered with its own index, in order"); vc_assert(x.calls == (n < stop ? n : stop), "the enumeration ends at the last entry or when the callback stops it");
    int32_t k = VC_I32("k", -2, 7); Ent out; bool b = d->TryGetSubBlock(k, out); vc_assert(b == (k >= 0 && (uint64_t)k < n), "an index which does not exist is reported as absent");
    if (b) { vc_cover("entry"); const Ent& q = buf[k]; vc_assert(out.mIndex == q.mIndex && out.x == q.x && out.y == q.y && out.width == q.width && out.height == q.height && out.storedWidth == q.storedWidth && out.storedHeight == q.storedHeight && out.PixelType == q.PixelType && out.FilePosition == q.FilePosition && out.Compression == q.Compression && out.pyramid_type_from_spare == q.pyramid_type_from_spare, "the entry with this index"); }
    v[0] = v[1] = v[2] = nullptr;
}
// ---------------------------------------------------------------- frames of reference
static CZIFrameOfReference fr(uint8_t k) { return k == 0 ? CZIFrameOfReference::RawSubBlockCoordinateSystem : k == 1 ? CZIFrameOfReference::PixelCoordinateSystem : k == 2 ? CZIFrameOfReference::Default : CZIFrameOfReference::Invalid; }
extern "C" void H_transform()
{
    alignas(CCZIReader) static unsigned char mem[sizeof(CCZIReader)]; CCZIReader* r = new (mem) CCZIReader();
    IntRect& o = r->subBlkDir.sblkStatistics.statistics.boundingBoxLayer0Only; o = IntRect{ VC_I32("ox", -50, 50), VC_I32("oy", -50, 50), 10, 10 };
    uint8_t kd = VC_U8("def", 0, 1); vc_assume(kd < 2); r->default_frame_of_reference = fr(kd);
    uint8_t ks = VC_U8("src", 0, 3), kt = VC_U8("dst", 0, 3); vc_assume(ks < 4 && kt < 4);
    IntPointAndFrameOfReference p; p.frame_of_reference = fr(ks); p.point.x = VC_I32("x", -90, 90); p.point.y = VC_I32("y", -90, 90); int w = VC_I32("w", 0, 50), h = VC_I32("h", 0, 50);
    vc_assume(w >= 0 && h >= 0 && fits((i64)p.point.x + w) && fits((i64)p.point.y + h) && fits((i64)p.point.x + w + o.x) && fits((i64)p.point.y + h + o.y) && fits((i64)p.point.x + w - o.x) && fits((i64)p.point.y + h - o.y) && fits((i64)p.point.x + o.x) && fits((i64)p.point.y + o.y) && fits((i64)p.point.x - o.x) && fits((i64)p.point.y - o.y));
    bool thrown = false; IntPointAndFrameOfReference q; try { q = r->TransformPoint(p, fr(kt)); } catch (std::invalid_argument&) { thrown = true; }
    vc_assert(thrown == (ks == 3 || kt == 3), "exactly the invalid frames are refused");
    if (thrown) { vc_cover("refused"); return; }
    int s = ks == 2 ? kd : ks, t = kt == 2 ? kd : kt;
    vc_assert(q.frame_of_reference == fr((uint8_t)t), "the frame of the result is the requested one"); vc_assert(q.point.x == (s == t ? (i64)p.point.x : s == 0 ? (i64)p.point.x - o.x : (i64)p.point.x + o.x) && q.point.y == (s == t ? (i64)p.point.y : s == 0 ? (i64)p.point.y - o.y : (i64)p.point.y + o.y), "a point is shifted by the origin of the layer-0 bounding box");
    vc_cover("done"); IntPointAndFrameOfReference back = r->TransformPoint(q, fr((uint8_t)s)); vc_assert(back.point.x == p.point.x && back.point.y == p.point.y, "converting back restores the point");
    IntRectAndFrameOfReference rc; rc.frame_of_reference = p.frame_of_reference; rc.rectangle = IntRect{ p.point.x, p.point.y, w, h }; IntRectAndFrameOfReference tr = r->TransformRectangle(rc, fr(kt));
    vc_assert(tr.frame_of_reference == fr((uint8_t)t) && tr.rectangle.x == q.point.x && tr.rectangle.y == q.point.y && tr.rectangle.w == w && tr.rectangle.h == h, "a rectangle moves with its corner and keeps its size");
}
