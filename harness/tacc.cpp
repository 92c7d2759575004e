// contracts of the tile accessors: one tile is painted where it belongs; every selected tile, in order; which tiles are selected; what is read for a tile
// TUS: utilities.cpp libCZI_Utilities.cpp CziUtils.cpp DimCoordinate.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "SingleChannelTileCompositor.cpp"
#include "SingleChannelAccessorBase.cpp"
#include "SingleChannelTileAccessor.cpp"
#include "SingleChannelPyramidLevelTileAccessor.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef int32_t i32;
template <class T> static std::shared_ptr<T> ref(T* p) { return std::shared_ptr<T>(std::shared_ptr<T>(), p); }
static bool fits(i64 v) { return v >= INT32_MIN && v <= INT32_MAX; }
// ---------------------------------------------------------------- one tile
struct Bm : IBitmapData
{
    PixelType pt; u32 w, h; char* p; u32 st; int locks, nlock; PixelType GetPixelType() const override { return pt; } IntSize GetSize() const override { return IntSize{ w, h }; }
    BitmapLockInfo Lock() override { locks++; nlock++; BitmapLockInfo i; i.ptrData = p - 8; i.ptrDataRoi = p; i.stride = st; i.size = 0; return i; } void Unlock() override { locks--; } int GetLockCount() const override { return locks; }
};
struct Mk : IBitonalBitmapData
{
    u32 w, h; char* p; u32 st; int locks; IntSize GetSize() const override { return IntSize{ w, h }; } BitonalBitmapLockInfo Lock() override { locks++; BitonalBitmapLockInfo i; i.ptrData = p; i.stride = st; i.size = 0; return i; } void Unlock() override { locks--; } int GetLockCount() const override { return locks; }
};
static char g_pix[3][64];
static Bm* mkbm(int k, const char* w, const char* h, const char* st) { Bm* b = new Bm(); u8 t = VC_U8("pt", 0, 5); vc_assume(t <= 4 || t == 9); b->pt = (PixelType)t; b->w = VC_U32(w, 1, 9); b->h = VC_U32(h, 1, 9); b->st = VC_U32(st, 1, 90); vc_assume(b->w <= 0x7fffffff && b->h <= 0x7fffffff && b->st <= 0x7fffffff); b->p = g_pix[k] + 8; b->locks = b->nlock = 0; return b; }
struct Paint { int n; Bm* d; Bm* s; Mk* m; int x, y; bool border; };
static Paint g_p;
static void chkpaint(const CBitmapOperations::CopyWithOffsetInfo& i)
{
    g_p.n++; vc_assert(i.xOffset == g_p.x && i.yOffset == g_p.y, "at the position given"); vc_assert(i.srcPixelType == g_p.s->pt && i.dstPixelType == g_p.d->pt, "with the pixel types of the bitmaps");
    vc_assert(i.srcPtr == g_p.s->p && i.dstPtr == g_p.d->p, "from the pixels of the tile to those of the destination"); vc_assert((u32)i.srcStride == g_p.s->st && (u32)i.dstStride == g_p.d->st, "with their strides");
    vc_assert((u32)i.srcWidth == g_p.s->w && (u32)i.srcHeight == g_p.s->h && (u32)i.dstWidth == g_p.d->w && (u32)i.dstHeight == g_p.d->h, "with their sizes"); vc_assert(i.drawTileBorder == g_p.border, "border as requested"); vc_assert(g_p.s->locks > 0 && g_p.d->locks > 0, "while both are locked");
}
static void c_cwo(const CBitmapOperations::CopyWithOffsetInfo& i) { vc_assert(g_p.m == nullptr, "a mask is not ignored"); chkpaint(i); }
static void c_cwom(const BitmapOperationsBitonal::CopyWithOffsetAndMaskInfo& i)
{
    chkpaint(i); if (!g_p.m) { vc_assert(i.maskPtr == nullptr, "without mask"); return; }
    vc_assert(i.maskPtr == g_p.m->p && (u32)i.maskStride == g_p.m->st && (u32)i.maskWidth == g_p.m->w && (u32)i.maskHeight == g_p.m->h, "with the mask"); vc_assert(g_p.m->locks > 0, "while the mask is locked");
}
static void paint_contracts() { vc_replace_name("CBitmapOperations14CopyWithOffsetERK", (void*)&c_cwo); vc_replace_name("BitmapOperationsBitonal21CopyWithOffsetAndMaskERK", (void*)&c_cwom); }
static void one(bool aware)
{
    if (!vc_is_proof()) return; paint_contracts(); g_p.n = 0; g_p.d = mkbm(0, "dw", "dh", "dst"); g_p.s = mkbm(1, "sw", "sh", "sst"); g_p.m = nullptr; g_p.x = vc_i32("x"); g_p.y = vc_i32("y"); g_p.border = vc_bool("border");
    if (aware && vc_bool("masked")) { Mk* m = new Mk(); m->w = vc_u32("mw"); m->h = vc_u32("mh"); m->st = vc_u32("mst"); vc_assume(m->w <= 0x7fffffff && m->h <= 0x7fffffff && m->st <= 0x7fffffff); m->p = g_pix[2]; m->locks = 0; g_p.m = m; }
    if (aware) CSingleChannelTileCompositor::ComposeMaskAware(g_p.d, g_p.s, g_p.m, g_p.x, g_p.y, g_p.border); else CSingleChannelTileCompositor::Compose(g_p.d, g_p.s, g_p.x, g_p.y, g_p.border);
    vc_cover("done"); vc_assert(g_p.n == 1, "the tile is painted once"); vc_assert(g_p.d->locks == 0 && g_p.s->locks == 0 && (!g_p.m || g_p.m->locks == 0), "everything is unlocked again");
}
extern "C" void H_tile() { one(false); }
extern "C" void H_tile_mask() { one(true); }
// ---------------------------------------------------------------- all tiles the caller delivers, in order
struct Tl { u64 n, calls, asked; const i32* x; const i32* y; IBitmapData* dst; int px, py; bool border; };
static Tl g_t;
static char g_b[16];
static IBitmapData* tile(u64 i) { return (IBitmapData*)(g_b + i); }
static IBitonalBitmapData* tmask(u64 i) { return (IBitonalBitmapData*)(g_b + i + 1); }
static void placed(IBitmapData* d, IBitmapData* s, i32 x, i32 y, bool b)
{
    u64 k = g_t.calls; vc_assert(k < g_t.n && d == g_t.dst && s == tile(k), "the tiles are painted in the order delivered"); vc_assert((i64)x == (i64)g_t.x[k] - g_t.px && (i64)y == (i64)g_t.y[k] - g_t.py, "relative to the origin of the destination"); vc_assert(b == g_t.border, "border as requested"); g_t.calls++;
}
static void c_compose(IBitmapData* d, IBitmapData* s, int x, int y, bool b) { placed(d, s, x, y, b); }
static void c_composem(IBitmapData* d, IBitmapData* s, IBitonalBitmapData* m, int x, int y, bool b) { vc_assert(m == tmask(g_t.calls), "with the mask of the tile"); placed(d, s, x, y, b); }
static bool t_inv(void*, u64 k, u64) { return g_t.calls == k && g_t.asked == k && k <= g_t.n; }
static bool t_pre(void*, u64 k, u64) { return k >= g_t.n || (fits((i64)g_t.x[k] - g_t.px) && fits((i64)g_t.y[k] - g_t.py)); }
static void many(bool aware, bool opt)
{
    if (!vc_is_proof()) return; vc_replace_name("CSingleChannelTileCompositor7ComposeEPNS", (void*)&c_compose); vc_replace_name("CSingleChannelTileCompositor16ComposeMaskAwareEPNS", (void*)&c_composem);
    g_t.n = vc_u64("n"); vc_assume(g_t.n <= 0x7ffffff0); g_t.x = (const i32*)vc_buf(g_t.n * 4, "xs"); g_t.y = (const i32*)vc_buf(g_t.n * 4, "ys"); g_t.calls = g_t.asked = 0; g_t.dst = tile(3); g_t.px = vc_i32("px"); g_t.py = vc_i32("py"); Compositors::ComposeSingleTileOptions o; o.Clear(); g_t.border = opt && vc_bool("border"); o.drawTileBorder = g_t.border;
    vc_loop_inv(0, t_inv, nullptr, "tiles so far"); vc_assume_forall(0, t_pre, nullptr);
    if (aware) Compositors::ComposeSingleChannelTilesMaskAware([](int i, std::shared_ptr<IBitmapData>& b, std::shared_ptr<IBitonalBitmapData>& m, int& x, int& y)->bool { vc_assert((u64)i == g_t.asked, "the tiles are asked for one by one"); g_t.asked++; if ((u64)i >= g_t.n) return false; b = ref(tile(i)); m = ref(tmask(i)); x = g_t.x[i]; y = g_t.y[i]; return true; }, g_t.dst, g_t.px, g_t.py, opt ? &o : nullptr);
    else Compositors::ComposeSingleChannelTiles([](int i, std::shared_ptr<IBitmapData>& b, int& x, int& y)->bool { vc_assert((u64)i == g_t.asked, "the tiles are asked for one by one"); g_t.asked++; if ((u64)i >= g_t.n) return false; b = ref(tile(i)); x = g_t.x[i]; y = g_t.y[i]; return true; }, g_t.dst, g_t.px, g_t.py, opt ? &o : nullptr);
    vc_cover("done"); vc_assert(g_t.calls == g_t.n, "every tile is painted");
}
extern "C" void H_tiles() { many(false, true); }
extern "C" void H_tiles_default() { many(false, false); }
extern "C" void H_tiles_mask() { many(true, true); }
extern "C" void H_tiles_mask_default() { many(true, false); }
// ---------------------------------------------------------------- the repository, of which one arbitrary subblock is looked at
struct Sb : ISubBlock
{
    SubBlockInfo info; IBitmapData* bm; const SubBlockInfo& GetSubBlockInfo() const override { return info; } void DangerousGetRawData(MemBlkType, const void*&, size_t&) const override {} std::shared_ptr<const void> GetRawData(MemBlkType, size_t*) const override { return nullptr; }
    std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { return ref(bm); }
};
static bool overlap(const IntRect& a, const IntRect& b) { return a.w > 0 && a.h > 0 && b.w > 0 && b.h > 0 && (i64)a.x < (i64)b.x + b.w && (i64)b.x < (i64)a.x + a.w && (i64)a.y < (i64)b.y + b.h && (i64)b.y < (i64)a.y + a.h; }
struct Repo : ISubBlockRepository
{
    int idx; Sb* sb; bool plane, layer0; const IDimCoordinate* pc; int reads; SubBlockStatistics st;
    void EnumerateSubBlocks(const std::function<bool(int, const SubBlockInfo&)>& f) override { f(idx, sb->info); }
    void EnumSubset(const IDimCoordinate* c, const IntRect* roi, bool l0, const std::function<bool(int, const SubBlockInfo&)>& f) override { vc_assert(c == nullptr || c == pc, "the plane asked for"); if (c && !plane) return; if (l0 && !layer0) return; if (roi && !overlap(*roi, sb->info.logicalRect)) return; vc_assert(f(idx, sb->info), "the enumeration goes on"); }
    std::shared_ptr<ISubBlock> ReadSubBlock(int i) override { vc_assert(i == idx, "the subblock asked for is read"); reads++; return ref((ISubBlock*)sb); }
    bool TryGetSubBlockInfoOfArbitrarySubBlockInChannel(int, SubBlockInfo&) override { return false; }
    bool TryGetSubBlockInfo(int i, SubBlockInfo* p) const override { vc_assert(i == idx, "the subblock asked for"); if (p) *p = sb->info; return true; }
    SubBlockStatistics GetStatistics() override { return st; } PyramidStatistics GetPyramidStatistics() override { return PyramidStatistics(); }
    IntPointAndFrameOfReference TransformPoint(const IntPointAndFrameOfReference& p, CZIFrameOfReference) override { return p; }
};
static Repo* mkrepo()
{
    Repo* r = new Repo(); Sb* s = new Sb(); r->sb = s; r->idx = vc_i32("idx"); r->plane = vc_bool("plane"); r->layer0 = vc_bool("layer0"); r->pc = (const IDimCoordinate*)(g_b + 5); r->reads = 0; s->bm = tile(7);
    SubBlockInfo& i = s->info; i.compressionModeRaw = vc_i32("comp"); i.pixelType = PixelType::Gray8; i.logicalRect.x = VC_I32("lx", -9, 9); i.logicalRect.y = VC_I32("ly", -9, 9); i.logicalRect.w = VC_I32("lw", 0, 9); i.logicalRect.h = VC_I32("lh", 0, 9); vc_assume(i.logicalRect.w > 0 && i.logicalRect.h > 0 && fits((i64)i.logicalRect.x + i.logicalRect.w) && fits((i64)i.logicalRect.y + i.logicalRect.h));
    i.physicalSize.w = vc_u32("pw"); i.physicalSize.h = vc_u32("ph"); i.mIndex = vc_i32("m"); i.pyramidType = SubBlockPyramidType::None; return r;
}
struct Set : IIndexSet { int s; bool in; bool IsContained(int i) const override { return i == s ? in : vc_bool("elsewhere"); } };
static IntRect mkroi() { IntRect r; r.x = VC_I32("rx", -9, 9); r.y = VC_I32("ry", -9, 9); r.w = VC_I32("rw", 1, 9); r.h = VC_I32("rh", 1, 9); vc_assume(r.w > 0 && r.h > 0 && fits((i64)r.x + r.w) && fits((i64)r.y + r.h)); return r; }
static void select(bool pyr)
{
    Repo* r = mkrepo(); Set* f = new Set(); bool hasS = vc_bool("hasS"), filt = vc_bool("filt"); f->s = vc_i32("s"); f->in = vc_bool("in"); if (hasS) r->sb->info.coordinate.Set(DimensionIndex::S, f->s); IntRect roi = mkroi(); int n = 0; const SubBlockInfo& i = r->sb->info;
    if (!pyr) { CSingleChannelTileAccessor* a = new CSingleChannelTileAccessor(ref((ISubBlockRepository*)r)); a->GetAllSubBlocks(roi, r->pc, filt ? f : nullptr, [&](int x, int m) { n++; vc_assert(x == r->idx && m == i.mIndex, "the tile is listed with its mosaic index"); }); }
    else { CSingleChannelPyramidLevelTileAccessor* a = new CSingleChannelPyramidLevelTileAccessor(ref((ISubBlockRepository*)r)); a->GetAllSubBlocks(roi, r->pc, filt ? f : nullptr, [&](const CSingleChannelPyramidLevelTileAccessor::SbInfo& x) { n++; vc_assert(x.index == r->idx && x.mIndex == i.mIndex && x.logicalRect.x == i.logicalRect.x && x.logicalRect.y == i.logicalRect.y && x.logicalRect.w == i.logicalRect.w && x.logicalRect.h == i.logicalRect.h && x.physicalSize.w == i.physicalSize.w && x.physicalSize.h == i.physicalSize.h, "the tile is listed with its geometry"); }); }
    bool want = r->plane && (pyr || r->layer0) && !(filt && hasS && !f->in) && overlap(roi, i.logicalRect); if (n) vc_cover("selected"); else vc_cover("not selected"); vc_assert(n == (want ? 1 : 0), "a tile is selected exactly if it is in the plane, on the layer, in the scenes and in the region asked for");
}
extern "C" void H_select() { select(false); }
extern "C" void H_select_pyr() { select(true); }
// ---------------------------------------------------------------- what is read for a tile: the bitmap and (if asked for) the mask of the subblock, whether from the cache or not
static IBitonalBitmapData* g_mask;
static std::shared_ptr<IBitonalBitmapData> c_trymask(const std::shared_ptr<ISubBlock>&) { return ref(g_mask); }
struct Ca : ISubBlockCacheOperation
{
    bool hit; int idx, adds; IBitmapData* b; IBitonalBitmapData* m; CacheItem Get(int i) override { vc_assert(i == idx, "the cache is asked for the subblock"); if (!hit) return {}; return CacheItem(ref(b), ref(m)); }
    void Add(int i, const CacheItem& c) override { adds++; vc_assert(i == idx && c.bitmap.get() == b && c.mask.get() == m, "the cache gets the bitmap of the subblock and its mask"); }
};
extern "C" void H_data()
{
    if (!vc_is_proof()) return; vc_replace_name("TryToGetMaskBitmapFromSubBlock", (void*)&c_trymask); Repo* r = mkrepo(); Ca* c = new Ca(); bool cached = vc_bool("cached"), only = vc_bool("only"), aware = vc_bool("aware"); g_mask = vc_bool("masked") ? tmask(9) : nullptr; c->hit = vc_bool("hit"); c->idx = r->idx; c->adds = 0; c->b = r->sb->bm; c->m = g_mask;   // invariant of the cache: it holds what was added
    std::shared_ptr<ISubBlockCacheOperation> cp; if (cached) cp = ref((ISubBlockCacheOperation*)c);
    auto d = CSingleChannelAccessorBase::GetSubBlockDataIncludingMaskForSubBlockIndex(ref((ISubBlockRepository*)r), cp, r->idx, only, aware); vc_cover("done"); const SubBlockInfo& i = r->sb->info;
    vc_assert(d.bitmap.get() == r->sb->bm, "the bitmap is that of the subblock"); vc_assert(d.mask.get() == (aware ? g_mask : nullptr), "the mask is that of the subblock, if masks are to be considered"); vc_assert(d.subBlockInfo.logicalRect.x == i.logicalRect.x && d.subBlockInfo.logicalRect.y == i.logicalRect.y && d.subBlockInfo.mIndex == i.mIndex && d.subBlockInfo.physicalSize.w == i.physicalSize.w, "the information is that of the subblock");
    vc_assert(c->adds == (cached && !c->hit && !(only && i.compressionModeRaw == 0) ? 1 : 0), "the cache is filled as configured");
}
// ---------------------------------------------------------------- which coordinates denote a plane
extern "C" void H_plane()
{
    Repo* r = mkrepo(); CSingleChannelTileAccessor* a = new CSingleChannelTileAccessor(ref((ISubBlockRepository*)r)); CDimCoordinate* c = new CDimCoordinate(); bool bad = false; static const int ds[4] = { (int)DimensionIndex::Z, (int)DimensionIndex::C, (int)DimensionIndex::B, (int)DimensionIndex::H };
    for (int k = 0; k < 4; ++k)
    {
        bool inb = vc_bool("inb"), inc = vc_bool("inc"); i32 s = VC_I32("s", -3, 5), n = VC_I32("n", 1, 4), v = VC_I32("v", -4, 9); vc_assume(n >= 1 && fits((i64)s + n)); if (inb) r->st.dimBounds.Set((DimensionIndex)ds[k], s, n); if (inc) c->Set((DimensionIndex)ds[k], v);
        if (inb ? (inc ? v < s || (i64)v >= (i64)s + n : n > 1) : inc) bad = true;
    }
    bool hs = vc_bool("hs"); if (hs) { c->Set(DimensionIndex::S, vc_i32("sv")); bad = true; } if (vc_bool("sb")) r->st.dimBounds.Set(DimensionIndex::S, 0, 3);
    bool t = false; try { a->CheckPlaneCoordinates(c); } catch (LibCZIInvalidPlaneCoordinateException&) { t = true; } if (t) vc_cover("refused"); else vc_cover("accepted"); vc_assert(t == bad, "exactly the coordinates which denote one plane are accepted");
}
// ---------------------------------------------------------------- the list of tiles is painted, position by position
struct Cl { const i32* idx; u64 n, i; bool vis; const i32* v; u64 nv; int x, y, w, h; const ISubBlockRepository* r; ISubBlockCacheOperation* c; bool only, aware; SubBlockInfo info; int tiles; int sp; IBitmapData* dst; bool border; };
static Cl g_c;
struct VRep { void* b; void* e; void* c; };
static CSingleChannelAccessorBase::SubBlockData c_data(const std::shared_ptr<ISubBlockRepository>& r, const std::shared_ptr<ISubBlockCacheOperation>& c, int index, bool only, bool aware)
{
    u64 k = g_c.vis ? (u64)(u32)g_c.v[g_c.i] : g_c.i; vc_assert(k < g_c.n && index == g_c.idx[2 * k], "the tile at this position of the list is read"); vc_assert(r.get() == g_c.r && c.get() == g_c.c && only == g_c.only && aware == g_c.aware, "from the repository, with the options given"); g_c.tiles++;
    CSingleChannelAccessorBase::SubBlockData d; d.bitmap = ref(tile(2)); d.mask = ref(tmask(2)); d.subBlockInfo.logicalRect = g_c.info.logicalRect; return d;
}
static void c_tiles(const std::function<bool(int, std::shared_ptr<IBitmapData>&, std::shared_ptr<IBitonalBitmapData>&, int&, int&)>& f, IBitmapData* dst, int x, int y, const Compositors::ComposeSingleTileOptions* o)
{
    g_c.i = vc_u64("i"); u64 n = g_c.vis ? g_c.nv : g_c.n; vc_assume(g_c.i <= n); std::shared_ptr<IBitmapData> b; std::shared_ptr<IBitonalBitmapData> m; int tx = 0, ty = 0; if (g_c.vis && g_c.i < n) vc_assume((u64)(u32)g_c.v[g_c.i] < g_c.n);   /* contract of the visibility test: positions in the list */ bool r = f((int)g_c.i, b, m, tx, ty);
    vc_assert(r == (g_c.i < n), "exactly the tiles listed are delivered"); vc_assert(dst == g_c.dst && (o ? o->drawTileBorder : false) == g_c.border, "destination and border"); if (!r) { vc_cover("end"); return; } vc_cover("tile"); vc_assert(b.get() == tile(2) && m.get() == tmask(2), "with the bitmap and the mask read");
    if (!g_c.sp) vc_assert((i64)tx - x == (i64)g_c.info.logicalRect.x - g_c.x && (i64)ty - y == (i64)g_c.info.logicalRect.y - g_c.y, "at its place relative to the region");
    else vc_assert((i64)tx - x == (g_c.info.logicalRect.x - g_c.x) / g_c.sp && (i64)ty - y == (g_c.info.logicalRect.y - g_c.y) / g_c.sp, "at its place relative to the region, in pixels of the layer");
}
static std::vector<int> c_vis(const CSingleChannelAccessorBase*, const IntRect& roi, int count, const std::function<int(int)>& f)
{
    vc_assert(roi.x == g_c.x && roi.y == g_c.y && roi.w == g_c.w && roi.h == g_c.h && (u64)count == g_c.n, "the visibility test looks at the region and all tiles"); u64 q = vc_u64("q"); vc_assume(q < g_c.n || g_c.n == 0); if (g_c.n) vc_assert(f((int)q) == g_c.idx[2 * q], "and at their subblocks");
    std::vector<int> r; VRep* v = (VRep*)&r; v->b = (void*)g_c.v; v->e = v->c = (void*)(g_c.v + g_c.nv); return r;
}
static void c_free(void*) {}
static void mklist()
{
    g_c.n = vc_u64("n"); vc_assume(g_c.n <= 0x7ffffff0); g_c.idx = (const i32*)vc_buf(g_c.n * 8, "list"); g_c.nv = vc_u64("nv"); vc_assume(g_c.nv <= g_c.n); g_c.v = (const i32*)vc_buf(g_c.nv * 4, "visible"); g_c.x = vc_i32("x"); g_c.y = vc_i32("y"); IntRect& l = g_c.info.logicalRect; l.x = vc_i32("lx"); l.y = vc_i32("ly"); l.w = l.h = 1; vc_assume(fits((i64)l.x - g_c.x) && fits((i64)l.y - g_c.y));
    g_c.only = vc_bool("only"); g_c.aware = vc_bool("aware"); g_c.tiles = 0; g_c.sp = 0; g_c.c = (ISubBlockCacheOperation*)(g_b + 11); g_c.border = vc_bool("border");
    vc_replace_name("GetSubBlockDataIncludingMaskForSubBlockIndex", (void*)&c_data); vc_replace_name("Compositors34ComposeSingleChannelTilesMaskAware", (void*)&c_tiles); vc_replace_name("CSingleChannelAccessorBase18CheckForVisibilityERK", (void*)&c_vis); vc_replace_name("^_ZdlPv", (void*)&c_free);
}
static void clist(bool vis)
{
    if (!vc_is_proof()) return; mklist(); Repo* r = mkrepo(); g_c.r = r; CSingleChannelTileAccessor* a = new CSingleChannelTileAccessor(ref((ISubBlockRepository*)r)); Bm* b = mkbm(0, "dw", "dh", "dst"); g_c.dst = b; g_c.w = (int)b->w; g_c.h = (int)b->h; ISingleChannelTileAccessor::Options o; o.Clear(); o.drawTileBorder = g_c.border; o.useVisibilityCheckOptimization = vis; o.maskAware = g_c.aware; o.onlyUseSubBlockCacheForCompressedData = g_c.only; o.subBlockCache = ref(g_c.c);
    g_c.vis = vis && !g_c.aware; std::vector<CSingleChannelTileAccessor::IndexAndM>* l = new std::vector<CSingleChannelTileAccessor::IndexAndM>(); VRep* v = (VRep*)l; v->b = (void*)g_c.idx; v->e = v->c = (void*)(g_c.idx + 2 * g_c.n);
    a->ComposeTiles(b, g_c.x, g_c.y, *l, o);
}
extern "C" void H_list() { clist(false); }
extern "C" void H_list_vis() { clist(true); }
extern "C" void H_list_pyr()
{
    if (!vc_is_proof()) return; mklist(); Repo* r = mkrepo(); g_c.r = r; g_c.vis = false; CSingleChannelPyramidLevelTileAccessor* a = new CSingleChannelPyramidLevelTileAccessor(ref((ISubBlockRepository*)r)); Bm* b = mkbm(0, "dw", "dh", "dst"); g_c.dst = b; g_c.sp = vc_i32("sp"); vc_assume(g_c.sp >= 1); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.drawTileBorder = g_c.border; o.maskAware = g_c.aware; o.onlyUseSubBlockCacheForCompressedData = g_c.only; o.subBlockCache = ref(g_c.c);
    a->ComposeTiles(b, g_c.x, g_c.y, g_c.sp, (int)g_c.n, o, [](int k)->CSingleChannelPyramidLevelTileAccessor::SbInfo { vc_assert((u64)k < g_c.n, "a tile of the list"); CSingleChannelPyramidLevelTileAccessor::SbInfo i; i.index = g_c.idx[2 * (u64)k]; i.logicalRect = g_c.info.logicalRect; i.mIndex = 0; return i; });
}
// size of a pixel of a layer: the minification factor to the power of the layer
struct Pw { const i32* f; i32 n; i32 m; };
static bool p_inv(void* p, u64 k, u64) { Pw* w = (Pw*)p; return k <= (u64)w->n; }
static bool p_pre(void* p, u64 k, u64) { Pw* w = (Pw*)p; return k >= (u64)w->n || ((i64)w->f[k + 1] == (i64)w->f[k] * w->m); }
static u64 p_val(void* p, u64 k, u64) { Pw* w = (Pw*)p; return (u64)(u32)w->f[k]; }
extern "C" void H_pixelsize()
{
    Pw w; w.m = VC_I32("m", 2, 4); w.n = VC_I32("n", 0, 8); vc_assume(w.m >= 1 && w.n >= 0 && w.n <= 1000); i32* f = (i32*)vc_buf(((u64)w.n + 1) * 4, "powers"); w.f = f; if (!vc_is_proof()) { i64 q = 1; f[0] = 1; for (i32 k = 0; k < w.n; ++k) { q *= w.m; vc_assume(q <= INT32_MAX); f[k + 1] = (i32)q; } } else { vc_assume(f[0] == 1); vc_assume_forall(0, p_pre, &w); vc_loop_inv(0, p_inv, &w, "power"); vc_loop_val(0, p_val, &w); }
    ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = (u8)w.m; vc_assume(w.m <= 255 && w.n <= 255); pi.pyramidLayerNo = (u8)w.n; int s = CSingleChannelPyramidLevelTileAccessor::CalcSizeOfPixelOnLayer0(pi); vc_cover("done"); vc_assert(s == f[w.n], "the size of a pixel is the power of the minification factor");
}
// the order of painting, for any three tiles (std::sort does the same for more: its comparison is a strict weak order)
struct Repo3 : Repo { i32 m[3]; void EnumSubset(const IDimCoordinate*, const IntRect*, bool, const std::function<bool(int, const SubBlockInfo&)>& f) override { for (int k = 0; k < 3; ++k) { sb->info.mIndex = m[k]; f(k, sb->info); } } };
static i64 key(i32 m) { return m == INT32_MAX || m == INT32_MIN ? (i64)INT32_MIN - 1 : m; }   // no mosaic index: first
static void order(bool pyr)
{
    Repo3* r = new Repo3(); Sb* s = new Sb(); r->sb = s; s->info.logicalRect = IntRect{ 0, 0, 5, 5 }; s->info.physicalSize = IntSize{ 5, 5 }; r->pc = nullptr; r->m[0] = VC_I32("m0", 0, 4); r->m[1] = VC_I32("m1", 0, 4); r->m[2] = VC_I32("m2", 0, 4); IntRect roi{ 0, 0, 5, 5 }; bool sort = vc_bool("sort"); i32 o[3], mi[3]; u64 n;
    if (!pyr) { CSingleChannelTileAccessor* a = new CSingleChannelTileAccessor(ref((ISubBlockRepository*)r)); auto l = a->GetSubBlocksSubset(roi, nullptr, nullptr, sort); n = l.size(); if (n == 3) for (int k = 0; k < 3; ++k) { o[k] = l[k].index; mi[k] = l[k].mIndex; } }
    else { CSingleChannelPyramidLevelTileAccessor* a = new CSingleChannelPyramidLevelTileAccessor(ref((ISubBlockRepository*)r)); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{ 2, 1 }; auto l = a->GetSubBlocksSubset(roi, nullptr, pi, nullptr, sort); n = l.size(); if (n == 3) for (int k = 0; k < 3; ++k) { o[k] = l[k].index; mi[k] = l[k].mIndex; } }
    vc_assert(n == 3, "every tile is listed"); if (n != 3) return; vc_assert(o[0] != o[1] && o[1] != o[2] && o[0] != o[2], "once"); for (int k = 0; k < 3; ++k) { vc_assert(o[k] >= 0 && o[k] < 3, "a tile"); if (o[k] >= 0 && o[k] < 3) vc_assert(mi[k] == r->m[o[k]], "with its mosaic index"); }
    if (sort) { vc_cover("sorted"); vc_assert(key(mi[0]) <= key(mi[1]) && key(mi[1]) <= key(mi[2]), "in ascending order of the mosaic index"); } else { vc_cover("as is"); vc_assert(o[0] == 0 && o[1] == 1 && o[2] == 2, "in the order of the document"); }
}
extern "C" void H_order() { order(false); }
extern "C" void H_order_pyr() { order(true); }
// ---------------------------------------------------------------- the whole request: background, then the selected tiles; the region in the raw frame of reference
struct Rq { int x, y; IBitmapData* d; const IDimCoordinate* pc; const ISingleChannelTileAccessor::Options* o; int checked, filled, listed, composed, got; RgbFloatColor col; const IIndexSet* sf; bool sort; u32 w, h; };
static Rq g_r;
static void c_check(const CSingleChannelAccessorBase*, const IDimCoordinate* c) { vc_assert(c == g_r.pc, "the coordinate given is checked"); g_r.checked++; }
static void c_fill(IBitmapData* d, const RgbFloatColor& c) { vc_assert(d == g_r.d && c.r == g_r.col.r && c.g == g_r.col.g && c.b == g_r.col.b, "the background colour"); vc_assert(g_r.composed == 0, "before the tiles"); g_r.filled++; }
static std::vector<CSingleChannelTileAccessor::IndexAndM> c_subset(CSingleChannelTileAccessor*, const IntRect& roi, const IDimCoordinate* c, const IIndexSet* f, bool sort)
{
    vc_assert(roi.x == g_r.x && roi.y == g_r.y && (u32)roi.w == g_r.w && (u32)roi.h == g_r.h, "the tiles of the region of the destination"); vc_assert(c == g_r.pc && f == g_r.sf && sort == g_r.sort, "of the plane and the scenes, in the order requested"); g_r.listed++; return std::vector<CSingleChannelTileAccessor::IndexAndM>();
}
static void c_composelist(CSingleChannelTileAccessor*, IBitmapData* d, int x, int y, const std::vector<CSingleChannelTileAccessor::IndexAndM>& l, const ISingleChannelTileAccessor::Options& o) { vc_assert(d == g_r.d && x == g_r.x && y == g_r.y && g_r.listed == 1, "these tiles are painted"); vc_assert(g_r.o == nullptr || &o == g_r.o, "with the options given"); g_r.composed++; }
extern "C" void H_request()
{
    if (!vc_is_proof()) return; vc_replace_name("CSingleChannelAccessorBase21CheckPlaneCoordinates", (void*)&c_check); vc_replace_name("CBitmapOperations4FillEPNS", (void*)&c_fill); vc_replace_name("CSingleChannelTileAccessor18GetSubBlocksSubset", (void*)&c_subset); vc_replace_name("CSingleChannelTileAccessor12ComposeTiles", (void*)&c_composelist);
    Repo* r = mkrepo(); CSingleChannelTileAccessor* a = new CSingleChannelTileAccessor(ref((ISubBlockRepository*)r)); Bm* b = mkbm(0, "dw", "dh", "dst"); g_r = Rq(); g_r.d = b; g_r.w = b->w; g_r.h = b->h; g_r.x = vc_i32("x"); g_r.y = vc_i32("y"); g_r.pc = r->pc; ISingleChannelTileAccessor::Options o; o.Clear(); bool dflt = vc_bool("dflt"); Set* f = new Set(); g_r.sort = true;
    float nan = o.backGroundColor.r; g_r.col = RgbFloatColor{ vc_f32("cr"), vc_f32("cg"), vc_f32("cb") }; o.backGroundColor = g_r.col; if (!dflt) { g_r.o = &o; g_r.sort = o.sortByM = vc_bool("sort"); if (vc_bool("filt")) { g_r.sf = f; o.sceneFilter = ref((IIndexSet*)f); } }
    a->InternalGet(g_r.x, g_r.y, b, g_r.pc, dflt ? nullptr : &o); bool none = dflt || std::isnan(g_r.col.r) || std::isnan(g_r.col.g) || std::isnan(g_r.col.b); (void)nan;
    vc_cover("done"); vc_assert(g_r.checked >= 1 && g_r.composed == 1, "the plane is checked and its tiles are painted once"); vc_assert(g_r.filled == (none ? 0 : 1), "the background is painted unless it is to be left alone");
}
// the point of the request is converted to the raw frame of reference
struct RepoT : Repo { int dx, dy; CZIFrameOfReference fr; IntPointAndFrameOfReference TransformPoint(const IntPointAndFrameOfReference& p, CZIFrameOfReference d) override { vc_assert(p.frame_of_reference == fr && d == CZIFrameOfReference::RawSubBlockCoordinateSystem, "from the frame given to the raw frame of reference"); IntPointAndFrameOfReference q; q.frame_of_reference = d; q.point.x = p.point.x + dx; q.point.y = p.point.y + dy; return q; } };   // a translation (P16)
struct SiteT : ISite
{
    Bm* b; PixelType pt; int n; bool IsEnabled(int) override { return false; } void Log(int, const char*) override {} std::shared_ptr<IDecoder> GetDecoder(ImageDecoderType, const char*) override { return nullptr; } void TerminateProgram(TerminationReason, const char*) override {}
    std::shared_ptr<IBitmapData> CreateBitmap(PixelType p, u32 w, u32 h, u32, u32, u32) override { n++; vc_assert(p == pt && w == g_r.w && h == g_r.h, "the bitmap has the pixel type and the size asked for"); return ref((IBitmapData*)b); }
};
static SiteT* g_site; static ISite* c_site() { return g_site; }
static void c_iget(CSingleChannelTileAccessor*, int x, int y, IBitmapData* d, const IDimCoordinate* c, const ISingleChannelTileAccessor::Options* o) { vc_assert(x == g_r.x && y == g_r.y && d == g_r.d && c == g_r.pc && o == g_r.o, "the request is the one given, in the raw frame"); g_r.got++; }
static void c_pget(CSingleChannelPyramidLevelTileAccessor*, IBitmapData* d, int x, int y, int sp, const IDimCoordinate* c, const ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo& p, const ISingleChannelPyramidLayerTileAccessor::Options& o) { vc_assert(x == g_r.x && y == g_r.y && d == g_r.d && c == g_r.pc && sp == 4, "the request is the one given, in the raw frame"); vc_assert(p.minificationFactor == 2 && p.pyramidLayerNo == 2, "the layer given"); g_r.got++; }
static void getreq(int which)
{
    if (!vc_is_proof()) return; vc_replace_name("CSingleChannelTileAccessor11InternalGet", (void*)&c_iget); vc_replace_name("CSingleChannelPyramidLevelTileAccessor11InternalGet", (void*)&c_pget); vc_replace_name("7GetSiteEv$", (void*)&c_site);
    RepoT* r = new RepoT(); i32 fx = vc_i32("fx"), fy = vc_i32("fy"); r->dx = vc_i32("dx"); r->dy = vc_i32("dy"); vc_assume(fits((i64)fx + r->dx) && fits((i64)fy + r->dy)); r->fr = vc_bool("pixel") ? CZIFrameOfReference::PixelCoordinateSystem : CZIFrameOfReference::Default; Bm* b = mkbm(0, "dw", "dh", "dst"); g_r = Rq(); g_r.d = b; g_r.x = fx + r->dx; g_r.y = fy + r->dy; g_r.pc = (const IDimCoordinate*)(g_b + 5); ISingleChannelTileAccessor::Options o; o.Clear(); g_r.o = vc_bool("opt") ? &o : nullptr; g_site = new SiteT(); g_site->b = b; g_site->pt = b->pt; g_site->n = 0;
    CSingleChannelTileAccessor* a = new CSingleChannelTileAccessor(ref((ISubBlockRepository*)r)); CSingleChannelPyramidLevelTileAccessor* pa = new CSingleChannelPyramidLevelTileAccessor(ref((ISubBlockRepository*)r)); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{ 2, 2 }; IntPointAndFrameOfReference p; p.frame_of_reference = r->fr; p.point.x = fx; p.point.y = fy; IntRectAndFrameOfReference q; q.frame_of_reference = r->fr; q.rectangle.x = fx; q.rectangle.y = fy; q.rectangle.w = vc_i32("w"); q.rectangle.h = vc_i32("h"); vc_assume(q.rectangle.w >= 4 && q.rectangle.h >= 4 && fits((i64)fx + q.rectangle.w) && fits((i64)fy + q.rectangle.h) && fits((i64)fx + q.rectangle.w + r->dx) && fits((i64)fy + q.rectangle.h + r->dy)); g_r.w = which == 3 ? q.rectangle.w / 4 : q.rectangle.w; g_r.h = which == 3 ? q.rectangle.h / 4 : q.rectangle.h;
    if (which == 0) a->Get(b, p, g_r.pc, g_r.o);
    else if (which == 1) { auto x = a->Get(b->pt, q, g_r.pc, g_r.o); vc_assert(x.get() == b && g_site->n == 1, "the bitmap composed is delivered"); }
    else { ISingleChannelPyramidLayerTileAccessor::Options po; po.Clear(); bool d = vc_bool("pd"); if (which == 2) pa->Get(b, p, g_r.pc, pi, d ? nullptr : &po); else { auto x = pa->Get(b->pt, q, g_r.pc, pi, d ? nullptr : &po); vc_assert(x.get() == b && g_site->n == 1, "the bitmap composed is delivered"); } }
    vc_cover("done"); vc_assert(g_r.got == 1, "one request");
}
extern "C" void H_get_dest() { getreq(0); }
extern "C" void H_get_new() { getreq(1); }
extern "C" void H_get_pyr_dest() { getreq(2); }
extern "C" void H_get_pyr_new() { getreq(3); }
