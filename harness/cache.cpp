// contracts of the subblock cache over a specification of std::map, std::atomic and std::mutex (vcmap.h)
// TUS: CziUtils.cpp libCZI_Utilities.cpp
#include "vcmap.h"
#include "libCZI.h"
#define private public
#define protected public
#define mutex vcmutex
#define atomic vcatomic
#define map vcmap
#include "subblock_cache.h"
#include "subblock_cache.cpp"
#undef map
#undef atomic
#undef mutex
#undef private
#undef protected
typedef SubBlockCache C; typedef C::CacheEntry E; typedef std::pair<const int, E> VT; typedef uint64_t u64; typedef uint32_t u32;
struct Bmp : IBitmapData
{
    PixelType pt; u32 w, h; PixelType GetPixelType() const override { return pt; } IntSize GetSize() const override { return IntSize{ w, h }; }
    BitmapLockInfo Lock() override { return {}; } void Unlock() override {} int GetLockCount() const override { return 0; }
};
struct Msk : IBitonalBitmapData
{
    u32 w, h; IntSize GetSize() const override { return IntSize{ w, h }; } BitonalBitmapLockInfo Lock() override { return {}; } void Unlock() override {} int GetLockCount() const override { return 0; }
};
static u64 bpp(PixelType p) { switch (p) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; default: return 4; } }
static Bmp* mkb() { Bmp* b = new Bmp(); uint8_t t = VC_U8("pt", 0, 5); vc_assume(t <= 4 || t == 9); b->pt = (PixelType)t; b->w = vc_u32("w"); b->h = vc_u32("h"); vc_assume(b->w >= 1 && b->h >= 1 && b->w <= 0x3fffffff && b->h <= 0x3fffffff); return b; }
static Msk* mkm() { Msk* m = new Msk(); m->w = vc_u32("mw"); m->h = vc_u32("mh"); vc_assume(m->w <= 0x3fffffff && m->h <= 0x3fffffff); return m; }
static u64 bsize(const Bmp* b) { return (u64)b->w * b->h * Utils::GetBytesPerPixel(b->pt); }   // shown to be the number of bytes of the pixels by H_cache_size
static u64 msize(const Msk* m) { return m ? (u64)((m->w + 7) / 8) * m->h : 0; }
template <> void VcElem<E>::arbitrary(E& e) { Bmp* b = mkb(); e.bitmap = std::shared_ptr<IBitmapData>(std::shared_ptr<IBitmapData>(), b); if (vc_bool("masked")) e.mask = std::shared_ptr<IBitonalBitmapData>(std::shared_ptr<IBitonalBitmapData>(), mkm()); e.lru_value = vc_u64("lru"); }
template <> u64 VcElem<E>::size(const E& e) { return bsize((const Bmp*)e.bitmap.get()) + msize((const Msk*)e.mask.get()); }
typedef VcElem<E> X;
template <> void VcElem<E>::removed(const E& e, const E* k) { if (k) vc_assert(e.lru_value <= k->lru_value, "the least recently used element is removed"); }
struct St { C* c; u64 n, s; bool kp; IBitmapData* b; IBitonalBitmapData* m; u64 lru, clk; };
static St g;
static u64 tn() { return g_m.nr + (g_m.kp ? 1 : 0); }
static u64 ts() { return g_m.sr + (g_m.kp ? X::size(((VT*)g_m.ke)->second) : 0); }
static void inv(const char* w) { std::vcmap<int, E>::settle(); vc_assert(g.c->cache_size_in_bytes_.v == ts(), "the memory usage is the size of what is held"); vc_assert(g.c->cache_subblock_count_.v == tn(), "the count is the number of elements held"); (void)w; }
// an arbitrary state in which the invariant holds
static C* mk(int kp, int held, int oldest)
{
    g_m.held = held; g_m.oldest = oldest;     vc_abstract_mul(true); C* c = new C(); g.c = c; g_l.held = false; g_l.session = 1; g_m.K = vc_i32("K"); g_m.kp = vc_tri(kp, "kp"); g_m.oe = nullptr; g_m.rescan = nullptr; g_m.scans = 0; E e; X::arbitrary(e); g_m.ke = new VT(g_m.K, e);
    g_m.nr = vc_u32("nr"); g_m.sr = vc_u64("sr"); if (held == 1 || oldest == 0) vc_assume(g_m.nr > 0); vc_assume(g_m.nr <= 0x7fffffff && g_m.sr <= (1ull << 62) && (g_m.nr > 0 || g_m.sr == 0)); g.clk = vc_u64("clk"); vc_assume(g.clk < (1ull << 62) && e.lru_value < g.clk);
    c->cache_size_in_bytes_.v = g.s = ts(); c->cache_subblock_count_.v = (u32)(g.n = tn()); c->lru_counter_.v = g.clk; g.kp = g_m.kp; g.b = e.bitmap.get(); g.m = e.mask.get(); g.lru = e.lru_value; return c;
}
static E& ke() { return ((VT*)g_m.ke)->second; }
static void locked() { vc_assert(!g_l.held, "the mutex is released"); vc_assert(g.c->cache_size_in_bytes_.wl && g.c->cache_subblock_count_.wl, "the counters are only changed while the mutex is held"); }
static void same() { vc_assert(g_m.kp == g.kp && (!g.kp || (ke().bitmap.get() == g.b && ke().mask.get() == g.m)), "other keys keep their element"); vc_assert(!g.kp || ke().lru_value == g.lru, "and their age"); }
extern "C" void H_cache_size()
{
    E e; X::arbitrary(e); vc_cover("done"); Bmp* b = (Bmp*)e.bitmap.get(); vc_assert(Utils::GetBytesPerPixel(b->pt) == bpp(b->pt), "bytes per pixel"); vc_assert(C::CalculateSizeInBytes(e) == X::size(e), "the size of an element is that of its bitmap and its mask");
}
extern "C" void H_cache_get()
{
    if (!vc_is_proof()) return; C* c = mk(2, 2, 2); int k = vc_i32("k"); auto i = c->Get(k); locked(); inv("get"); vc_assert(tn() == g.n, "nothing is added or removed");
    if (k == g_m.K) { vc_cover("key"); vc_assert(i.bitmap.get() == (g.kp ? g.b : nullptr) && i.mask.get() == (g.kp ? g.m : nullptr), "the element held under the key is returned, or nothing"); vc_assert(g_m.kp == g.kp, "it stays"); if (g.kp) { vc_cover("hit"); vc_assert(ke().bitmap.get() == g.b && ke().mask.get() == g.m && ke().lru_value >= g.clk, "it becomes the most recently used one"); } }
    else { vc_cover("other key"); same(); } vc_assert(c->lru_counter_.v >= g.clk && (!g_m.kp || ke().lru_value < c->lru_counter_.v), "time goes on");
}
static void h_add(int kp, int held, bool own)
{
    if (!vc_is_proof()) return; C* c = mk(kp, held, 2); int k = own ? g_m.K : vc_i32("k"); vc_assume(own == (k == g_m.K)); Bmp* b = mkb(); Msk* m = vc_bool("withmask") ? mkm() : nullptr;
    ISubBlockCacheOperation::CacheItem it(std::shared_ptr<IBitmapData>(std::shared_ptr<IBitmapData>(), b), m ? std::shared_ptr<IBitonalBitmapData>(std::shared_ptr<IBitonalBitmapData>(), m) : std::shared_ptr<IBitonalBitmapData>());
    c->Add(k, it); locked(); inv("add"); vc_cover("done");
    if (own) { vc_assert(g_m.kp && ke().bitmap.get() == b && ke().mask.get() == m, "the element is held under the key"); vc_assert(tn() == g.n + (g.kp ? 0 : 1), "one element per key"); vc_assert(ke().lru_value >= g.clk, "it is the most recently used one"); }
    else { same(); vc_assert(tn() == g.n || tn() == g.n + 1, "one element per key"); } vc_assert(c->lru_counter_.v >= g.clk && (!g_m.kp || ke().lru_value < c->lru_counter_.v), "time goes on");
}
extern "C" void H_cache_add_replace() { h_add(1, 2, true); }
extern "C" void H_cache_add_new() { h_add(0, 2, true); }
extern "C" void H_cache_add_other_replace_0() { h_add(0, 1, false); }
extern "C" void H_cache_add_other_replace_1() { h_add(1, 1, false); }
extern "C" void H_cache_add_other_new() { h_add(2, 0, false); }
// pruning: one removal in an arbitrary state in which the limits are exceeded; the loop is cut where the next element to be removed is looked for
static u64 g_maxs; static u32 g_maxn; static u64 g_s0, g_n0;
static bool over() { return ts() > g_maxs || tn() > g_maxn; }
static void step()
{
    inv("prune"); vc_assert(tn() + 1 == g_n0, "one element is removed at a time"); if (g.kp && g_m.kp) same();
}
static bool rescan() { bool first = g_m.scans == 0; g_m.scans++; if (first) { vc_cover("over"); vc_assert(over(), "elements are removed only while a limit is exceeded"); g_n0 = tn(); g_s0 = ts(); return false; } step(); vc_cover("next"); return true; }
static void h_prune(int kp, int oldest)
{
    if (!vc_is_proof()) return; C* c = mk(kp, 2, oldest); ISubBlockCacheControl::PruneOptions o; o.maxMemoryUsage = g_maxs = vc_u64("maxs"); o.maxSubBlockCount = g_maxn = vc_u32("maxn"); g_m.rescan = &rescan;
    c->Prune(o); locked(); inv("prune"); vc_cover("done"); vc_assert(!over() || tn() == 0, "the limits are met"); if (g_m.scans) { vc_cover("removed"); if (tn() + 1 == g_n0) step(); } else { vc_assert(tn() == g.n, "nothing is removed"); if (g.kp) same(); }
}
extern "C" void H_cache_prune_none() { h_prune(0, 2); }
extern "C" void H_cache_prune_key() { h_prune(1, 1); }
extern "C" void H_cache_prune_other() { h_prune(1, 0); }
extern "C" void H_cache_stat()
{
    if (!vc_is_proof()) return; C* c = mk(2, 2, 2); uint8_t m = vc_u8("mask"); vc_assume(m <= 3); const C* cc = c; auto s = cc->GetStatistics(m); locked(); inv("stat"); vc_assert(tn() == g.n, "nothing changes");
    vc_assert(s.validityMask == m, "exactly what is asked for is reported"); vc_assert(!(m & 1) || s.memoryUsage == g.s, "memory usage"); vc_assert(!(m & 2) || s.elementsCount == g.n, "element count");
    if (m == 3) { vc_cover("both"); vc_assert(c->cache_size_in_bytes_.rl && c->cache_subblock_count_.rl && c->cache_size_in_bytes_.rs == c->cache_subblock_count_.rs, "both values are read while the mutex is held once"); }
}
