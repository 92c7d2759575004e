// contract of the visibility test, over a specification of std::vector<int> (seen through one arbitrary value) and of the coverage calculator (H_add, H_area, H_covered of rect.cpp)
// TUS: CziUtils.cpp libCZI_Utilities.cpp utilities.cpp DimCoordinate.cpp
#include "vc.h"
#include "std_all.h"
#include "libCZI.h"
#include "CZIReader.h"
#include "BitmapOperations.h"
#include "libCZI_Pixels.h"
#include "utilities.h"
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
struct VecG { u64 cnt; i64 last; bool has; int t; bool rev; };
static VecG g_v;
namespace std
{
struct vvit { int pos; };
template <class T> struct vcvector
{
    typedef T value_type; vcvector() {} void reserve(size_t) {} void push_back(const T& v) { vc_assert(!g_v.rev, "tiles are listed before the order is settled"); vc_assert(g_v.cnt == 0 || (i64)v < g_v.last, "tiles are listed from the top downwards, each once"); g_v.cnt++; g_v.last = v; if ((i64)v == g_v.t) g_v.has = true; } void emplace_back(const T& v) { push_back(v); }
    vvit begin() const { return vvit{ 0 }; } vvit end() const { return vvit{ 1 }; } bool empty() const { return g_v.cnt == 0; } size_t size() const { return g_v.cnt; }
};
inline void reverse(vvit a, vvit b) { vc_assert(a.pos == 0 && b.pos == 1, "all of the list"); g_v.rev = !g_v.rev; }
}
#define private public
#define protected public
#define vector vcvector
#include "SingleChannelAccessorBase.h"
#include "SingleChannelAccessorBase.cpp"
#undef vector
#undef private
#undef protected
struct Vs { i64 n, t, T; const i64* A; u64 added; i64 total; IntRect roi; i64 asked; };
static Vs g;
static void c_add(RectangleCoverageCalculator*, const IntRect& r) { vc_assert(r.x == (i32)(g.n - 1 - (i64)g.added) && r.w == 7, "the rectangles are added from the top downwards"); g.added++; }
static i64 c_area(const RectangleCoverageCalculator*, const IntRect& q) { vc_assert(q.x == g.roi.x && q.y == g.roi.y && q.w == g.roi.w && q.h == g.roi.h, "the area covered of the region"); return g.A[g.added]; }
static bool inv(void*, u64 k, u64) { return g.added == k && k <= (u64)g.n && g_v.has == ((i64)k > g.T) && (g_v.cnt == 0 || g_v.last >= g.n - (i64)k) && !g_v.rev && g_v.cnt <= k; }
// the tile t is the first (from the top) which covers some pixel of the region: the area covered grows with it, and is not everything before
static bool pre(void*, u64 k, u64) { return k >= (u64)g.n || (g.A[k + 1] >= g.A[k] && g.A[k + 1] <= g.total && ((i64)k != g.T || g.A[k + 1] > g.A[k]) && ((i64)k + 1 > g.T || g.A[k + 1] < g.total)); }
static u64 val(void*, u64 k, u64) { return (u64)g.A[k]; }
extern "C" void H_visible()
{
    if (!vc_is_proof()) return; vc_abstract_mul(true); vc_replace_name("RectangleCoverageCalculator12AddRectangleERK", (void*)&c_add); vc_replace_name("RectangleCoverageCalculator35CalcAreaOfIntersectionWithRectangle", (void*)&c_area);
    g.n = vc_i32("n"); g.t = vc_i32("t"); vc_assume(g.n >= 1 && g.t >= 0 && g.t < g.n); g.T = g.n - 1 - g.t; i64* A = (i64*)vc_buf(((u64)g.n + 1) * 8, "areas"); g.A = A; vc_assume(A[0] == 0); g.added = 0; g.roi.x = vc_i32("x"); g.roi.y = vc_i32("y"); g.roi.w = vc_i32("w"); g.roi.h = vc_i32("h"); vc_assume(g.roi.w > 0 && g.roi.h > 0); g.total = (i64)g.roi.w * g.roi.h; vc_assume(g.total > 0); g_v = VecG(); g_v.t = (int)g.t;
    vc_assume_forall(0, pre, nullptr); vc_loop_inv(0, inv, nullptr, "tiles so far"); vc_loop_val(0, val, nullptr);
    CSingleChannelAccessorBase::CheckForVisibilityCore(g.roi, (int)g.n, [](int i)->int { return i + 1; }, [](int s)->IntRect { return IntRect{ s - 1, 0, 7, 7 }; });
    vc_cover("done"); vc_assert(g_v.has, "a tile of which a pixel is visible is listed"); vc_assert(g_v.rev || g_v.cnt < 2, "the list is in the order of painting");
}
extern "C" void H_visible_none()
{
    if (!vc_is_proof()) return; g.roi.x = vc_i32("x"); g.roi.y = vc_i32("y"); g.roi.w = vc_i32("w"); g.roi.h = vc_i32("h"); i32 n = vc_i32("n"); vc_assume(n >= 0 && (n == 0 || g.roi.w <= 0 || g.roi.h <= 0)); g_v = VecG();
    CSingleChannelAccessorBase::CheckForVisibilityCore(g.roi, n, [](int i)->int { return i; }, [](int)->IntRect { return IntRect{ 0, 0, 1, 1 }; }); vc_cover("done"); vc_assert(g_v.cnt == 0, "an empty region shows no tile");
}
