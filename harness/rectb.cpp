// bounded stand-ins: coverage calculator and visibility test over small grids (also placed near the limits of the integers)
// NTUS: @lib
#include "api.h"
#define private public
#define protected public
#include "utilities.h"
#include "SingleChannelAccessorBase.h"
#undef private
#undef protected
using namespace api;
using namespace libCZI::detail;
static IntRect some_rect(Rng& r, int ox, int oy, int G)
{
    int k = r.in(0, 9); IntRect q{ ox + r.in(-2, G), oy + r.in(-2, G), r.in(1, k < 3 ? G + 3 : 5), r.in(1, k < 3 ? G + 3 : 5) };
    if (k == 9) { if (r.p(50)) q.w = r.in(-1, 0); else q.h = r.in(-1, 0); }
    return q;
}
static int origin(Rng& r, int G) { return r.p(80) ? r.in(-G, 2) : r.p(50) ? std::numeric_limits<int>::max() - 2 * G - 8 : std::numeric_limits<int>::min() + 2; }
static bool in(const IntRect& q, int64_t x, int64_t y) { return q.w > 0 && q.h > 0 && x >= q.x && x < (int64_t)q.x + q.w && y >= q.y && y < (int64_t)q.y + q.h; }
extern "C" void B_coverage()
{
    Rng r = make_rng(); int G = r.in(4, 14), ox = origin(r, G), oy = origin(r, G), n = r.in(1, 14); vector<IntRect> l; RectangleCoverageCalculator c;
    if (r.p(70)) for (int i = 0; i < n; ++i) { l.push_back(some_rect(r, ox, oy, G)); c.AddRectangle(l.back()); }
    else { for (int i = 0; i < n; ++i) l.push_back(some_rect(r, ox, oy, G)); c.AddRectangles(l.begin(), l.end()); }
    for (int t = 0; t < 4; ++t)
    {
        IntRect q = some_rect(r, ox, oy, G); int64_t a = 0, tot = 0;
        for (int64_t y = (int64_t)oy - 4; y < (int64_t)oy + 2 * G + 8; ++y) for (int64_t x = (int64_t)ox - 4; x < (int64_t)ox + 2 * G + 8; ++x) if (in(q, x, y)) { ++tot; for (auto& e : l) if (in(e, x, y)) { ++a; break; } }
        if (getenv("VCD") && c.CalcAreaOfIntersectionWithRectangle(q) != a) { fprintf(stderr, "%d want %d q %d %d %d %d o %d %d\n", (int)c.CalcAreaOfIntersectionWithRectangle(q), (int)a, q.x, q.y, q.w, q.h, ox, oy); for (auto& e : l) fprintf(stderr, " rect %d %d %d %d\n", e.x - ox, e.y - oy, e.w, e.h); for (auto& e : c.splitters_) fprintf(stderr, " split %d %d %d %d\n", e.x - ox, e.y - oy, e.w, e.h); }
        vc_assert(c.CalcAreaOfIntersectionWithRectangle(q) == a, "the covered area is that of the intersection with the union");
        vc_assert(c.IsCompletelyCovered(q) == (a == tot), "completely covered exactly if every point is");
        for (auto& e : l) { bool any = false; for (int64_t y = (int64_t)oy - 4; y < (int64_t)oy + 2 * G + 8 && !any; ++y) for (int64_t x = (int64_t)ox - 4; x < (int64_t)ox + 2 * G + 8; ++x) any |= in(q, x, y) && in(e, x, y); vc_assert(Utilities::DoIntersect(q, e) == any, "rectangles intersect exactly if they share a point"); if (q.IsNonEmpty() && e.IsNonEmpty()) vc_assert(q.IntersectsWith(e) == any, "rectangles intersect exactly if they share a point (member)"); }
    }
    if (n > 3) vc_cover("several");
}
extern "C" void B_visibility()
{
    Rng r = make_rng(); int G = r.in(4, 14), ox = origin(r, G), oy = origin(r, G), n = r.in(0, 12); vector<IntRect> l; vector<int> id;
    for (int i = 0; i < n; ++i) { l.push_back(some_rect(r, ox, oy, G)); id.push_back(100 + 7 * i); }
    IntRect roi = some_rect(r, ox, oy, G);
    auto v = CSingleChannelAccessorBase::CheckForVisibilityCore(roi, n, [&](int i) { return id.at(i); }, [&](int s) { for (int i = 0; i < n; ++i) if (id[i] == s) return l[i]; vc_assert(false, "only the subblocks given are asked for"); return IntRect{}; });
    for (size_t i = 0; i < v.size(); ++i) { vc_assert(v[i] >= 0 && v[i] < n, "a result is one of the tiles"); if (i) vc_assert(v[i - 1] < v[i], "the order is unchanged"); }
    for (int i = 0; i < n; ++i)
    {
        bool vis = false;
        for (int64_t y = (int64_t)oy - 4; y < (int64_t)oy + 2 * G + 8; ++y) for (int64_t x = (int64_t)ox - 4; x < (int64_t)ox + 2 * G + 8; ++x) if (in(roi, x, y) && in(l[i], x, y)) { bool hid = false; for (int j = i + 1; j < n; ++j) hid |= in(l[j], x, y); vis |= !hid; }
        if (vis) vc_assert(std::find(v.begin(), v.end(), i) != v.end(), "a visible tile is not dropped"); else vc_cover("hidden tile");
    }
}
