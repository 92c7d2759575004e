// rectangle algebra and the coverage calculator (libCZI_Pixels.h, utilities.h, utilities.cpp): a rectangle denotes a set of points,
// and every statement is made for an arbitrary (ghost) point
#include "vc.h"
#include "std_all.h"
#define private public
#define protected public
#include "utilities.cpp"
#undef private
#undef protected
using namespace libCZI;
using namespace libCZI::detail;
typedef uint64_t u64; typedef int64_t i64;
typedef RectangleCoverageCalculator RCC;
struct Rep { IntRect *b, *e, *c; };   // the three pointers of a std::vector
static Rep& rep(RCC& c) { return *(Rep*)(void*)&c.splitters_; }
static bool in(const IntRect& r, i64 x, i64 y) { return x >= r.x && x < (i64)r.x + r.w && y >= r.y && y < (i64)r.y + r.h; }
static IntRect rect(const char* x, const char* y, const char* w, const char* h)
{
    IntRect r; r.x = VC_I32(x, -4, 8); r.y = VC_I32(y, -4, 8); r.w = VC_I32(w, -1, 8); r.h = VC_I32(h, -1, 8); return r;
}
static bool fits(const IntRect& r) { return r.w >= 0 && r.h >= 0 && (i64)r.x + r.w <= 0x7fffffff && (i64)r.y + r.h <= 0x7fffffff; }
static i64 area(const IntRect& r) { return r.w >= 0 && r.h >= 0 ? (i64)r.w * r.h : 0; }

extern "C" void H_intersect()
{
    IntRect a = rect("ax", "ay", "aw", "ah"), b = rect("bx", "by", "bw", "bh"); i64 x = VC_I64("x", -6, 16), y = VC_I64("y", -6, 16);
    vc_assume(a.w >= 0 && a.h >= 0 && b.w >= 0 && b.h >= 0);
    IntRect c = IntRect::Intersect(a, b), d = a.Intersect(b), e = Utilities::Intersect(a, b);
    vc_cover("done");
    vc_assert(c.w >= 0 && c.h >= 0 && e.w >= 0 && e.h >= 0, "an intersection is a valid rectangle");
    vc_assert(in(c, x, y) == (in(a, x, y) && in(b, x, y)), "a point is in the intersection exactly if it is in both rectangles");
    vc_assert(d.x == c.x && d.y == c.y && d.w == c.w && d.h == c.h, "the member function gives the same intersection");
    vc_assert(in(e, x, y) == (in(a, x, y) && in(b, x, y)), "a point is in the intersection exactly if it is in both rectangles (Utilities)");
    if (in(a, x, y) && in(b, x, y)) { vc_cover("overlap"); vc_assert(a.IntersectsWith(b) && Utilities::DoIntersect(a, b), "rectangles with a common point intersect"); }
    // the upper-left corner of the intersection is a witness
    i64 wx = a.x > b.x ? a.x : b.x, wy = a.y > b.y ? a.y : b.y; bool any = in(a, wx, wy) && in(b, wx, wy);
    vc_assert(Utilities::DoIntersect(a, b) == any, "rectangles reported as intersecting have a common point (Utilities)");
    if (a.w > 0 && a.h > 0 && b.w > 0 && b.h > 0) vc_assert(a.IntersectsWith(b) == any, "rectangles reported as intersecting have a common point");
}
extern "C" void H_invalid()
{
    IntRect a = rect("ax", "ay", "aw", "ah"), b = rect("bx", "by", "bw", "bh");
    bool va = a.w >= 0 && a.h >= 0, vb = b.w >= 0 && b.h >= 0;
    vc_cover("done");
    vc_assert(a.IsValid() == va, "validity"); vc_assert(a.IsNonEmpty() == (a.w > 0 && a.h > 0), "emptiness");
    if (!va || !vb) vc_assert(!a.IntersectsWith(b), "an invalid rectangle intersects nothing");
    IntRect c = a; c.Invalidate(); vc_assert(!c.IsValid(), "Invalidate gives an invalid rectangle");
}
extern "C" void H_contained()
{
    IntRect a = rect("ax", "ay", "aw", "ah"), b = rect("bx", "by", "bw", "bh"); i64 x = VC_I64("x", -6, 16), y = VC_I64("y", -6, 16);
    vc_assume(fits(a) && fits(b));
    bool c = RCC::IsCompletelyContained(a, b);
    vc_cover("done");
    if (c && in(b, x, y)) vc_assert(in(a, x, y), "every point of a contained rectangle is in the outer one");
    if (!c && b.w > 0 && b.h > 0)   // one of the corners of b is a witness
        vc_assert(!in(a, b.x, b.y) || !in(a, (i64)b.x + b.w - 1, (i64)b.y + b.h - 1), "a rectangle that is not contained has a corner outside");
}
static inline void split(int xc, int yc)
{
    IntRect a = rect("ax", "ay", "aw", "ah"), b = rect("bx", "by", "bw", "bh"); i64 x = VC_I64("x", -6, 16), y = VC_I64("y", -6, 16);
    if (xc >= 0) vc_assume((b.x >= a.x) == (xc & 1) && ((i64)b.x + b.w <= (i64)a.x + a.w) == (xc >> 1));
    if (yc >= 0) vc_assume((b.y >= a.y) == (yc & 1) && ((i64)b.y + b.h <= (i64)a.y + a.h) == (yc >> 1));
    vc_assume(fits(a) && fits(b) && a.IntersectsWith(b) && !RCC::IsCompletelyContained(a, b) && !RCC::IsCompletelyContained(b, a));
    std::array<IntRect, 4> r; int n = RCC::SplitUpIntoNonOverlapping(a, b, r);
    vc_cover("done");
    vc_assert(n >= 0 && n <= 4, "there are at most four pieces"); if (n < 0 || n > 4) return;
    for (int i = 0; i < 4; ++i) if (i < n) vc_assert(fits(r[i]), "each piece is valid and its edges are representable");
    bool q[4]; for (int i = 0; i < 4; ++i) q[i] = i < n && in(r[i], x, y);
    bool want = in(b, x, y) && !in(a, x, y);
    vc_assert(!want || q[0] || q[1] || q[2] || q[3], "every point which is in the new but not in the existing rectangle is in a piece");
    vc_assert(want || !(q[0] || q[1] || q[2] || q[3]), "no piece contains a point outside of the new or inside of the existing rectangle");
    vc_assert(!(q[0] && q[1]) && !(q[0] && q[2]) && !(q[0] && q[3]) && !(q[1] && q[2]) && !(q[1] && q[3]) && !(q[2] && q[3]), "no point is in two pieces");
}
#define SP(x) extern "C" void H_split_##x() { split(x, -1); }
#define SPY(x,y) extern "C" void H_split_##x##_##y() { split(x, y); }
SP(0) SP(3) SPY(1,0) SPY(1,1) SPY(1,2) SPY(1,3) SPY(2,0) SPY(2,1) SPY(2,2) SPY(2,3)

struct V { IntRect* d; u64 n; IntRect q; const i64* S; };
static IntRect* buf(u64 n, u64 lim, const char* nm) { vc_assume(n <= lim); return (IntRect*)vc_buf(n * sizeof(IntRect), nm); }
static void attach(RCC& c, IntRect* d, u64 n)
{
    if (vc_is_proof()) { rep(c).b = d; rep(c).e = rep(c).c = d + n; }
    else c.splitters_.assign(d, d + n);
}
static void detach(RCC& c) { if (vc_is_proof()) rep(c).b = rep(c).e = rep(c).c = nullptr; }
static i64 part(V* v, u64 k) { const IntRect& e = v->d[k]; return area(IntRect::Intersect(e, v->q)); }
static bool sum_pre(void* p, u64 k, u64) { V* v = (V*)p; return k >= v->n || (fits(v->d[k]) && v->S[k + 1] == v->S[k] + part(v, k)); }
static bool sum_inv(void* p, u64 k, u64) { V* v = (V*)p; return k <= v->n; }
static u64 sum_val(void* p, u64 k, u64) { V* v = (V*)p; return (u64)v->S[k]; }
extern "C" void H_area()
{
    vc_abstract_mul(2);
    V v; v.n = VC_U64("n", 0, 5); v.d = buf(v.n, 1 << 20, "list"); v.q = rect("qx", "qy", "qw", "qh"); i64* S = (i64*)vc_buf((v.n + 1) * 8, "sums"); v.S = S;
    if (!vc_is_proof())
    {
        S[0] = 0;
        if (vc_is_fuzz())
        {   // small coordinates, scaled by a power of two (up to 2^25)
            int m = v.n ? 1 << (((unsigned)v.d[0].x >> 8) % 26) : 1;
            auto norm = [&](IntRect& r) { r.x = ((r.x & 15) - 4) * m; r.y = ((r.y & 15) - 4) * m; r.w = (r.w & 15) * m; r.h = (r.h & 15) * m; };
            if (v.q.IsValid()) norm(v.q);
            for (u64 k = 0; k < v.n; ++k) norm(v.d[k]);
        }
        for (u64 k = 0; k < v.n; ++k) { if (!fits(v.d[k])) vc_assume(false); S[k + 1] = S[k] + (v.q.IsValid() ? part(&v, k) : 0); }
    }
    else { vc_assume(S[0] == 0); if (v.q.IsValid()) { vc_assume_forall(0, sum_pre, &v); vc_loop_inv(0, sum_inv, &v, "sum"); vc_loop_val(0, sum_val, &v); } }
    RCC c; attach(c, v.d, v.n);
    i64 a = c.CalcAreaOfIntersectionWithRectangle(v.q); 
    vc_cover("done");
    vc_assert(a == (v.q.IsValid() ? S[v.n] : 0), "the area is the sum of the areas which the disjoint parts share with the query");
    detach(c);
}
static i64 g_area; static IntRect g_q; static const RCC* g_c;
static i64 c_area(const RCC* c, const IntRect& q) { vc_assert(c == g_c && q.x == g_q.x && q.y == g_q.y && q.w == g_q.w && q.h == g_q.h, "the area is asked for the query rectangle"); return g_area; }
extern "C" void H_covered()
{
    RCC c; g_c = &c; g_q = rect("qx", "qy", "qw", "qh"); g_area = vc_i64("area"); vc_assume(g_area >= 0);
    if (vc_is_proof()) vc_replace_name("RectangleCoverageCalculator35CalcAreaOfIntersectionWithRectangle", (void*)&c_area); else { g_area = 0; }
    bool r = c.IsCompletelyCovered(g_q);
    vc_cover("done");
    vc_assert(r == (!g_q.IsValid() || g_area == area(g_q)), "completely covered exactly if the covered area is the area of the rectangle");
}

// AddRectangle: at every moment at most one of the stored rectangles contains the ghost point; afterwards one does exactly if one did before
// or if the new rectangle contains it.  Recursive calls are replaced by this contract.
struct A { RCC* c; IntRect* d; u64 n, g, j; i64 x, y; bool has; IntRect r; u64 calls; bool has1; bool q[4]; u64 pieces; bool split; } ;
static A* g_a;
static bool elem_ok(A* a, const IntRect& e, u64 k) { return fits(e) && in(e, a->x, a->y) == (a->has && k == a->g); }
static bool add_pre(void* p, u64 k, u64) { A* a = (A*)p; return a->split || k >= a->n || elem_ok(a, a->d[k], k); }
static void know(A* a, u64 k) { if (vc_is_proof() && k < a->n) vc_assume(elem_ok(a, a->d[k], k)); }
static void c_add(RCC* c, const IntRect& r)
{
    A* a = g_a; vc_assert(c == a->c, "the same object"); vc_assert(fits(r), "the rectangle passed on is valid and its edges are representable");
    if (a->calls == 0)
    {   // the vector must satisfy the representation invariant: element j is arbitrary
        u64 n = (u64)(rep(*c).e - rep(*c).b); IntRect* e = rep(*c).b;
        vc_assert(n <= a->n, "nothing is added before the recursive call");
        if (n == a->n) a->has1 = a->has;
        else
        {   // one element was removed: it must be covered by the rectangle passed on
            vc_assert(n + 1 == a->n, "at most one element is removed"); bool left = false;
            if (a->has) { if (a->g < n && in(e[a->g], a->x, a->y)) left = true; else if (a->g > 0 && in(e[a->g - 1], a->x, a->y)) left = true; }
            a->has1 = left;
        }
        if (a->j < n) { vc_assert(fits(e[a->j]), "the remaining elements are valid"); bool own = in(e[a->j], a->x, a->y); if (own) vc_assert(a->has && (a->j == a->g || a->j + 1 == a->g), "no element is duplicated"); if (own) vc_assert(a->has1, "ghost"); }
    }
    a->calls++; a->has1 = a->has1 || in(r, a->x, a->y);
    if (a->n) vc_havoc(a->d, a->n * sizeof(IntRect));   // from here on the contents are unknown, and must not be touched except by further calls
}
static bool pieces_inv(A* a, u64 i)
{
    if (i > a->pieces || a->calls != i) return false;
    bool any = a->has; for (u64 m = 0; m < 4; ++m) if (m < i && a->q[m]) any = true;
    if (i == 0) return (a->j >= a->n || elem_ok(a, a->d[a->j], a->j)) && (a->g >= a->n || elem_ok(a, a->d[a->g], a->g));
    return a->has1 == any;
}
static bool add_inv(void* p, u64 k, u64)
{
    A* a = (A*)p; if (a->split) return pieces_inv(a, k);
    if (k > a->n) return false;
    if (a->has && a->g < k) return !in(a->r, a->x, a->y);
    return true;
}
static int c_split(const IntRect& p, const IntRect& b, std::array<IntRect, 4>& r)
{
    A* a = g_a; vc_assert(fits(p) && fits(b) && p.IntersectsWith(b) && !RCC::IsCompletelyContained(p, b) && !RCC::IsCompletelyContained(b, p), "precondition of the split: the rectangles overlap and none contains the other");
    int n = vc_i32("pieces"); vc_assume(n >= 0 && n <= 4); vc_havoc(&r, sizeof(r)); bool* q = a->q; a->pieces = (u64)n; a->split = true;
    for (int i = 0; i < 4; ++i) { vc_assume(i >= n || fits(r[i])); q[i] = i < n && in(r[i], a->x, a->y); }
    vc_assume((in(b, a->x, a->y) && !in(p, a->x, a->y)) == (q[0] || q[1] || q[2] || q[3]));
    return n;
}
extern "C" void H_add()
{
    A a; a.n = VC_U64("n", 0, 3); vc_assume(a.n <= (1 << 20)); a.d = buf(a.n, 1 << 20, "list"); a.r = rect("rx", "ry", "rw", "rh"); a.x = VC_I64("x", -4, 10); a.y = VC_I64("y", -4, 10);
    a.g = VC_U64("g", 0, 3); a.j = VC_U64("j", 0, 3); a.has = vc_bool("has"); a.calls = 0; a.has1 = a.split = false; a.pieces = 0; if (a.has) vc_assume(a.g < a.n);
    if (a.r.IsValid()) vc_assume(fits(a.r));
    if (!vc_is_proof())
    {
        if (vc_is_fuzz()) for (u64 k = 0; k < a.n; ++k) { a.d[k].x = (a.d[k].x & 15) - 4; a.d[k].y = (a.d[k].y & 15) - 4; a.d[k].w &= 7; a.d[k].h &= 7; }
        for (u64 k = 0; k < a.n; ++k) if (!elem_ok(&a, a.d[k], k)) vc_assume(false);
    }
    RCC c; a.c = &c; g_a = &a; attach(c, a.d, a.n);
    know(&a, a.g); know(&a, a.j); know(&a, a.j + 1);
    vc_assume_forall(0, add_pre, &a); vc_loop_inv(0, add_inv, &a, "search");
    if (vc_is_proof()) { vc_replace_rec("RectangleCoverageCalculator12AddRectangleERK", (void*)&c_add); vc_replace_name("SplitUpIntoNonOverlapping", (void*)&c_split); }
    c.AddRectangle(a.r);
    vc_cover("done");
    bool want = a.has || (a.r.IsValid() && in(a.r, a.x, a.y));
    if (a.calls) { vc_cover("recursive"); vc_assert(a.has1 == want, "a point is covered exactly if it was covered before or lies in the new rectangle"); return; }
    u64 n = c.splitters_.size();
    if (!vc_is_proof()) { u64 cnt = 0; for (auto& e : c.splitters_) if (in(e, a.x, a.y)) ++cnt; vc_assert(cnt == (want ? 1u : 0u), "a point is covered (once) exactly if it was covered before or lies in the new rectangle"); return; }
    vc_assert(n == a.n || n == a.n + 1, "at most one element is added");
    const IntRect* e = rep(c).b;
    if (n == a.n) { vc_cover("nothing added"); vc_assert(want == a.has, "nothing is added only if the point is covered already"); if (a.j < n) vc_assert(elem_ok(&a, e[a.j], a.j), "the elements are unchanged"); }
    else
    {
        vc_cover("added");
        if (a.j < a.n) vc_assert(elem_ok(&a, e[a.j], a.j), "the elements are unchanged (added)");
        vc_assert(fits(e[a.n]), "the new element is valid"); vc_assert(in(e[a.n], a.x, a.y) == (want && !a.has), "the new element contains the point exactly if no other one does and the new rectangle does");
    }
}
