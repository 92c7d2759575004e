// coordinates, bounds and their order (libCZI_DimCoordinate.h, libCZI_Utilities.cpp, CziUtils.cpp, DimCoordinate.cpp)
// TUS: libCZI_Utilities.cpp CziUtils.cpp DimCoordinate.cpp
// NTUS: utilities.cpp IndexSet.cpp
#include "vc.h"
#include "std_all.h"
#include "libCZI.h"
#include "CziUtils.h"
using namespace libCZI;
using namespace libCZI::detail;
typedef DimensionIndex D;
struct M { bool v[10]; int32_t p[10]; int32_t s[10]; };   // ghost: the abstract map dimension -> value (or interval)
static void mk(CDimCoordinate& c, M& m, const char* nv, const char* nb)
{
    for (int i = 1; i <= 9; ++i)
    {
        m.p[i] = VC_I32(nv, -2, 2); m.v[i] = vc_bool(nb);
        c.Set((D)i, m.p[i]); if (!m.v[i]) c.Clear((D)i);
    }
}
static void mkb(CDimBounds& c, M& m)
{
    for (int i = 1; i <= 9; ++i)
    {
        m.p[i] = VC_I32("start", -2, 2); m.s[i] = VC_I32("size", 0, 3); m.v[i] = vc_bool("bvalid");
        c.Set((D)i, m.p[i], m.s[i]); if (!m.v[i]) c.Clear((D)i);
    }
}
// representation function: the object answers every query as the ghost map does
static void check(const IDimCoordinate& c, const M& m, const char* what)
{
    int n = 0;
    for (int i = 1; i <= 9; ++i)
    {
        int x = 12345; bool b = c.TryGetPosition((D)i, &x);
        vc_assert(b == m.v[i] && b == c.IsValid((D)i) && b == c.TryGetPosition((D)i, nullptr), what);
        vc_assert(x == (b ? m.p[i] : 12345), what);
        if (b) ++n;
    }
    vc_assert(c.GetNumberOfValidDimensions() == n, "number of valid dimensions");
}
static void checkb(const IDimBounds& c, const M& m, const char* what)
{
    for (int i = 1; i <= 9; ++i)
    {
        int x = 12345, y = 54321; bool b = c.TryGetInterval((D)i, &x, &y);
        vc_assert(b == m.v[i] && b == c.IsValid((D)i), what);
        vc_assert(x == (b ? m.p[i] : 12345) && y == (b ? m.s[i] : 54321), what);
    }
}
extern "C" void H_coord_ops()
{
    CDimCoordinate c; M m; mk(c, m, "val", "valid");
    check(c, m, "coordinate holds exactly what was set");
    vc_assert(c.GetValidDimensionsCount() == c.GetNumberOfValidDimensions(), "valid dimension count");
    uint8_t d = VC_U8("d", 1, 9); vc_assume(d >= 1 && d <= 9); int32_t nv = vc_i32("newval");
    uint8_t op = VC_U8("op", 0, 3);
    if (op == 0) { vc_cover("set"); c.Set((D)d, nv); m.v[d] = true; m.p[d] = nv; check(c, m, "Set changes exactly one dimension"); }
    else if (op == 1) { vc_cover("clear"); c.Clear((D)d); m.v[d] = false; check(c, m, "Clear removes exactly one dimension"); }
    else if (op == 2) { vc_cover("clearall"); c.Clear(); for (int i = 1; i <= 9; ++i) m.v[i] = false; check(c, m, "Clear() removes every dimension"); }
    else { vc_cover("copy"); CDimCoordinate e(&c); check(e, m, "copy construction preserves the coordinate"); check(c, m, "the source of a copy is unchanged"); CDimCoordinate e0(nullptr); for (int i = 1; i <= 9; ++i) vc_assert(!e0.IsValid((D)i), "copy of null is empty"); }
}
extern "C" void H_coord_enum()
{
    CDimCoordinate c; M m; mk(c, m, "val", "valid");
    int seen[10]; int val[10]; int last = 0; bool ordered = true; int calls = 0;
    for (int i = 0; i < 10; ++i) seen[i] = 0;
    c.EnumValidDimensions([&](D dim, int v)->bool { int k = (int)dim; if (k <= last || k > 9) ordered = false; else { seen[k]++; val[k] = v; last = k; } ++calls; return true; });
    vc_cover("done");
    vc_assert(ordered, "dimensions are enumerated in ascending order, each at most once");
    for (int i = 1; i <= 9; ++i) { vc_assert(seen[i] == (m.v[i] ? 1 : 0), "exactly the valid dimensions are enumerated"); if (m.v[i]) vc_assert(val[i] == m.p[i], "with their value"); }
}
extern "C" void H_coord_enum_stop()
{
    CDimCoordinate c; M m; mk(c, m, "val", "valid");
    uint8_t stop = VC_U8("stop", 1, 9); int after = 0; bool stopped = false;
    c.EnumValidDimensions([&](D dim, int)->bool { if (stopped) ++after; if ((int)dim == stop) stopped = true; return !stopped; });
    vc_cover("done");
    vc_assert(after == 0, "returning false ends the enumeration");
}
extern "C" void H_bounds_ops()
{
    CDimBounds c; M m; mkb(c, m);
    checkb(c, m, "bounds hold exactly what was set");
    bool any = false; for (int i = 1; i <= 9; ++i) any = any || m.v[i];
    vc_assert(c.IsEmpty() == !any, "empty iff no dimension is valid");
    uint8_t d = VC_U8("d", 1, 9); vc_assume(d >= 1 && d <= 9); int32_t a = vc_i32("newstart"), b = vc_i32("newsize");
    uint8_t op = VC_U8("op", 0, 3);
    if (op == 0) { vc_cover("set"); c.Set((D)d, a, b); m.v[d] = true; m.p[d] = a; m.s[d] = b; checkb(c, m, "Set changes exactly one dimension"); }
    else if (op == 1) { vc_cover("clear"); c.Clear((D)d); m.v[d] = false; checkb(c, m, "Clear removes exactly one dimension"); }
    else if (op == 2) { vc_cover("clearall"); c.Clear(); vc_assert(c.IsEmpty(), "Clear() empties"); for (int i = 1; i <= 9; ++i) vc_assert(!c.IsValid((D)i), "Clear() removes every dimension"); }
    else { vc_cover("copy"); CDimBounds e(&c); checkb(e, m, "copy construction preserves the bounds"); }
}
extern "C" void H_bounds_enum()
{
    CDimBounds c; M m; mkb(c, m);
    int seen[10], p[10], s[10]; int last = 0; bool ordered = true;
    for (int i = 0; i < 10; ++i) seen[i] = 0;
    c.EnumValidDimensions([&](D dim, int st, int sz)->bool { int k = (int)dim; if (k <= last || k > 9) ordered = false; else { seen[k]++; p[k] = st; s[k] = sz; last = k; } return true; });
    vc_cover("done");
    vc_assert(ordered, "ascending order");
    for (int i = 1; i <= 9; ++i) { vc_assert(seen[i] == (m.v[i] ? 1 : 0), "exactly the valid dimensions are enumerated"); if (m.v[i]) vc_assert(p[i] == m.p[i] && s[i] == m.s[i], "with their interval"); }
}
// the documented order: dimension by dimension; valid > invalid
static int spec_cmp(const M& a, const M& b)
{
    int r = 0;
    for (int i = 9; i >= 1; --i)
    {
        if (a.v[i] && b.v[i]) { if (a.p[i] > b.p[i]) r = 1; else if (a.p[i] < b.p[i]) r = -1; }
        else if (a.v[i]) r = 1; else if (b.v[i]) r = -1;
    }
    return r;
}
extern "C" void H_compare()
{
    CDimCoordinate a, b; M ma, mb; mk(a, ma, "a", "av"); mk(b, mb, "b", "bv");
    int r = Utils::Compare(&a, &b);
    vc_cover("done");
    vc_assert(r == spec_cmp(ma, mb), "comparison is lexicographic in dimension order, a valid dimension ranking above an absent one");
    bool same = true; for (int i = 1; i <= 9; ++i) same = same && ma.v[i] == mb.v[i];
    vc_assert(Utils::HasSameDimensions(&a, &b) == same, "same set of dimensions");
    bool eq = true; for (int i = 1; i <= 9; ++i) if (ma.v[i] && !(mb.v[i] && mb.p[i] == ma.p[i])) eq = false;
    vc_assert(CziUtils::CompareCoordinate(&a, &b) == eq, "coordinate match: every dimension of the first is present in the second with the same value");
}
// ---------------------------------------------------------------- bounded stand-ins (strings, unbounded enumeration)
static bool refparse(const std::string& s, M& m)
{
    for (int i = 0; i < 10; ++i) m.v[i] = false;
    size_t i = 0; auto ws = [&](const char* set) { while (i < s.size() && strchr(set, s[i])) ++i; };
    while (i < s.size())
    {
        ws("\t ,;"); if (i >= s.size()) return false;
        const char* L = "?ZCTRSIHVB"; int d = 0; for (int k = 1; k < 10; ++k) if (s[i] == L[k] || s[i] == L[k] + 32) d = k;
        if (!d) return false; ++i; ws("\t ");
        bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; ws("\t "); }
        if (i >= s.size() || !(s[i] >= '0' && s[i] <= '9')) return false;
        long long v = 0; int nd = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); ++i; if (v > 100000000000ll) v = 100000000000ll; }
        if (neg) v = -v; if (v > 2147483647ll || v < -2147483648ll) return false;
        ws("\t ,;"); if (m.v[d]) return false; m.v[d] = true; m.p[d] = (int)v;
    }
    return true;
}
extern "C" void B_parse()
{
    std::string s; unsigned n = VC_U8("n", 0, 14); vc_assume(n <= 40);
    static const char al[] = "ZCTRSIHVBzctrsihvb0123456789999+-+- \t,;x:1234ZZCT";
    bool lead0 = false;
    for (unsigned i = 0; i < n; ++i) s.push_back(al[VC_U8("ch", 0, 48) % (sizeof(al) - 1)]);
    // more than 10 significant characters after a leading zero are outside the number buffer; not part of the contract
    for (size_t i = 0; i + 10 < s.size(); ++i) if (s[i] == '0') lead0 = true;
    vc_assume(!lead0);
    M m; bool want = refparse(s, m); CDimCoordinate c; 
    bool got = Utils::StringToDimCoordinate(s.c_str(), &c);
    if (s.find_first_not_of("\t ,;") == std::string::npos && !s.empty()) { vc_cover("blank"); return; }
    vc_assert(got == want, "a string is accepted iff it is a sequence of distinct dimensions with 32-bit values");
    if (got) { vc_cover("accepted"); check(c, m, "parsed coordinate"); } else vc_cover("rejected");
}
extern "C" void B_tostring()
{
    CDimCoordinate c; M m; mk(c, m, "val", "valid");
    std::string s = Utils::DimCoordinateToString(&c); CDimCoordinate d; 
    vc_assert(Utils::StringToDimCoordinate(s.c_str(), &d), "the string form of a coordinate parses");
    vc_cover("done"); check(d, m, "coordinate -> string -> coordinate");
}
extern "C" void B_boundsstring()
{
    CDimBounds c; M m; mkb(c, m); bool any = false;
    for (int i = 1; i <= 9; ++i) { any = any || m.v[i]; vc_assume(!m.v[i] || m.s[i] != 0); }
    vc_assume(any);
    std::string s = Utils::DimBoundsToString(&c); bool ok = true; CDimBounds d;
    try { d = CDimBounds::Parse(s.c_str()); } catch (std::exception&) { ok = false; }
    vc_assert(ok, "the string form of bounds parses"); vc_cover("done"); checkb(d, m, "bounds -> string -> bounds");
}
extern "C" void B_enumall()
{
    CDimBounds b; int st[10], sz[10]; bool v[10]; uint64_t total = 1; bool any = false;
    for (int i = 1; i <= 9; ++i) { v[i] = vc_bool("v") && vc_bool("v2"); st[i] = VC_I32("st", -3, 3); sz[i] = VC_I32("sz", 1, 3); vc_assume(sz[i] >= 1 && sz[i] <= 4 && st[i] > -100 && st[i] < 100); if (v[i]) { b.Set((D)i, st[i], sz[i]); total *= sz[i]; any = true; } }
    vc_assume(total <= 3000);
    std::set<std::vector<int>> seen; uint64_t n = 0; bool okc = true, okn = true;
    bool r = Utils::EnumAllCoordinates(b, [&](uint64_t no, const CDimCoordinate& c)->bool {
        if (no != n) okn = false; ++n; std::vector<int> key;
        for (int i = 1; i <= 9; ++i) { int x = 0; bool has = c.TryGetPosition((D)i, &x); if (has != v[i] || (has && (x < st[i] || x >= st[i] + sz[i]))) okc = false; key.push_back(x); }
        seen.insert(key); return n < 5000; });
    vc_cover("done");
    vc_assert(okn && okc, "every enumerated coordinate lies in the bounds and is numbered consecutively");
    vc_assert(r && n == (any ? total : 0) && seen.size() == n, "every coordinate of the bounds is enumerated exactly once");
}
