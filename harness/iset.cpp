// contracts of the index set: membership over any number of intervals, adding an interval, the value of a number
// TUS: utilities.cpp libCZI_Utilities.cpp
// NTUS: @lib
#include "vc.h"
#include "std_all.h"
#include <climits>
#include <cerrno>
#define private public
#define protected public
#include "IndexSet.cpp"
#undef private
#undef protected
typedef uint64_t u64; typedef CIndexSet::interval IV;
struct Rep { IV* b; IV* e; IV* c; };
static Rep& rep(CIndexSet& s) { return *(Rep*)&s.intervals; }
struct S { IV* d; u64 n; int x; u64 g; bool has; };
static bool in(const IV& i, int x) { return i.start <= x && x <= i.end; }
static bool none(void* p, u64 k, u64) { S* s = (S*)p; return k >= s->n || !in(s->d[k], s->x); }
static bool i_none(void* p, u64 k, u64) { S* s = (S*)p; return k <= s->n; }
static bool i_some(void* p, u64 k, u64) { S* s = (S*)p; return k <= s->n && s->g >= k; }
static void attach(CIndexSet& c, IV* d, u64 n) { if (vc_is_proof()) { rep(c).b = d; rep(c).e = rep(c).c = d + n; } else c.intervals.assign(d, d + n); }
struct Raw { alignas(CIndexSet) char m[sizeof(CIndexSet)]; };
static CIndexSet& blank(Raw& r) { CIndexSet* c = (CIndexSet*)r.m; rep(*c).b = rep(*c).e = rep(*c).c = nullptr; return *c; }
static void contained(bool has)
{
    S s; s.n = VC_U64("n", 0, 4); vc_assume(s.n <= (1 << 20)); s.d = (IV*)vc_buf(s.n * sizeof(IV), "list"); s.x = VC_I32("x", -3, 8); s.g = VC_U64("g", 0, 3); s.has = has;
    if (!vc_is_proof() && vc_is_fuzz()) for (u64 k = 0; k < s.n; ++k) { s.d[k].start = (s.d[k].start & 7) - 2; s.d[k].end = s.d[k].start + (s.d[k].end & 3) - 1; }
    Raw r; CIndexSet& c = blank(r);
    if (has) { vc_assume(s.g < s.n); vc_assume(in(s.d[s.g], s.x)); vc_loop_inv(0, i_some, &s, "not yet found"); }
    else { if (!vc_is_proof()) for (u64 k = 0; k < s.n; ++k) if (in(s.d[k], s.x)) vc_assume(false); vc_assume_forall(0, none, &s); vc_loop_inv(0, i_none, &s, "none so far"); }
    attach(c, s.d, s.n); bool b = c.CIndexSet::IsContained(s.x); vc_cover("done"); vc_assert(b == has, has ? "an index which one of the intervals contains is in the set" : "an index which no interval contains is not in the set");
}
extern "C" void H_iset_in() { contained(true); }
extern "C" void H_iset_out() { contained(false); }
extern "C" void H_iset_interval() { IV i; i.start = VC_I32("a", -3, 5); i.end = VC_I32("b", -3, 5); int x = VC_I32("x", -4, 6); vc_cover("done"); vc_assert(i.IsContained(x) == (i.start <= x && x <= i.end), "an interval contains its ends and what lies between"); }
extern "C" void H_iset_add()
{
    S s; s.n = VC_U64("n", 0, 4); vc_assume(s.n <= (1 << 20)); s.d = (IV*)vc_buf(s.n * sizeof(IV), "list"); s.g = VC_U64("g", 0, 3); vc_assume(s.n == 0 || s.g < s.n); IV old{ 0, 0 }; if (s.n) old = s.d[s.g];
    Raw r; CIndexSet& c = blank(r); attach(c, s.d, s.n); int a = vc_i32("a"), b = vc_i32("b"); c.AddInterval(a, b); vc_cover("done");
    vc_assert(c.intervals.size() == s.n + 1, "one interval is added"); const IV* e = c.intervals.data(); vc_assert(e[s.n].start == a && e[s.n].end == b, "it is the one given"); if (s.n) vc_assert(e[s.g].start == old.start && e[s.g].end == old.end, "the others are unchanged");
}
// the value of a number: what wcstol reads, if it reads anything and the value is an int
struct Wc { long v; bool any, range; };
static Wc g_w; static int g_errno;
static long c_wcstol(const wchar_t* s, wchar_t** e, int base) { vc_assert(base == 10, "decimal"); if (e) *e = (wchar_t*)(g_w.any ? s + 1 : s); if (g_w.range) g_errno = ERANGE; return g_w.v; }
static size_t c_wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
static int c_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static wchar_t* c_wmemcpy(wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) a[i] = b[i]; return a; }
static wchar_t* c_create(void*, size_t& n, size_t) { return (wchar_t*)operator new((n + 1) * sizeof(wchar_t)); }
static void c_dispose(void*) {}
static void strings() { if (vc_is_proof()) { vc_replace_name("^wcslen$", (void*)&c_wcslen); vc_replace_name("^wmemcmp$", (void*)&c_wmemcmp); vc_replace_name("^wmemcpy$", (void*)&c_wmemcpy); vc_replace_name("^_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE9_M_create", (void*)&c_create); vc_replace_name("^_ZNSt7__cxx1112basic_stringIwSt11char_traitsIwESaIwEE10_M_dispose", (void*)&c_dispose); } }
static int* c_errno() { return &g_errno; }
extern "C" void H_iset_value()
{
    if (!vc_is_proof()) return; strings(); vc_replace_name("wcstol$", (void*)&c_wcstol); vc_replace_name("^__errno_location$", (void*)&c_errno); g_errno = vc_i32("errno");
    g_w.v = vc_i64("v"); g_w.any = vc_bool("any"); g_w.range = vc_bool("range"); vc_assume(g_w.any || (g_w.v == 0 && !g_w.range)); vc_assume(!g_w.range || g_w.v == LONG_MAX || g_w.v == LONG_MIN);
    bool t = false; int r = 0; try { r = CIndexSet::ValueFromNumString(std::wstring(L"7")); } catch (LibCZIStringParseException&) { t = true; }
    bool ok = g_w.any && g_w.v >= INT_MIN && g_w.v <= INT_MAX; if (t) vc_cover("refused"); else vc_cover("read"); vc_assert(t == !ok, "exactly numbers which are an int are accepted"); vc_assert(t || r == g_w.v, "the value is that of the number");
}
extern "C" void H_iset_inf()
{
    strings(); vc_cover("done"); vc_assert(CIndexSet::ValueFromNumString(std::wstring(L"-inf")) == INT_MIN, "-inf"); vc_assert(CIndexSet::ValueFromNumString(std::wstring(L"inf")) == INT_MAX, "inf"); vc_assert(CIndexSet::ValueFromNumString(std::wstring(L"+inf")) == INT_MAX, "+inf");
}
