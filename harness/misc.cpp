// bounded stand-ins: subblock cache, index sets, rectangle coverage (public interface, plus the internal coverage calculator)
// NTUS: @lib
#include "api.h"
#include "libCZI_Compositor.h"
#include "libCZI_Utilities.h"
using namespace api;
namespace {
struct Bmp : IBitmapData
{
    PixelType pt; IntSize sz; Bmp(PixelType p, uint32_t w, uint32_t h) : pt(p) { sz.w = w; sz.h = h; }
    PixelType GetPixelType() const override { return pt; } IntSize GetSize() const override { return sz; }
    BitmapLockInfo Lock() override { return {}; } void Unlock() override {} int GetLockCount() const override { return 0; }
};
struct Msk : IBitonalBitmapData
{
    IntSize sz; Msk(uint32_t w, uint32_t h) { sz.w = w; sz.h = h; }
    IntSize GetSize() const override { return sz; } BitonalBitmapLockInfo Lock() override { return {}; } void Unlock() override {} int GetLockCount() const override { return 0; }
};
struct CE { shared_ptr<IBitmapData> b; shared_ptr<IBitonalBitmapData> m; uint64_t size; uint64_t used; };
}
extern "C" void B_cache()
{
    Rng r = make_rng(); auto c = CreateSubBlockCache(); std::map<int, CE> mod; uint64_t clk = 0; int n = r.in(1, 60);
    auto check = [&]()
    {
        uint64_t mem = 0; for (auto& e : mod) mem += e.second.size;
        auto s = c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount);
        vc_assert(s.validityMask == 3 && s.memoryUsage == mem && s.elementsCount == mod.size(), "reported count and memory usage are those of the elements held");
        auto a = c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage); vc_assert((a.validityMask & 1) && a.memoryUsage == mem, "reported memory usage");
        auto b = c->GetStatistics(ISubBlockCacheStatistics::kElementsCount); vc_assert((b.validityMask & 2) && b.elementsCount == mod.size(), "reported element count");
    };
    auto key = [&]() { return r.p(5) ? (r.p(50) ? std::numeric_limits<int>::max() : -1) : r.in(0, 12); };
    for (int i = 0; i < n; ++i)
    {
        int op = r.in(0, 9);
        if (op < 5)
        {
            static const vector<PixelType> pts = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32 };
            PixelType t = r.pick(pts); uint32_t w = r.p(5) ? r.in(60000, 200000) : r.in(1, 50), h = r.p(5) ? r.in(60000, 200000) : r.in(1, 50); int k = key();
            CE e; e.b = std::make_shared<Bmp>(t, w, h); e.size = (uint64_t)w * h * bpp(t);
            if (r.p(40)) { uint32_t mw = r.in(1, 100), mh = r.in(1, 100); e.m = std::make_shared<Msk>(mw, mh); e.size += (uint64_t)((mw + 7) / 8) * mh; }
            if (e.m || r.p(50)) c->Add(k, ISubBlockCacheOperation::CacheItem(e.b, e.m)); else c->Add(k, ISubBlockCacheOperation::CacheItem(e.b));
            e.used = ++clk; mod[k] = e;
        }
        else if (op < 8)
        {
            int k = key(); auto g = c->Get(k); auto f = mod.find(k);
            if (f == mod.end()) vc_assert(!g.IsValid() && !g.mask, "nothing is returned for a key that is not held");
            else { vc_assert(g.bitmap == f->second.b && g.mask == f->second.m, "the bitmap added last under the key is returned"); f->second.used = ++clk; }
        }
        else
        {
            ISubBlockCacheControl::PruneOptions o; uint64_t mem = 0; for (auto& e : mod) mem += e.second.size;
            if (r.p(50)) { o.maxMemoryUsage = r.p(20) ? mem : r.p(20) ? (mem ? mem - 1 : 0) : r.p(10) ? 0 : mem ? r.next() % (mem + 1) : 0; if (r.p(30) && !mod.empty()) { auto it = mod.begin(); std::advance(it, r.in(0, (int)mod.size() - 1)); o.maxMemoryUsage = mem - it->second.size; } }
            if (r.p(50)) o.maxSubBlockCount = r.in(0, (int)mod.size() + 1);
            c->Prune(o);
            for (;;)
            {
                mem = 0; for (auto& e : mod) mem += e.second.size;
                if (mod.empty() || (mem <= o.maxMemoryUsage && mod.size() <= o.maxSubBlockCount)) break;
                auto old = mod.begin(); for (auto it = mod.begin(); it != mod.end(); ++it) if (it->second.used < old->second.used) old = it; mod.erase(old); vc_cover("pruned");
            }
        }
        check();
    }
    for (int k = -1; k <= 13; ++k) { auto g = c->Get(k); auto f = mod.find(k); vc_assert(f == mod.end() ? !g.IsValid() : g.bitmap == f->second.b && g.mask == f->second.m, "the cache holds exactly what was added and not pruned"); }
}

// grammar: list of parts separated by ','; a part is a number or number '-' number; a number is digits or 'inf', with an optional sign
extern "C" void B_indexset()
{
    Rng r = make_rng(); std::wstring s; vector<std::pair<int64_t, int64_t>> iv; bool bad = false, unclear = false; int n = r.in(1, 5);
    auto num = [&](int64_t& v, std::wstring& t, bool first)
    {
        int k = r.in(0, 19); int64_t lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
        if (k == 0) { v = hi; t = r.p(50) ? L"inf" : L"+inf"; }
        else if (k == 1) { v = lo; t = L"-inf"; }
        else if (k == 2) { v = r.p(50) ? hi - r.in(0, 2) : lo + r.in(0, 2); t = std::to_wstring(v); }
        else if (k == 3) { int64_t b[] = { hi + 1, lo - 1, hi * 4, 4294967297ll, 4294967300ll, 99999999999ll, -99999999999ll }; v = b[r.in(0, 6)]; t = std::to_wstring(v); bad = true; }
        else if (k == 4) { v = r.in(0, 20); t = L"+" + std::to_wstring(v); }
        else if (k < 8) { v = -r.in(0, 20); t = v == 0 ? L"-0" : std::to_wstring(v); }
        else if (k == 8) { v = r.in(0, 20); t = L"00" + std::to_wstring(v); }
        else if (k == 9 && r.p(50)) { v = 0; t = L"99999999999999999999999999"; bad = true; }
        else { v = r.in(0, 20); t = std::to_wstring(v); }
        (void)first;
    };
    for (int i = 0; i < n; ++i)
    {
        if (i) s += L","; if (r.p(20)) s += L" ";
        int64_t a, b; std::wstring t; num(a, t, true); s += t;
        if (r.p(60)) { bool o = bad; num(b, t, false); for (int g = 0; g < 50 && b < a && r.p(90); ++g) { bad = o; num(b, t, false); } s += L"-"; s += t; iv.push_back({ a, b }); if (a > b) bad = true; } else iv.push_back({ a, a });
        if (r.p(10)) s += L" ";
    }
    if (r.p(25) && !s.empty())
    {   // near misses: definitely not an expression
        static const vector<std::wstring> j = { L"x", L"-", L"+", L"--", L"5-", L"--5", L"-+5", L"1-2-3", L"5x", L"in", L"inf5", L"3-x", L"+-5", L"5--", L"-5--", L"5-+", L"-inf-", L"i", L"5 5", L"1;2", L"1.5", L"5-in", L"-in", L"infinity", L"0x5", L"3-0x9" };
        std::wstring x = r.pick(j); s = r.p(50) ? s + L"," + x : x + L"," + s; bad = true; if (r.p(30)) { s = x; }
    }
    else if (r.p(3)) { s = L""; iv.clear(); bad = false; }
    bool thrown = false; shared_ptr<IIndexSet> set;
    try { set = Utils::IndexSetFromString(s); } catch (LibCZIStringParseException&) { thrown = true; }
    if (unclear) return;
    vc_assert(thrown == bad, "exactly the invalid expressions are refused");
    if (thrown) { vc_cover("refused"); return; }
    vector<int64_t> q; for (auto& i : iv) for (int d = -2; d <= 2; ++d) { q.push_back(i.first + d); q.push_back(i.second + d); } for (int k = 0; k < 30; ++k) q.push_back(r.in(-30, 30));
    q.push_back(std::numeric_limits<int>::min()); q.push_back(std::numeric_limits<int>::max());
    for (int64_t v : q) { if (v < std::numeric_limits<int>::min() || v > std::numeric_limits<int>::max()) continue; bool in = false; for (auto& i : iv) in |= i.first <= v && v <= i.second; vc_assert(set->IsContained((int)v) == in, "membership holds exactly for the listed indices"); }
    vc_cover("accepted");
}
