// subblock statistics computed directly from the list of subblocks
#pragma once
#include "api.h"
namespace api {
struct Box { bool v = false; int64_t x0 = 0, y0 = 0, x1 = 0, y1 = 0; void add(const MSub& s) { if (!v) { v = true; x0 = s.x; y0 = s.y; x1 = (int64_t)s.x + s.lw; y1 = (int64_t)s.y + s.lh; } else { x0 = std::min<int64_t>(x0, s.x); y0 = std::min<int64_t>(y0, s.y); x1 = std::max<int64_t>(x1, (int64_t)s.x + s.lw); y1 = std::max<int64_t>(y1, (int64_t)s.y + s.lh); } }
    bool is(const IntRect& r) const { return v ? r.IsValid() && r.x == x0 && r.y == y0 && r.w == x1 - x0 && r.h == y1 - y0 : !r.IsValid(); } };
inline bool layer0(const MSub& s) { return s.lw == s.pw && s.lh == s.ph; }
inline void check_stats(const SubBlockStatistics& st, const PyramidStatistics& py, const vector<MSub>& subs)
{
    Box all, l0; std::map<int, std::pair<Box, Box>> sc; int64_t mn = INT64_MAX, mx = INT64_MIN; std::map<int, std::pair<int, int>> db; std::map<int, int> cnt; std::map<int, std::map<std::pair<int, int>, int>> exact; std::set<int> inexact;
    for (auto& s : subs)
    {
        all.add(s); if (layer0(s)) l0.add(s); int S = 0; bool hs = s.c.TryGetPosition(DimensionIndex::S, &S);
        if (hs) { auto& p = sc[S]; p.first.add(s); if (layer0(s)) p.second.add(s); }
        if (s.mv) { mn = std::min<int64_t>(mn, s.m); mx = std::max<int64_t>(mx, s.m); }
        for (DimensionIndex d : kDims) { int v; if (s.c.TryGetPosition(d, &v)) { auto it = db.find((int)d); if (it == db.end()) db[(int)d] = { v, v }; else { it->second.first = std::min(it->second.first, v); it->second.second = std::max(it->second.second, v); } } }
        int key = hs ? S : std::numeric_limits<int>::max(); cnt[key]++;
        if (layer0(s)) exact[key][{ 0, 0 }]++;
        else
        {
            int q = s.lw / s.pw; bool ex = (int64_t)q * s.pw == s.lw && (int64_t)q * s.ph == s.lh; int f = 0, l = 0; if (ex) { int64_t v = 1; for (int k = 1; k <= 10 && !f; ++k) { v *= 2; if (v == q) { f = 2; l = k; } } v = 1; for (int k = 1; k <= 7 && !f; ++k) { v *= 3; if (v == q) { f = 3; l = k; } } }
            if (f) exact[key][{ f, l }]++; else if (ex && (q == 5 || q == 6 || q == 7 || q == 12 || q == 20)) exact[key][{ 255, 255 }]++; else inexact.insert(key);
        }
    }
    vc_assert(st.subBlockCount == (int)subs.size(), "subblock count");
    vc_assert(all.is(st.boundingBox), "bounding box is the union of the logical rectangles"); vc_assert(l0.is(st.boundingBoxLayer0Only), "layer-0 bounding box is the union of the layer-0 rectangles");
    if (mn <= mx) vc_assert(st.IsMIndexValid() && st.minMindex == mn && st.maxMindex == mx, "minimum and maximum m-index"); else vc_assert(!st.IsMIndexValid(), "no m-index");
    for (DimensionIndex d : kDims) { int a = 0, n = 0; bool v = st.dimBounds.TryGetInterval(d, &a, &n); auto it = db.find((int)d); vc_assert(v == (it != db.end()), "dimension present in the bounds exactly if a subblock has it"); if (v) vc_assert(a == it->second.first && (int64_t)n == (int64_t)it->second.second - it->second.first + 1, "dimension bounds are the exact interval"); }
    vc_assert(st.sceneBoundingBoxes.size() == sc.size(), "one bounding box per scene");
    for (auto& e : sc) { auto it = st.sceneBoundingBoxes.find(e.first); vc_assert(it != st.sceneBoundingBoxes.end(), "scene present"); vc_assert(e.second.first.is(it->second.boundingBox), "scene bounding box"); vc_assert(e.second.second.is(it->second.boundingBoxLayer0), "scene layer-0 bounding box"); }
    vc_assert(py.scenePyramidStatistics.size() == cnt.size(), "pyramid statistics: one list per scene");
    for (auto& e : cnt)
    {
        auto it = py.scenePyramidStatistics.find(e.first); vc_assert(it != py.scenePyramidStatistics.end(), "pyramid statistics: scene present"); int t = 0; std::set<std::pair<int, int>> seen;
        for (auto& l : it->second) { t += l.count; vc_assert(l.count > 0, "pyramid layer not empty"); vc_assert(seen.insert({ l.layerInfo.minificationFactor, l.layerInfo.pyramidLayerNo }).second, "each pyramid layer is listed once"); }
        vc_assert(t == e.second, "pyramid statistics count every subblock once");
        if (!inexact.count(e.first)) for (auto& x : exact[e.first]) { int n = 0; for (auto& l : it->second) if (l.layerInfo.minificationFactor == x.first.first && l.layerInfo.pyramidLayerNo == x.first.second) n = l.count; vc_assert(n == x.second, "pyramid layer is the one given by the ratio of logical to physical size"); }
    }
}
}
