// bounded stand-in: multi-channel composition through the public interface, several channels of mixed kinds, refused arguments
// NTUS: @lib
#include "bmpapi.h"
#include "spec_mcc.h"
using namespace api;
extern "C" void B_mcc()
{
    Rng r = make_rng(); typedef Compositors::ChannelInfo CI; static const PixelType PT[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32 };
    int n = r.p(70) ? r.in(1, 3) : r.in(1, 6); uint32_t w = r.in(1, 9), h = r.in(1, 6); bool alpha = r.p(50), bad = r.p(20); int badk = bad ? r.in(0, 8) : -1, badi = r.in(0, n - 1);
    std::vector<std::unique_ptr<PBmp>> src; std::vector<IBitmapData*> ps; std::vector<CI> ci(n); std::vector<bytes> luts(n), orig(n); bool refused = false; int wm = r.in(0, 4); static const float BP[] = { 0.f, 1.f, .5f, .25f, .999f, .001f, 1.f / 255, 254.f / 255 };
    for (int i = 0; i < n; ++i)
    {
        PixelType pt = PT[r.in(0, 4)]; if (badk == 0 && i == badi) { pt = r.p(50) ? PixelType::Gray32Float : PixelType::Gray64ComplexFloat; refused = true; }
        uint32_t sw = w, sh = h; if (badk == 1 && i == badi) { if (r.p(50)) ++sw; else ++sh; refused = true; }
        src.emplace_back(new PBmp(pt, sw, sh, r.in(0, 4))); auto b = src.back().get(); int k = r.in(0, 3); for (uint64_t q = 0; q < b->n; ++q) b->d[q] = k == 0 ? 0xff : k == 1 ? (uint8_t)r.in(250, 255) : (uint8_t)r.next(); orig[i].assign(b->d.get(), b->d.get() + b->n); ps.push_back(b);
        CI& c = ci[i]; c.Clear(); c.weight = wm == 0 ? 1.f : wm == 1 ? .5f : wm == 2 ? r.in(0, 40) / 10.f : wm == 3 ? (r.p(50) ? 0.f : 1.f) : r.in(0, 1000) / 700.f;
        if (wm == 4 && r.p(5)) c.weight = r.p(30) ? NAN : r.p(50) ? -1.f : INFINITY;
        c.enableTinting = r.p(50); c.tinting.color.r = (uint8_t)(r.p(30) ? 255 : r.next()); c.tinting.color.g = (uint8_t)(r.p(30) ? 0 : r.next()); c.tinting.color.b = (uint8_t)r.next();
        c.blackPoint = 0; c.whitePoint = 1; int mode = r.in(0, 2);
        if (mode >= 1) { c.blackPoint = r.p(50) ? BP[r.in(0, 7)] : r.in(0, 1000) / 1000.f; c.whitePoint = r.p(50) ? BP[r.in(0, 7)] : r.in(0, 1000) / 1000.f; if (r.p(80) && c.blackPoint > c.whitePoint) std::swap(c.blackPoint, c.whitePoint); }
        bool wide = pt == PixelType::Gray16 || pt == PixelType::Bgr48, lutok = wide || pt == PixelType::Gray8 || pt == PixelType::Bgr24;
        if (mode == 2 && (lutok || bad)) { luts[i] = r.data(wide ? 65536 : 256); c.ptrLookUpTable = luts[i].data(); c.lookUpTableElementCount = (int)luts[i].size(); if (!lutok) refused = true; }
        else if (mode == 2) { c.blackPoint = 0; c.whitePoint = 1; }
        if (!c.lookUpTableElementCount && pt == PixelType::Bgra32 && !(c.blackPoint <= 0 && c.whitePoint >= 1)) { if (bad) refused = true; else { c.blackPoint = 0; c.whitePoint = 1; } }
        if (badk == 2 && i == badi) { c.lookUpTableElementCount = r.p(40) ? -1 : r.p(50) ? 255 : wide ? 256 : 65536; luts[i] = r.data(65536); c.ptrLookUpTable = luts[i].data(); refused = true; }
        if (badk == 3 && i == badi && c.lookUpTableElementCount) { c.ptrLookUpTable = nullptr; refused = true; }
        if (badk == 4 && i == badi) { ps[i] = nullptr; refused = true; }
    }
    PixelType dt = alpha ? PixelType::Bgra32 : PixelType::Bgr24; if (badk == 5) { dt = alpha ? PixelType::Bgr24 : PixelType::Bgra32; refused = true; }
    int cnt = n; IBitmapData* const* pp = ps.data(); const CI* pc = ci.data(); if (badk == 6) { cnt = -r.in(0, 2); refused = true; } if (badk == 7) { pp = nullptr; refused = true; } if (badk == 8) { pc = nullptr; refused = true; }
    uint8_t av = (uint8_t)r.next(); bool own = badk != 1 && badk != 5 && r.p(30), threw = false; std::shared_ptr<IBitmapData> dst; PBmp* pb = nullptr; bytes before;
    if (!own) { auto q = std::make_shared<PBmp>(dt, w, h, r.in(0, 4)); for (uint64_t k = 0; k < q->n; ++k) q->d[k] = (uint8_t)r.next(); before.assign(q->d.get(), q->d.get() + q->n); pb = q.get(); dst = q; }
    try
    {
        if (own) dst = alpha ? Compositors::ComposeMultiChannel_Bgra32(av, cnt, pp, pc) : Compositors::ComposeMultiChannel_Bgr24(cnt, pp, pc);
        else if (alpha) Compositors::ComposeMultiChannel_Bgra32(dst.get(), av, cnt, pp, pc); else Compositors::ComposeMultiChannel_Bgr24(dst.get(), cnt, pp, pc);
    }
    catch (std::exception&) { threw = true; }
    for (int i = 0; i < n; ++i) { vc_assert(orig[i] == bytes(src[i]->d.get(), src[i]->d.get() + src[i]->n), "the source bitmaps are unchanged"); vc_assert(src[i]->locks == 0, "the source bitmaps are unlocked"); }
    if (refused) { vc_cover("refused"); vc_assert(threw, "mismatching bitmaps, look-up tables or arguments are refused"); return; }
    vc_assert(!threw, "matching arguments are accepted"); vc_cover("composed");
    vc_assert(dst->GetPixelType() == dt && dst->GetWidth() == w && dst->GetHeight() == h, "destination bitmap");
    std::vector<float> rel(n); bool use = spec_weights(n, ci.data(), rel.data()); if (use) vc_cover("weights");
    auto l = dst->Lock(); int bd = alpha ? 4 : 3;
    for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x)
    {
        int acc[3] = { 0, 0, 0 };
        for (int i = 0; i < n; ++i)
        {
            uint8_t v[3]; spec_channel((int)src[i]->pt, ci[i], src[i]->px(x, y), v);
            for (int k = 0; k < 3; ++k) acc[k] = spec_sat(acc[k] + (use ? spec_scaled(v[k], rel[i]) : v[k]));
        }
        const uint8_t* q = (const uint8_t*)l.ptrDataRoi + (uint64_t)y * l.stride + (uint64_t)x * bd;
        for (int k = 0; k < 3; ++k) vc_assert(q[k] == acc[k], "every colour is the saturated sum of what the channels contribute");
        if (alpha) vc_assert(q[3] == av, "alpha is the given value");
    }
    dst->Unlock();
    if (pb) { vc_assert(pb->locks == 0, "the destination is unlocked"); for (uint32_t y = 0; y < h; ++y) for (uint64_t k = (uint64_t)w * bd; k < pb->stride; ++k) vc_assert(pb->d[(uint64_t)y * pb->stride + k] == before[(uint64_t)y * pb->stride + k], "row padding is untouched"); }
}
