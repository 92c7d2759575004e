// a caller-supplied bitmap with row padding for the bounded stand-ins, and helpers
#pragma once
#include "api.h"
#include "libCZI_Compositor.h"
#include "libCZI_compress.h"
#include "spec_pixel.h"
namespace api {
struct PBmp : IBitmapData
{
    PixelType pt; IntSize sz; uint32_t stride; uint64_t n; std::unique_ptr<uint8_t[]> d; int locks = 0;
    PBmp(PixelType p, uint32_t w, uint32_t h, uint32_t pad) : pt(p) { sz.w = w; sz.h = h; stride = w * bpp(p) + pad; n = (uint64_t)stride * h; d.reset(new uint8_t[n ? n : 1]); }
    PixelType GetPixelType() const override { return pt; } IntSize GetSize() const override { return sz; }
    BitmapLockInfo Lock() override { ++locks; BitmapLockInfo i; i.ptrData = d.get(); i.ptrDataRoi = d.get(); i.stride = stride; i.size = n; return i; }
    void Unlock() override { --locks; vc_assert(locks >= 0, "locks are balanced"); } int GetLockCount() const override { return locks; }
    uint8_t* px(uint32_t x, uint32_t y) { return d.get() + (uint64_t)y * stride + (uint64_t)x * bpp(pt); }
};
// pixels of a bitmap, rows without padding
inline bytes pixels(IBitmapData* b)
{
    bytes o; ScopedBitmapLockerP l{ b }; size_t line = (size_t)b->GetWidth() * bpp(b->GetPixelType());
    for (uint32_t y = 0; y < b->GetHeight(); ++y) { auto p = (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride; o.insert(o.end(), p, p + line); }
    return o;
}
inline bytes mask_attachment(Rng& r, const bytes& mask, uint32_t w, uint32_t h, uint32_t stride)
{
    bytes a; auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; ++i) a.push_back((uint8_t)(v >> (8 * i))); };
    auto other = [&]() { for (int i = 0; i < 16; ++i) a.push_back((uint8_t)r.next()); int k = r.in(1, 40); u32(k); for (int i = 0; i < k; ++i) a.push_back((uint8_t)r.next()); };
    if (r.p(30)) other(); if (r.p(15)) other();
    static const uint8_t g[] = { 0x67, 0xEA, 0xE3, 0xCB, 0xFC, 0x5B, 0x2B, 0x49, 0xA1, 0x6A, 0xEC, 0xE3, 0x78, 0x03, 0x14, 0x48 };
    a.insert(a.end(), g, g + 16); u32((uint32_t)(16 + mask.size())); u32(w); u32(h); u32(0); u32(stride); a.insert(a.end(), mask.begin(), mask.end());
    if (r.p(30)) other();
    return a;
}
static const char kMaskXml[] = "<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>";
}
