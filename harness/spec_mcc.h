// independent statement of the contribution of a channel to the composed colour
#pragma once
#include <cmath>
#include <limits>
#include "libCZI_Compositor.h"
static inline uint8_t spec_sat(int v) { return (uint8_t)(v > 255 ? 255 : v); }
static inline int spec_scaled(uint8_t v, float w) { return (int)(v * w + .5f); }
// weights are relative to their mean, and matter only if they differ; an unusable weight disables them all
static inline bool spec_weights(int n, const libCZI::Compositors::ChannelInfo* ci, float* rel)
{
    const float eps = std::numeric_limits<float>::epsilon(); float sum = 0;
    for (int i = 0; i < n; ++i) { float w = ci[i].weight; if (std::isnan(w) || std::isinf(w) || w < 0) return false; sum += w; }
    if (std::isnan(sum) || std::fabs(sum) <= eps) return false;
    float mean = sum / n; bool differ = false;
    for (int i = 0; i < n; ++i) { if (std::fabs(mean - ci[i].weight) > eps) differ = true; rel[i] = ci[i].weight / mean; }
    return differ;
}
// position of a value between the black point and the white point (both as values of the pixel type)
static inline float spec_between(int v, int black, int white) { if (v <= black) return 0.f; if (v >= white) return 1.f; return (v - black) / (float)(white - black); }
static inline uint8_t spec_round(float f) { return (uint8_t)(f + .5f); }
static inline void spec_channel(int pt, const libCZI::Compositors::ChannelInfo& ci, const uint8_t* p, uint8_t* bgr)
{
    bool wide = pt == 1 || pt == 4, gray = pt == 0 || pt == 1; int maxv = wide ? 65535 : 255, n = gray ? 1 : 3; int v[3];
    for (int i = 0; i < n; ++i) v[i] = wide ? (int)spec_u16(p + 2 * i) : p[i];
    bool lut = ci.lookUpTableElementCount != 0, bw = !lut && !(ci.blackPoint <= 0 && ci.whitePoint >= 1);
    int black = 0, white = maxv;
    if (bw) { if (wide) { black = (uint16_t)std::ceil(ci.blackPoint * maxv); white = (uint16_t)std::floor(ci.whitePoint * maxv); } else { black = (uint8_t)std::ceil(ci.blackPoint * maxv); white = (uint8_t)std::floor(ci.whitePoint * maxv); } }
    if (!ci.enableTinting)
    {
        uint8_t o[3];
        for (int i = 0; i < n; ++i)
            if (lut) o[i] = ci.ptrLookUpTable[v[i]];
            else if (bw) o[i] = v[i] <= black ? 0 : v[i] >= white ? 255 : (uint8_t)(spec_between(v[i], black, white) * 255 + .5);
            else o[i] = wide ? (uint8_t)(v[i] >> 8) : (uint8_t)v[i];
        for (int i = 0; i < 3; ++i) bgr[i] = gray ? o[0] : o[i];
        return;
    }
    // tinting: the (mean) intensity times the colour
    float f;
    if (lut) { int s = 0; for (int i = 0; i < n; ++i) s += ci.ptrLookUpTable[v[i]]; f = (float)s; f /= 255 * n; }
    else if (bw) { int m = gray ? v[0] : (v[0] + v[1] + v[2] + 1) / 3; f = spec_between(m, black, white); }
    else { int s = 0; for (int i = 0; i < n; ++i) s += v[i]; f = (float)s; f /= maxv * n; }
    bgr[0] = spec_round(f * ci.tinting.color.b); bgr[1] = spec_round(f * ci.tinting.color.g); bgr[2] = spec_round(f * ci.tinting.color.r);
}
