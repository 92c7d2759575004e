// independent statement of pixel sizes and pixel conversions (plain integer pixel-type codes of the file format)
#pragma once
#include <cstdint>
#include <cstring>
static inline int spec_bpp(int t) { return t == 0 ? 1 : t == 1 ? 2 : t == 2 ? 4 : t == 3 ? 3 : t == 4 ? 6 : t == 8 ? 12 : t == 9 ? 4 : t == 10 ? 16 : t == 11 ? 24 : t == 12 ? 4 : t == 13 ? 8 : -1; }
static inline bool spec_supported(int S, int D) { return (S == 2 && D == 2) || ((S == 0 || S == 1 || S == 3 || S == 4) && D >= 0 && D <= 4); }
static inline unsigned spec_u16(const uint8_t* p) { return p[0] | (unsigned)p[1] << 8; }
static inline void spec_put16(uint8_t* p, unsigned v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); }
static inline void spec_putf(uint8_t* p, float f) { std::memcpy(p, &f, 4); }
static inline void spec_convert(int S, int D, const uint8_t* s, uint8_t* d)
{
    if (S == D) { int n = spec_bpp(S); for (int i = 0; i < n; ++i) d[i] = s[i]; return; }
    if (S == 0)
    {
        if (D == 1) spec_put16(d, s[0]);
        if (D == 2) spec_putf(d, (float)s[0]);
        if (D == 3) { d[0] = s[0]; d[1] = s[0]; d[2] = s[0]; }
        if (D == 4) { spec_put16(d, s[0]); spec_put16(d + 2, s[0]); spec_put16(d + 4, s[0]); }
    }
    if (S == 1)
    {
        unsigned v = spec_u16(s);
        if (D == 0) d[0] = (uint8_t)(v >> 8);
        if (D == 2) spec_putf(d, (float)(uint16_t)v);
        if (D == 3) { d[0] = d[1] = d[2] = (uint8_t)(v >> 8); }
        if (D == 4) { spec_put16(d, v); spec_put16(d + 2, v); spec_put16(d + 4, v); }
    }
    if (S == 3)
    {
        int sum = s[0] + s[1] + s[2];
        if (D == 0) d[0] = (uint8_t)((sum + 1) / 3);
        if (D == 1) spec_put16(d, (unsigned)((sum + 1) / 3));
        if (D == 2) spec_putf(d, (float)sum / 3);
        if (D == 4) { spec_put16(d, s[0]); spec_put16(d + 2, s[1]); spec_put16(d + 4, s[2]); }
    }
    if (S == 4)
    {
        unsigned a = spec_u16(s), b = spec_u16(s + 2), c = spec_u16(s + 4);
        if (D == 0) d[0] = (uint8_t)(((a + b + c) / 3) >> 8);
        if (D == 1) spec_put16(d, (a + b + c) / 3);
        if (D == 2) spec_putf(d, (float)(int)(a + b + c) / 3);
        if (D == 3) { d[0] = (uint8_t)(a >> 8); d[1] = (uint8_t)(b >> 8); d[2] = (uint8_t)(c >> 8); }
    }
}
