// on-disk codes of pixel type, compression, pyramid type and dimension letters
// TUS: libCZI_Utilities.cpp
#include "vc.h"
#include "std_all.h"
#include "CziUtils.cpp"
#include "libCZI_Utilities.h"
using namespace libCZI;
using namespace libCZI::detail;

// the file format's tables (independent statement)
static int spec_bytes(int c)
{
    static const int8_t t[14] = { 1, 2, 4, 3, 6, -1, -1, -1, 12, 4, 16, 24, 4, 8 };
    return c >= 0 && c < 14 ? t[c] : -1;
}
extern "C" void H_pixeltype_code()
{
    int32_t v = VC_I32("v", -4, 20);
    PixelType pt = CziUtils::PixelTypeFromInt(v);
    vc_assert((pt != PixelType::Invalid) == (spec_bytes(v) > 0), "exactly the eleven format codes are accepted, everything else maps to Invalid");
    if (pt != PixelType::Invalid)
    {
        vc_cover("accepted");
        vc_assert((int)pt == v, "the decoded pixel type is the one of the format table");
        vc_assert(CziUtils::IntFromPixelType(pt) == v, "writing the decoded pixel type gives back the same code");
        bool threw = false; int n = 0, n2 = 0;
        try { n = CziUtils::GetBytesPerPel(pt); n2 = Utils::GetBytesPerPixel(pt); } catch (std::exception&) { threw = true; }
        vc_assert(!threw && n == spec_bytes(v) && n2 == n, "bytes per pixel as in the format table");
        vc_assert(CziUtils::IsPixelTypeEndianessAgnostic(pt) == (v == 0 || v == 3 || v == 9), "byte-sized components only are endianness-agnostic");
    } else vc_cover("rejected");
}
extern "C" void H_pixeltype_enum()
{
    uint8_t v = VC_U8("v", 0, 20);
    PixelType pt = (PixelType)v;
    int code = CziUtils::IntFromPixelType(pt);
    bool threw = false; int n = 0;
    try { n = CziUtils::GetBytesPerPel(pt); } catch (std::exception&) { threw = true; }
    if (spec_bytes(v) > 0) { vc_cover("valid"); vc_assert(code == v && CziUtils::PixelTypeFromInt(code) == pt && !threw, "pixel type to code and back"); }
    else { vc_cover("invalid"); vc_assert(code < 0 && CziUtils::PixelTypeFromInt(code) == PixelType::Invalid && threw, "an invalid pixel type never gets a valid code or size"); }
}
static bool valid_comp(int v) { return v == 0 || v == 1 || v == 4 || v == 5 || v == 6; }
extern "C" void H_compression_code()
{
    int32_t v = VC_I32("v", -4, 20);
    CompressionMode m = CziUtils::CompressionModeFromInt(v);
    vc_assert(m == Utils::CompressionModeFromRawCompressionIdentifier(v), "public function agrees");
    vc_assert((m != CompressionMode::Invalid) == valid_comp(v), "exactly the five known compression codes are accepted");
    if (m != CompressionMode::Invalid)
    {
        vc_cover("accepted");
        vc_assert((int)m == v && CziUtils::CompressionModeToInt(m) == v && Utils::CompressionModeToCompressionIdentifier(m) == v, "compression code round trip");
    } else vc_cover("rejected");
    uint8_t e = VC_U8("e", 0, 10);
    int c = CziUtils::CompressionModeToInt((CompressionMode)e);
    vc_assert(Utils::CompressionModeToCompressionIdentifier((CompressionMode)e) == c, "public function agrees (2)");
    vc_assert(valid_comp(e) ? c == e : c < 0, "compression mode to code");
}
extern "C" void H_pyramid_code()
{
    uint8_t v = VC_U8("v", 0, 10);
    SubBlockPyramidType t = CziUtils::PyramidTypeFromByte(v);
    if (v <= 2) { vc_cover("ok"); vc_assert((int)t == v && CziUtils::ByteFromPyramidType(t) == v, "pyramid type round trip"); }
    else { vc_cover("bad"); vc_assert(t == SubBlockPyramidType::Invalid && CziUtils::ByteFromPyramidType(t) == 0 && CziUtils::ByteFromPyramidType((SubBlockPyramidType)v) == 0, "unknown pyramid types are invalid and written as none"); }
}
extern "C" void H_dimension_letter()
{
    static const char L[10] = { '?', 'Z', 'C', 'T', 'R', 'S', 'I', 'H', 'V', 'B' };
    uint8_t d = VC_U8("d", 0, 12);
    char c = Utils::DimensionToChar((DimensionIndex)d);
    vc_assert(c == ((d >= 1 && d <= 9) ? L[d] : '?'), "letter of a dimension");
    uint8_t x = VC_U8("x", 60, 125);
    int want = 0;
    for (int i = 1; i <= 9; ++i) if (x == (uint8_t)L[i] || x == (uint8_t)(L[i] + 32)) want = i;
    vc_assert((int)Utils::CharToDimension((char)x) == want, "dimension of a letter (either case), everything else invalid");
    if (want) vc_cover("letter"); else vc_cover("other");
}
