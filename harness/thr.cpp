// bounded stand-in for concurrent use (public interface and the file streams), built with ThreadSanitizer: every thread compares what it gets
// with the result of the same call made alone, and a data race between the calls is reported even if it did no harm in this schedule
// LIBS: -lzstd
// NTUS: @lib
// SAN: thread
#include "bmpapi.h"
#include "StreamsLib/simplefileinputstream.h"
#include "StreamsLib/preadfileinputstream.h"
#include "StreamImpl.h"
#include <thread>
#include <atomic>
#include <cstdlib>
#include <unistd.h>
using namespace api;
namespace {
void threads(int n, const std::function<void(int)>& f)
{
    std::atomic<int> ready{ 0 }; vector<std::thread> t;
    for (int i = 0; i < n; ++i) t.emplace_back([&, i]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); f(i); });
    for (auto& x : t) x.join();
}
struct Doc { shared_ptr<MemStream> st; MDoc m; };
Doc make(Rng& r)
{
    Doc d; d.st = std::make_shared<MemStream>(); CZIWriterOptions opt; opt.allow_duplicate_subblocks = true; auto w = CreateCZIWriter(&opt); w->Create(d.st, std::make_shared<CCziWriterInfo>(some_guid(r)));
    int n = r.in(4, 40);
    for (int i = 0; i < n; ++i)
    {
        MSub s; s.c.Set(DimensionIndex::C, 0); if (r.p(50)) s.c.Set(DimensionIndex::S, r.in(0, 1)); s.mv = true; s.m = i; s.x = r.in(-20, 20); s.y = r.in(-20, 20); s.pw = r.in(1, 8); s.ph = r.in(1, 8); int f = r.p(50) ? 1 : 1 << r.in(1, 20); s.lw = s.pw * f; s.lh = s.ph * f; s.pt = PixelType::Gray8; s.py = f > 1 ? SubBlockPyramidType::MultiSubBlock : SubBlockPyramidType::None;
        bytes px = r.data((size_t)s.pw * s.ph); if (r.p(40)) { auto mb = ZstdCompress::CompressZStd0Alloc(s.pw, s.ph, s.pw, s.pt, px.data(), nullptr); s.comp = 5; s.data.assign((const uint8_t*)mb->GetPtr(), (const uint8_t*)mb->GetPtr() + mb->GetSizeOfData()); } else s.data = px;
        AddSubBlockInfoMemPtr i2; fill_base(i2, s); i2.ptrData = s.data.data(); i2.dataSize = (uint32_t)s.data.size(); w->SyncAddSubBlock(i2); d.m.subs.push_back(s);
    }
    for (int i = 0; i < 3; ++i) { MAtt a = some_att(r); w->SyncAddAttachment(att_info(a)); d.m.atts.push_back(a); }
    d.m.xml = "<ImageDocument/>"; WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = d.m.xml.c_str(); mi.szMetadataSize = d.m.xml.size(); w->SyncWriteMetadata(mi);
    w->Close(); return d;
}
string pyr(const PyramidStatistics& s) { string o; for (auto& e : s.scenePyramidStatistics) { o += std::to_string(e.first) + ":"; for (auto& l : e.second) o += std::to_string(l.layerInfo.minificationFactor) + "^" + std::to_string(l.layerInfo.pyramidLayerNo) + "=" + std::to_string(l.count) + ","; } return o; }
string stat(const SubBlockStatistics& s) { string o = std::to_string(s.subBlockCount) + "," + std::to_string(s.boundingBox.x) + "," + std::to_string(s.boundingBox.y) + "," + std::to_string(s.boundingBox.w) + "," + std::to_string(s.boundingBox.h) + "," + std::to_string(s.maxMindex); for (auto& e : s.sceneBoundingBoxes) o += ";" + std::to_string(e.first) + ":" + std::to_string(e.second.boundingBox.x) + "," + std::to_string(e.second.boundingBox.w); return o; }
bytes compose(ICZIReader* rd, shared_ptr<ISubBlockCache> cache, int kind)
{
    CDimCoordinate pc; pc.Set(DimensionIndex::C, 0); IntRect roi{ -10, -10, 24, 24 };
    if (kind == 0) { ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = RgbFloatColor{ 0, 0, 0 }; o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = false; return pixels(rd->CreateSingleChannelTileAccessor()->Get(PixelType::Gray8, roi, &pc, &o).get()); }
    ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = RgbFloatColor{ 0, 0, 0 }; o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = false; return pixels(rd->CreateSingleChannelScalingTileAccessor()->Get(PixelType::Gray8, roi, &pc, kind == 1 ? 1.f : 0.5f, &o).get());
}
}
extern "C" void B_thr_reader()
{
    Rng r = make_rng(); Doc d = make(r); auto cache = CreateSubBlockCache(); auto rd = CreateCZIReader(); rd->Open(d.st); int n = (int)d.m.subs.size();
    vector<SubBlockInfo> si(n); vector<bytes> sd(n); string st, py; vector<bytes> im(3); vector<int> in;
    {
        auto r2 = CreateCZIReader(); r2->Open(d.st); for (int i = 0; i < n; ++i) { auto b = r2->ReadSubBlock(i); si[i] = b->GetSubBlockInfo(); sd[i] = raw(b.get(), ISubBlock::Data); } st = stat(r2->GetStatistics()); py = pyr(r2->GetPyramidStatistics());
        for (int k = 0; k < 3; ++k) im[k] = compose(r2.get(), nullptr, k); IntRect q{ 0, 0, 9, 9 }; r2->EnumSubset(nullptr, &q, false, [&](int i, const SubBlockInfo&) { in.push_back(i); return true; });
    }
    uint64_t sd0 = r.next(); vc_cover("documents");
    threads(4, [&](int t)
    {
        Rng q(sd0 + t * 7919);
        for (int k = 0; k < 12; ++k) switch (q.in(0, 9))
        {
        case 0: case 1: { int i = q.in(0, n - 1); auto b = rd->ReadSubBlock(i); vc_assert(b && raw(b.get(), ISubBlock::Data) == sd[i] && b->GetSubBlockInfo().logicalRect.x == si[i].logicalRect.x && b->GetSubBlockInfo().mIndex == si[i].mIndex, "a subblock read concurrently is the one asked for"); break; }
        case 2: vc_assert(stat(rd->GetStatistics()) == st, "the statistics are the same as without concurrency"); break;
        case 3: vc_assert(pyr(rd->GetPyramidStatistics()) == py, "the pyramid statistics are the same as without concurrency"); break;
        case 4: { int i = q.in(0, 2); auto a = rd->ReadAttachment(i); vc_assert(a && raw_att(a) == d.m.atts[i].data, "an attachment read concurrently is the one asked for"); break; }
        case 5: { auto m = rd->ReadMetadataSegment(); size_t z = 0; auto p = m->GetRawData(IMetadataSegment::XmlMetadata, &z); vc_assert(z == d.m.xml.size() && memcmp(p.get(), d.m.xml.data(), z) == 0, "the metadata read concurrently is that of the document"); break; }
        case 6: { vector<int> o; IntRect g{ 0, 0, 9, 9 }; rd->EnumSubset(nullptr, &g, false, [&](int i, const SubBlockInfo&) { o.push_back(i); return true; }); vc_assert(o == in, "a query made concurrently delivers the same subblocks"); break; }
        default: { int i = q.in(0, 2); vc_assert(compose(rd.get(), q.p(80) ? cache : nullptr, i) == im[i], "an image composed concurrently (with a shared cache) is the same"); if (q.p(20)) { ISubBlockCacheControl::PruneOptions o; o.maxSubBlockCount = q.in(0, 3); cache->Prune(o); } break; }
        }
    });
}
extern "C" void B_thr_close()
{
    Rng r = make_rng(); Doc d = make(r); int n = (int)d.m.subs.size();
    vector<bytes> sd(n); { auto r2 = CreateCZIReader(); r2->Open(d.st); for (int i = 0; i < n; ++i) sd[i] = raw(r2->ReadSubBlock(i).get(), ISubBlock::Data); }
    vc_cover("documents");
    for (int k = 0; k < 4; ++k)
    {
        auto rd = CreateCZIReader(); rd->Open(d.st); uint64_t sd0 = r.next();
        threads(4, [&](int t)
        {
            Rng q(sd0 + t * 7919); if (t == 0) { for (int w = q.in(0, 400); w > 0; --w) std::this_thread::yield(); rd->Close(); return; }
            try { for (int j = 0; j < 12; ++j) { if (q.p(60)) { int i = q.in(0, n - 1); auto b = rd->ReadSubBlock(i); vc_assert(b && raw(b.get(), ISubBlock::Data) == sd[i], "a subblock read while the reader is closed is the one asked for"); } else if (q.p(50)) { int i = q.in(0, 2); auto a = rd->ReadAttachment(i); vc_assert(a && raw_att(a) == d.m.atts[i].data, "an attachment read while the reader is closed is the one asked for"); } else rd->ReadMetadataSegment(); } }
            catch (std::logic_error&) {}
        });
    }
}
extern "C" void B_thr_cache()
{
    Rng r = make_rng(); auto c = CreateSubBlockCache(); const int N = 6; vector<shared_ptr<IBitmapData>> b; for (int i = 0; i < N; ++i) b.push_back(std::make_shared<PBmp>(PixelType::Gray8, 16, 4, 0));
    uint64_t sd0 = r.next(); vc_cover("caches");
    threads(4, [&](int t)
    {
        Rng q(sd0 + t * 7919);
        for (int k = 0; k < 60; ++k)
        {
            int i = q.in(0, N - 1);
            switch (q.in(0, 4))
            {
            case 0: case 1: { ISubBlockCacheOperation::CacheItem x; x.bitmap = b[i]; c->Add(i, x); break; }
            case 2: { auto x = c->Get(i); vc_assert(!x.bitmap || x.bitmap == b[i], "the cache delivers the bitmap which was added for the subblock"); break; }
            case 3: { auto s = c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); vc_assert(s.memoryUsage == s.elementsCount * 64ull && s.elementsCount <= N, "memory usage and number of elements belong to the same moment"); break; }
            default: { ISubBlockCacheControl::PruneOptions o; if (q.p(50)) o.maxSubBlockCount = q.in(0, N); else o.maxMemoryUsage = q.in(0, N) * 64; c->Prune(o); }
            }
        }
    });
    auto s = c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); int h = 0; for (int i = 0; i < N; ++i) h += c->Get(i).bitmap ? 1 : 0;
    vc_assert((int)s.elementsCount == h && s.memoryUsage == h * 64ull, "after all operations the accounting is that of what is held");
}
extern "C" void B_thr_stream()
{
    Rng r = make_rng(); char nm[] = "/tmp/vc_thr_XXXXXX"; int fd = mkstemp(nm); if (fd < 0) return; bytes d(20000); for (auto& x : d) x = (uint8_t)r.next(); bool ok = write(fd, d.data(), d.size()) == (ssize_t)d.size(); close(fd);
    { shared_ptr<IStream> s; int k = r.in(0, 3); if (ok) { if (k == 0) s = std::make_shared<libCZI::detail::SimpleFileInputStream>(string(nm)); else if (k == 1) s = std::make_shared<libCZI::detail::PreadFileInputStream>(string(nm)); else if (k == 2) s = CreateStreamFromFile(std::wstring(nm, nm + strlen(nm)).c_str()); else s = std::make_shared<libCZI::detail::CStreamImplInMemory>(shared_ptr<const void>(shared_ptr<const void>(), d.data()), d.size()); }
    unlink(nm); uint64_t sd0 = r.next(); vc_cover("streams");
    if (s) threads(4, [&](int t)
    {
        Rng q(sd0 + t * 7919); uint8_t b[3000];
        for (int k = 0; k < 40; ++k)
        {
            uint64_t o = q.in(0, 19999), n = q.in(1, 3000), g = 0; s->Read(o, b, n, &g);
            vc_assert(g == std::min<uint64_t>(n, d.size() - o), "all bytes up to the end of the file are delivered"); vc_assert(memcmp(b, d.data() + o, g) == 0, "the bytes delivered are those at the requested position");
        }
    }); }
}
