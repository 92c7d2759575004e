#include <csignal>
#include <unistd.h>
// Native implementation of the harness interface: replays counterexamples and runs the bounded falsifier
// against the same harness and the same /repo sources that the proof uses.
//   prog ENTRY replay FILE            exit 0: no failure, 1: failure reproduced (VC_FAIL line), 2: inputs not admissible (assumption)
//   prog ENTRY fuzz SEED ITER SECONDS OUTFILE
#include "../harness/vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <chrono>
#include <csetjmp>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
using std::string; using std::map; using std::vector;

static bool g_replay = false, g_fuzzlog = false;
static map<string, string> g_vals; static map<string, std::pair<uint64_t, map<uint64_t, int>>> g_bufs;
static map<string, int> g_cnt; static map<string, std::pair<int64_t, int64_t>> g_hint;
static string g_log, g_outfile, g_fail; static jmp_buf g_jb; static bool g_in = false;
struct B { uint8_t* p; vector<uint8_t> init; };
static vector<B> g_live; static vector<void*> g_leak;
static map<string, uint64_t> g_cover;
static uint64_t s0 = 88172645463325252ull;
static uint64_t rnd() { s0 ^= s0 << 13; s0 ^= s0 >> 7; s0 ^= s0 << 17; return s0 * 2685821657736338717ull; }
static string uniq(const char* n) { int c = g_cnt[n]++; return c ? string(n) + "#" + std::to_string(c) : string(n); }
static void dump_fail()
{
    if (!g_in) return; g_in = false;
    if (!g_outfile.empty()) { FILE* f = fopen(g_outfile.c_str(), "w"); if (f) { fprintf(f, "%s", g_log.c_str()); fclose(f); } }
    printf("VC_FAIL %s\n", g_fail.empty() ? "sanitizer error / abnormal termination" : g_fail.c_str()); fflush(stdout);
}
static void on_death() { dump_fail(); }
static void on_term()
{
    string w = "uncaught exception / terminate";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { w += string(": ") + x.what(); } catch (...) {} }
    g_fail = w; dump_fail(); _exit(1);
}
static uint64_t draw(const char* n, int w)
{
    string u = uniq(n);
    uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1), v;
    if (g_replay)
    {
        auto it = g_vals.find(u); v = it == g_vals.end() ? 0 : strtoull(it->second.c_str(), nullptr, 10);
    }
    else
    {
        auto h = g_hint.find(n); uint64_t r = rnd();
        if (w == 1) v = r & 1;
        else if (h != g_hint.end() && h->second.first <= h->second.second && r % 16 != 0) v = (uint64_t)(h->second.first + (int64_t)(rnd() % (uint64_t)(h->second.second - h->second.first + 1)));
        else switch ((r >> 8) % 8) {
            case 0: v = rnd(); break;
            case 1: v = rnd() % 5; break;
            case 2: v = (uint64_t)-(int64_t)(rnd() % 5); break;
            case 3: v = (1ull << (rnd() % w)) - (rnd() % 2); break;
            case 4: v = (m >> 1) - (rnd() % 3); break;
            case 5: v = (m >> 1) + 1 + (rnd() % 3); break;
            case 6: v = rnd() % 300; break;
            default: v = rnd() >> (rnd() % 64); break; }
    }
    v &= m;
    g_log += "v " + u + " " + std::to_string(v) + "\n";
    return v;
}
extern "C" {
bool vc_bool(const char* n) { return draw(n, 1) != 0; }
uint8_t vc_u8(const char* n) { return (uint8_t)draw(n, 8); } uint16_t vc_u16(const char* n) { return (uint16_t)draw(n, 16); }
uint32_t vc_u32(const char* n) { return (uint32_t)draw(n, 32); } uint64_t vc_u64(const char* n) { return draw(n, 64); }
int8_t vc_i8(const char* n) { return (int8_t)draw(n, 8); } int16_t vc_i16(const char* n) { return (int16_t)draw(n, 16); }
int32_t vc_i32(const char* n) { return (int32_t)draw(n, 32); } int64_t vc_i64(const char* n) { return (int64_t)draw(n, 64); }
static double drawf(const char* n, bool f)
{
    string u = uniq(n); double v = 0;
    if (g_replay) { auto it = g_vals.find(u); if (it != g_vals.end()) v = strtod(it->second.c_str(), nullptr); }
    else {
        auto h = g_hint.find(n); double lo = -1000, hi = 1000; if (h != g_hint.end()) { lo = (double)h->second.first; hi = (double)h->second.second; }
        switch (rnd() % 6) {
            case 0: v = (double)(int64_t)(lo + (double)(rnd() % (uint64_t)(hi - lo + 1))); break;
            case 1: v = 0; break;
            case 2: { uint64_t b = rnd(); memcpy(&v, &b, 8); if (!(v == v) || v > 1e300 || v < -1e300) v = 1; if (h != g_hint.end()) v = lo; break; }
            default: v = lo + (hi - lo) * ((rnd() >> 11) / 9007199254740992.0); }
    }
    if (f) v = (float)v;
    char b[64]; snprintf(b, sizeof b, "%.17g", v); g_log += "v " + u + " " + b + "\n"; return v;
}
double vc_f64(const char* n) { return drawf(n, false); } float vc_f32(const char* n) { return (float)drawf(n, true); }
void* vc_buf(uint64_t size, const char* n)
{
    string u = uniq(n);
    if (size > (g_replay ? (256u << 20) : (2u << 20))) longjmp(g_jb, 1);
    B b; b.p = (uint8_t*)malloc(size ? size : 1);
    if (size == 0) { free(b.p); b.p = (uint8_t*)malloc(1); }
    b.init.resize(size);
    if (g_replay) { auto it = g_bufs.find(u); if (it != g_bufs.end()) for (auto& e : it->second.second) if (e.first < size) b.init[e.first] = (uint8_t)e.second; }
    else { int mode = rnd() % 4; for (auto& x : b.init) { uint64_t r = rnd(); x = mode == 0 ? (uint8_t)r : mode == 1 ? (uint8_t)(r % 7 == 0 ? r >> 8 : 0) : mode == 2 ? (uint8_t)(r % 4) : (uint8_t)(r % 3 == 0 ? 255 : r >> 8); } }
    if (size) memcpy(b.p, b.init.data(), size);
    g_log += "b " + u + " " + std::to_string(size);
    if (size <= (1u << 16)) for (uint64_t i = 0; i < size; ++i) if (b.init[i]) g_log += " " + std::to_string(i) + ":" + std::to_string(b.init[i]);
    g_log += "\n";
    g_live.push_back(b); return b.p;
}
uint8_t vc_initial(const void* p, uint64_t off)
{
    for (auto& b : g_live) if (b.p <= (const uint8_t*)p && ((const uint8_t*)p < b.p + b.init.size() || (const uint8_t*)p == b.p)) return b.init.at((const uint8_t*)p - b.p + off);
    fprintf(stderr, "vc_initial: unknown buffer\n"); exit(3);
}
void vc_assume(bool c) { if (!c) longjmp(g_jb, 1); }
void vc_path_end() { longjmp(g_jb, 1); }
void vc_assert(bool c, const char* name) { if (!c) { g_fail = string("assertion: ") + name; dump_fail(); _exit(1); } }
void vc_cover(const char* name) { g_cover[name]++; }
void vc_loop_inv(int, vc_inv_t, void*, const char*) {} void vc_loop_clear() {} void vc_loop_val(int, vc_val_t, void*) {}
void vc_replace(void*, void*) {} void vc_replace_name(const char*, void*) {} void vc_replace_rec(const char*, void*) {}
void vc_havoc(void* p, uint64_t n) { for (uint64_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)(g_replay ? 0 : rnd()); }
void vc_abstract_mul(int) {} bool vc_is_proof() { return false; } bool vc_is_fuzz() { return !g_replay || g_fuzzlog; } void vc_opt(const char*, int) {}
void vc_writable(const void* p, uint64_t n, const char* what)
{
    for (auto& b : g_live) if (b.p <= (const uint8_t*)p && (const uint8_t*)p <= b.p + b.init.size()) {
        if (n > b.init.size() - ((const uint8_t*)p - b.p)) vc_assert(false, what); return; }
}
bool vc_same_obj(const void* a, const void* c)
{
    for (auto& b : g_live) { auto in = [&](const void* q) { return b.p <= (const uint8_t*)q && (const uint8_t*)q <= b.p + b.init.size(); }; if (in(a)) return in(c); } return false;
}
uint64_t vc_obj_size(const void* a) { for (auto& b : g_live) if (b.p == a) return b.init.size(); return 0; }
void vc_case(bool) {}
void vc_assume_forall(int, vc_inv_t, void*) {}
void vc_case_at(int32_t, int32_t) {}
void vc_hint(const char* n, int64_t lo, int64_t hi) { g_hint[n] = { lo, hi }; }
}
static void on_alarm(int) { g_fail = "does not terminate within the time limit of one run"; dump_fail(); _exit(1); }
static void reset() { g_cnt.clear(); g_hint.clear(); g_log = "f 1\n"; g_fail.clear(); for (auto& b : g_live) free(b.p); g_live.clear(); }
int main(int argc, char** argv)
{
    if (argc < 4) return 3;
    typedef void (*fn_t)(); fn_t fn = (fn_t)dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
    __sanitizer_set_death_callback(on_death); std::set_terminate(on_term);
    string mode = argv[2]; signal(SIGALRM, on_alarm);
    if (mode == "replay")
    {
        g_replay = true; FILE* f = fopen(argv[3], "r"); if (!f) return 3;
        char* line = nullptr; size_t cap = 0; ssize_t len;
        while ((len = getline(&line, &cap, f)) > 0)
        {
            vector<string> t; char* sv; for (char* q = strtok_r(line, " \n", &sv); q; q = strtok_r(nullptr, " \n", &sv)) t.push_back(q);
            if (t.size() >= 3 && t[0] == "v") g_vals[t[1]] = t[2];
            else if (t.size() >= 2 && t[0] == "f") g_fuzzlog = true;
            else if (t.size() >= 3 && t[0] == "b") { auto& b = g_bufs[t[1]]; b.first = strtoull(t[2].c_str(), 0, 10); for (size_t i = 3; i < t.size(); ++i) { auto c = t[i].find(':'); b.second[strtoull(t[i].c_str(), 0, 10)] = atoi(t[i].c_str() + c + 1); } }
        }
        fclose(f); reset();
        if (setjmp(g_jb)) { printf("VC_DISCARD\n"); fflush(stdout); _exit(2); }
        g_in = true; alarm(100); fn(); alarm(0); g_in = false; printf("VC_OK\n"); fflush(stdout); _exit(0);
    }
    uint64_t seed = strtoull(argv[3], 0, 10), iters = strtoull(argv[4], 0, 10); double secs = atof(argv[5]); g_outfile = argv[6];
    auto t0 = std::chrono::steady_clock::now(); volatile uint64_t done = 0, disc = 0;
    for (volatile uint64_t i = 0; i < iters; i = i + 1)
    {
        if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        reset(); s0 = (seed * 1000003ull + i) * 0x9E3779B97F4A7C15ull + 0x1234567; if (!s0) s0 = 1; rnd(); rnd();
        if (setjmp(g_jb)) { alarm(0); disc = disc + 1; g_in = false; continue; }
        g_in = true; alarm(100); fn(); alarm(0); g_in = false; done = done + 1;
    }
    printf("VC_DONE runs=%llu discarded=%llu", (unsigned long long)done, (unsigned long long)disc);
    for (auto& c : g_cover) printf(" cover:%s=%llu", c.first.c_str(), (unsigned long long)c.second);
    printf("\n"); fflush(stdout); _exit(0);
}
