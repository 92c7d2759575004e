// specification of the parts of the standard library the cache is built on: an ordered map of arbitrary content, atomics and the mutex.
// The map is seen through one arbitrary key (g_m.K) whose element is exact; of all others the number and the total size are known, and each
// element that is looked at is an arbitrary one of these.  Every access is an obligation: it happens while the mutex is held.
#pragma once
#include "vc.h"
#include "std_all.h"
struct LockG { bool held; int session; };
static LockG g_l;
namespace std
{
struct vcmutex
{
    void lock() { vc_assert(!g_l.held, "the mutex is not locked twice"); g_l.held = true; g_l.session++; }
    void unlock() { vc_assert(g_l.held, "only a held mutex is released"); g_l.held = false; }
    bool try_lock() { lock(); return true; }
};
template <class T> struct vcatomic
{
    T v; mutable bool rl, wl, rd; mutable int rs;      // read/written only while the mutex is held; last read in which session
    vcatomic() : v(), rl(true), wl(true), rd(false), rs(0) {} vcatomic(T x) : v(x), rl(true), wl(true), rd(false), rs(0) {}
    void r() const { rd = true; rl = rl && g_l.held; rs = g_l.held ? g_l.session : -1; } void w() { wl = wl && g_l.held; }
    T load(memory_order = memory_order_seq_cst) const { r(); return v; } operator T() const { r(); return v; }
    void store(T x, memory_order = memory_order_seq_cst) { w(); v = x; } T operator=(T x) { w(); v = x; return x; }
    T fetch_add(T x, memory_order = memory_order_seq_cst) { w(); T o = v; v = (T)(v + x); return o; } T fetch_sub(T x, memory_order = memory_order_seq_cst) { w(); T o = v; v = (T)(v - x); return o; }
    T operator+=(T x) { w(); v = (T)(v + x); return v; } T operator-=(T x) { w(); v = (T)(v - x); return v; }
    T operator++() { w(); v = (T)(v + 1); return v; } T operator--() { w(); v = (T)(v - 1); return v; } T operator++(int) { w(); T o = v; v = (T)(v + 1); return o; } T operator--(int) { w(); T o = v; v = (T)(v - 1); return o; }
};
template <class K, class V> struct vcmap;
template <class K, class V> struct vcit
{
    typedef pair<const K, V> value_type; typedef forward_iterator_tag iterator_category; typedef ptrdiff_t difference_type; typedef value_type* pointer; typedef value_type& reference;
    value_type* e; value_type& operator*() const { return *e; } value_type* operator->() const { return e; }
    bool operator==(const vcit& o) const { return e == o.e; } bool operator!=(const vcit& o) const { return e != o.e; }
};
}
// what the harness says about an arbitrary element: its content, and its size by specification
template <class V> struct VcElem { static void arbitrary(V& v); static uint64_t size(const V& v); static void removed(const V& v, const V* k); };
struct MapG { int K; bool kp; void* ke; uint64_t nr, sr; void* oe; uint64_t os; int scans; bool (*rescan)(); int held, oldest; };   // held, oldest: case distinctions (0: no, 1: yes, 2: either)
static bool vc_tri(int t, const char* n) { return t == 2 ? vc_bool(n) : t == 1; }
static MapG g_m;
namespace std
{
template <class K, class V> struct vcmap
{
    typedef pair<const K, V> value_type; typedef vcit<K, V> iterator; typedef vcit<K, V> const_iterator; typedef K key_type; typedef V mapped_type; typedef size_t size_type;
    static value_type* ke() { return (value_type*)g_m.ke; } static value_type* oe() { return (value_type*)g_m.oe; }
    static void touch() { vc_assert(g_l.held, "the map is only touched while the mutex is held"); }
    // the element looked at goes back to the others
    static void settle() { if (g_m.oe) { g_m.sr = g_m.sr - g_m.os + VcElem<V>::size(oe()->second); g_m.oe = nullptr; } }
    // an arbitrary one of the others
    static value_type* other(const K& k)
    {
        if (g_m.oe && oe()->first == k) return oe();
        settle(); V v; VcElem<V>::arbitrary(v); value_type* p = new value_type(k, v); g_m.os = VcElem<V>::size(p->second); g_m.oe = p; return p;
    }
    static value_type* look(const K& k) { touch(); if (k == g_m.K) return g_m.kp ? ke() : nullptr; if (g_m.oe && oe()->first == k) return oe(); if (g_m.nr == 0 || !vc_tri(g_m.held, "held")) return nullptr; return other(k); }
    value_type* put(const K& k, const V& v) { value_type* p = new value_type(k, v); if (k == g_m.K) { g_m.ke = p; g_m.kp = true; } else { settle(); g_m.oe = p; g_m.os = 0; g_m.nr++; } return p; }
    void drop(value_type* p) { touch(); if (p && p != g_m.ke) VcElem<V>::removed(p->second, g_m.kp ? &ke()->second : nullptr); if (p == g_m.ke) { vc_assert(g_m.kp, "only a held element is removed"); g_m.kp = false; } else { vc_assert(p && p == g_m.oe, "only a held element is removed"); g_m.sr -= g_m.os; g_m.nr--; g_m.oe = nullptr; } }
    iterator end() const { return iterator{ nullptr }; } const_iterator cend() const { return end(); }
    iterator begin() const { return iterator{ (value_type*)&g_m }; } const_iterator cbegin() const { return begin(); }
    iterator find(const K& k) const { return iterator{ look(k) }; } size_t count(const K& k) const { return look(k) ? 1 : 0; }
    V& at(const K& k) { value_type* p = look(k); if (!p) throw std::out_of_range("map::at"); return p->second; }
    V& operator[](const K& k) { value_type* p = look(k); if (!p) p = put(k, V()); return p->second; }
    pair<iterator, bool> insert(const value_type& v) { value_type* p = look(v.first); if (p) return { iterator{ p }, false }; return { iterator{ put(v.first, v.second) }, true }; }
    pair<iterator, bool> emplace(const K& k, const V& v) { return insert(value_type(k, v)); }
    iterator erase(iterator i) { drop(i.e); return end(); } size_t erase(const K& k) { value_type* p = look(k); if (!p) return 0; drop(p); return 1; }
    size_t size() const { touch(); return g_m.nr + (g_m.kp ? 1 : 0); } bool empty() const { return size() == 0; }
};
// contract of std::min_element: an element of which no other is smaller
template <class K, class V, class C> vcit<K, V> min_element(vcit<K, V> b, vcit<K, V> e, C less)
{
    typedef vcmap<K, V> M; M::touch(); if (g_m.rescan && g_m.rescan()) vc_path_end();
    vc_assert(b.e == (typename M::value_type*)&g_m && e.e == nullptr, "all elements are considered");
    if (g_m.nr == 0 && !g_m.kp) return vcit<K, V>{ nullptr };
    bool k = g_m.nr == 0 || (g_m.kp && vc_tri(g_m.oldest, "oldest_is_K")); if (k) return vcit<K, V>{ M::ke() };
    K key = (K)vc_i32("okey"); vc_assume(key != g_m.K); typename M::value_type* p = M::other(key); if (g_m.kp) vc_assume(!less(*M::ke(), *p)); return vcit<K, V>{ p };
}
}
