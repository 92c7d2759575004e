// random editing histories over ICziReaderWriter with an exact model
#pragma once
#include "api.h"
namespace api {
struct EditModel { std::map<int, MSub> s; std::map<int, MAtt> a; MDoc doc; };
template <class RW> inline std::set<int> keys_s(RW* w) { std::set<int> k; w->EnumerateSubBlocks([&](int i, const SubBlockInfo&) { k.insert(i); return true; }); return k; }
template <class RW> inline std::set<int> keys_a(RW* w) { std::set<int> k; w->EnumerateAttachments([&](int i, const AttachmentInfo&) { k.insert(i); return true; }); return k; }
inline MDoc edit_doc(const EditModel& m) { MDoc d = m.doc; d.subs.clear(); d.atts.clear(); for (auto& e : m.s) d.subs.push_back(e.second); for (auto& e : m.a) d.atts.push_back(e.second); return d; }
// assigns the keys the editor reports to the items of the model (after opening)
inline void edit_sync(ICziReaderWriter* w, EditModel& m)
{
    vector<bool> u(m.doc.subs.size(), false), v(m.doc.atts.size(), false); m.s.clear(); m.a.clear();
    vector<std::pair<int, SubBlockInfo>> l; w->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { l.push_back({ i, s }); return true; });
    for (auto& e : l) { auto b = w->ReadSubBlock(e.first); vc_assert((bool)b, "an enumerated subblock can be read"); for (size_t k = 0; k < u.size(); ++k) if (!u[k] && info_eq(e.second, m.doc.subs[k]) && payload_eq(b.get(), m.doc.subs[k])) { u[k] = true; m.s[e.first] = m.doc.subs[k]; break; } }
    vc_assert(m.s.size() == m.doc.subs.size() && l.size() == m.s.size(), "the editor reports exactly the subblocks of the document");
    vector<std::pair<int, AttachmentInfo>> al; w->EnumerateAttachments([&](int i, const AttachmentInfo& s) { al.push_back({ i, s }); return true; });
    for (auto& e : al) { auto b = w->ReadAttachment(e.first); vc_assert((bool)b, "an enumerated attachment can be read"); for (size_t k = 0; k < v.size(); ++k) if (!v[k] && att_info_eq(e.second, m.doc.atts[k]) && raw_att(b) == m.doc.atts[k].data) { v[k] = true; m.a[e.first] = m.doc.atts[k]; break; } }
    vc_assert(m.a.size() == m.doc.atts.size() && al.size() == m.a.size(), "the editor reports exactly the attachments of the document");
}
inline void edit_step(ICziReaderWriter* w, EditModel& m, Rng& r, std::function<MSub(Rng&)> gen = nullptr)
{
    auto pick_s = [&]() { auto it = m.s.begin(); std::advance(it, r.in(0, (int)m.s.size() - 1)); return it->first; };
    auto pick_a = [&]() { auto it = m.a.begin(); std::advance(it, r.in(0, (int)m.a.size() - 1)); return it->first; };
    int op = r.in(0, 11);
    if (op <= 2)
    {
        MSub s = gen ? gen(r) : some_sub(r, 5); if (!m.s.empty() && r.p(10)) s = m.s[pick_s()];
        bool dup = false, unclear = false; for (auto& e : m.s) { auto& q = e.second; if (coord_eq(q.c, s.c) && q.mv && s.mv && q.m == s.m) { if (q.py == SubBlockPyramidType::None && s.py == SubBlockPyramidType::None && q.lw == q.pw && q.lh == q.ph && s.lw == s.pw && s.lh == s.ph) dup = true; else unclear = true; } }
        for (auto& e : m.s) { auto& q = e.second; if (coord_eq(q.c, s.c) && !(q.mv && s.mv)) unclear = true; }
        auto before = keys_s(w); bool ok = true;
        try { add_sub(w, s, r); } catch (LibCZIReaderWriteException& e) { ok = false; vc_assert(e.GetErrorType() == LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting, "a refused subblock is reported as a duplicate"); }
        if (dup) vc_assert(!ok, "a duplicate subblock is refused"); else if (!unclear) vc_assert(ok, "a subblock that is not a duplicate is accepted");
        auto after = keys_s(w); for (int k : before) vc_assert(after.count(k), "adding keeps the other subblocks");
        vc_assert(after.size() == before.size() + (ok ? 1 : 0), "adding adds one subblock");
        if (ok) { for (int k : after) if (!before.count(k)) m.s[k] = s; vc_cover("add subblock"); }
    }
    else if (op <= 5 && !m.s.empty())
    {
        int k = pick_s(); MSub s = gen ? gen(r) : some_sub(r, 5); if (r.p(60)) { MSub o = m.s[k]; o.data = s.data; o.meta = s.meta; o.att = s.att; s = o; }
        add_sub(w, s, r, k); m.s[k] = s; vc_cover("replace subblock");
    }
    else if (op == 6 && !m.s.empty()) { int k = pick_s(); w->RemoveSubBlock(k); m.s.erase(k); vc_cover("remove subblock"); }
    else if (op == 7)
    {
        MAtt t = some_att(r); if (!m.a.empty() && r.p(20)) t = m.a[pick_a()];
        bool dup = false; for (auto& e : m.a) dup |= guid_eq(e.second.g, t.g) && e.second.type == t.type && e.second.name == t.name;
        auto before = keys_a(w); bool ok = true;
        try { w->SyncAddAttachment(att_info(t)); } catch (LibCZIReaderWriteException& e) { ok = false; vc_assert(e.GetErrorType() == LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting, "a refused attachment is reported as a duplicate"); }
        vc_assert(ok != dup, "an attachment is refused exactly if it is a duplicate");
        auto after = keys_a(w); for (int k : before) vc_assert(after.count(k), "adding keeps the other attachments");
        if (ok) { vc_assert(after.size() == before.size() + 1, "adding adds one attachment"); for (int k : after) if (!before.count(k)) m.a[k] = t; vc_cover("add attachment"); }
    }
    else if (op == 8 && !m.a.empty()) { int k = pick_a(); MAtt t = some_att(r); if (r.p(50)) { MAtt o = m.a[k]; o.data = t.data; t = o; } w->ReplaceAttachment(k, att_info(t)); m.a[k] = t; vc_cover("replace attachment"); }
    else if (op == 9 && !m.a.empty()) { int k = pick_a(); w->RemoveAttachment(k); m.a.erase(k); vc_cover("remove attachment"); }
    else if (op == 10) { some_meta(m.doc, r); w->SyncWriteMetadata(meta_info(m.doc)); vc_cover("write metadata"); }
    else if (op == 11)
    {
        int k = r.p(50) ? -1 - r.in(0, 3) : 1000000; bool t = false; try { if (r.p(50)) w->RemoveSubBlock(k); else w->RemoveAttachment(k); } catch (LibCZIReaderWriteException&) { t = true; }
        vc_assert(t, "an operation on an item that does not exist is refused");
    }
}
// one editing session on s: open, n steps, close
inline void edit_session(shared_ptr<MemStream> s, EditModel& m, Rng& r, int steps, bool fresh, std::function<MSub(Rng&)> gen = nullptr, std::function<void(ICziReaderWriter*, EditModel&)> probe = nullptr)
{
    auto w = CreateCZIReaderWriter(); auto info = std::make_shared<CCziReaderWriterInfo>(m.doc.guid); bool force = r.p(10); if (force) { m.doc.guid = some_guid(r); info = std::make_shared<CCziReaderWriterInfo>(m.doc.guid); info->SetForceFileGuid(true); }
    w->Create(s, info); if (!fresh) edit_sync(w.get(), m); else { m.s.clear(); m.a.clear(); }
    for (int i = 0; i < steps; ++i) { edit_step(w.get(), m, r, gen); if (probe) probe(w.get(), m); else if (r.p(15)) check_doc(w.get(), edit_doc(m), true); }
    if (fresh) { while (m.s.empty()) { MSub q = gen ? gen(r) : some_sub(r); add_sub(w.get(), q, r); for (int k : keys_s(w.get())) m.s[k] = q; } }
    w->Close(); m.doc = edit_doc(m);
}
}
