// bounded stand-ins over the public writer / reader interface
// NTUS: @lib
#include "api.h"
using namespace api;
extern "C" void B_roundtrip()
{
    Rng r = make_rng(); Written w = write_random(r, r.p(50) ? 4 : 12, 4);
    ICZIReader::OpenOptions oo; oo.SetDefault(); if (r.p(30)) oo.lax_subblock_coordinate_checks = false; if (r.p(30)) oo.subBlockDirectoryInfoPolicy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence;
    auto rd = open(w.s, &oo); check_doc(rd.get(), w.d);
    vc_assert(guid_eq(rd->GetFileHeaderInfo().fileGuid, w.d.guid), "the file identifier is the requested one");
    if (w.d.subs.size() > 2) vc_cover("several subblocks"); if (w.d.atts.size() > 1) vc_cover("several attachments"); if (w.d.has_meta) vc_cover("metadata");
}
extern "C" void B_layout()
{
    Rng r = make_rng(); Written w = write_random(r, r.p(50) ? 4 : 12, 4);
    check_chain(w.s->d, false); if (w.d.subs.size() > 1) vc_cover("several subblocks"); if (w.d.atts.size() > 1) vc_cover("several attachments");
}
#include "edit.h"
static void edit_history(bool layout)
{
    Rng r = make_rng(); EditModel m; shared_ptr<MemStream> s; bool fresh = r.p(15);
    if (fresh) { s = std::make_shared<MemStream>(); m.doc.guid = some_guid(r); }
    else { Written w = write_random(r, 6, 4); s = w.s; m.doc = w.d; }
    int sessions = r.in(1, 4);
    for (int i = 0; i < sessions; ++i)
    {
        edit_session(s, m, r, r.in(0, 8), fresh && i == 0, nullptr, layout ? [](ICziReaderWriter*, EditModel&) {} : std::function<void(ICziReaderWriter*, EditModel&)>());
        if (layout) check_chain(s->d, true);
        else { auto rd = open(s); check_doc(rd.get(), m.doc); vc_assert(guid_eq(rd->GetFileHeaderInfo().fileGuid, m.doc.guid), "file identifier"); }
    }
}
extern "C" void B_edit() { edit_history(false); }
extern "C" void B_edit_layout() { edit_history(true); }
