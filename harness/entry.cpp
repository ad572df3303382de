// Entry points only: bodies come from /repo/src/file_entry.cpp and file_entry.hpp.
#include <gsl-lite/gsl-lite.hpp>
#include <algorithm>
#include <compare>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include <fmt/format.h>
#include "file_entry.cpp"
using namespace dottorrent;
using E = file_entry;
struct given { const fs::path* path; std::size_t size; bool has_attr; unsigned attr; bool has_link; const fs::path* link; bool root; const sha256_hash* hash; bool layer; const sha256_hash* hashes; std::size_t count; bool has_time; long time; };
template <bool together = false> static inline void make(E* e, const given* g) {
    std::optional<file_attributes> a; if (g->has_attr) a = static_cast<file_attributes>(g->attr);
    std::optional<fs::path> l; if (g->has_link) l = *g->link;
    new (e) E(*g->path, g->size, a, l);
    if constexpr (together) { if (g->layer) { e->set_pieces_root(*g->hash); e->set_piece_layer(std::span<const sha256_hash>(g->hashes, g->count)); e->set_last_modified_time(fs::file_time_type(fs::file_time_type::duration(g->time))); } return; }
    if (g->root) e->set_pieces_root(*g->hash);
    if (g->layer) e->set_piece_layer(std::span<const sha256_hash>(g->hashes, g->count));
    if (g->has_time) e->set_last_modified_time(fs::file_time_type(fs::file_time_type::duration(g->time)));
}
struct seen { const fs::path* path; std::size_t size; bool has_attr; unsigned attr; bool has_link; bool link; bool v2; bool thrown; const sha256_hash* root; const sha256_hash* layer; std::size_t count; bool has_time; long time; bool sym, exe, hid, pad; };
static inline void look(const E* e, const given* g, seen* s) {
    s->path = &e->path(); s->size = e->file_size(); auto a = e->attributes(); s->has_attr = a.has_value(); s->attr = a ? static_cast<unsigned>(*a) : 0u;
    { auto l = e->symlink_path(); s->has_link = l.has_value(); s->link = l ? *l == *g->link : false; }
    s->v2 = e->has_v2_data(); s->thrown = false; s->root = nullptr; s->layer = nullptr; s->count = 0;
    try { s->root = &e->pieces_root(); auto p = e->piece_layer(); s->layer = p.data(); s->count = p.size(); } catch (const std::invalid_argument&) { s->thrown = true; }
    auto t = e->last_modified_time(); s->has_time = t.has_value(); s->time = t ? t->time_since_epoch().count() : 0;
    s->sym = e->is_symlink(); s->exe = e->is_executable(); s->hid = e->is_hidden(); s->pad = e->is_padding_file();
}
extern "C" {
extern const std::size_t vc_esize = sizeof(E), vc_gsize = sizeof(given), vc_ssize = sizeof(seen);
void vc_make(E* e, const given* g, seen* s) { make(e, g); look(e, g, s); }
void vc_copy(E* e, E* f, const given* g, seen* s, seen* t) { make(e, g); new (f) E(*static_cast<const E*>(e)); look(f, g, s); look(e, g, t); }
void vc_move(E* e, E* f, const given* g, seen* s, std::size_t* o) { make(e, g); new (f) E(std::move(*e)); look(f, g, s); o[0] = e->file_size(); o[1] = e->is_padding_file(); }
void vc_assign(E* e, E* f, const given* g, const given* h, seen* s, seen* t) { make(e, g); make<true>(f, h); *f = *static_cast<const E*>(e); look(f, g, s); look(e, g, t); }
void vc_massign(E* e, E* f, const given* g, const given* h, seen* s, std::size_t* o) { make(e, g); make<true>(f, h); *f = std::move(*e); look(f, g, s); o[0] = e->file_size(); o[1] = e->is_padding_file(); }
void vc_self(E* e, const given* g, seen* s) { make(e, g); *e = *e; look(e, g, s); }
void vc_mself(E* e, const given* g, seen* s) { make(e, g); *e = std::move(*e); look(e, g, s); }
bool vc_eq(E* e, E* f, const given* g, const given* h) { make(e, g); make(f, h); return *e == *f; }
void vc_pad(E* e, std::size_t n, std::size_t* o) { new (e) E(make_padding_file_entry(n)); o[0] = e->file_size(); o[1] = e->is_padding_file(); o[2] = e->has_v2_data(); o[3] = e->is_symlink(); }
}
