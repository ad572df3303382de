// Entry points only: bodies come from /repo/src/file_storage.cpp and file_storage.hpp; file entries are used through the contracts of their functions.
#include <gsl-lite/gsl-lite.hpp>
#include <algorithm>
#include <bit>
#include <compare>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include <fmt/format.h>
#include "file_storage.cpp"
using namespace dottorrent;
using F = file_storage; using E = file_entry;
// stands for: any history of operations led to any contents (and any value of what is not observable)
extern "C" void vc_any(F* s);
extern "C" std::size_t vc_size();                       // any piece size that set_piece_size accepts
extern "C" void vc_valid(std::size_t total);            // the representation is consistent: the total reported is the sum of the sizes
extern "C" void vc_assume(bool);
extern "C" {
extern const std::size_t vc_fsize = sizeof(F), vc_esize = sizeof(E);
#define ANY(s) new (s) F(); vc_any(s); s->set_piece_size(vc_size()); vc_valid(s->total_file_size());
static inline void look(const F* s, std::size_t* o) { o[0] = s->total_file_size(); o[1] = s->piece_size(); o[2] = static_cast<std::size_t>(s->file_mode()); o[3] = s->index_valid(); }
void vc_def(F* s, std::size_t* o) { new (s) F(); look(s, o); o[4] = s->piece_count(); o[5] = s->has_root_directory(); }
void vc_add(F* s, const E* e, std::size_t* o) { ANY(s) s->add_file(*e); look(s, o); }
void vc_addm(F* s, E* e, std::size_t* o) { ANY(s) s->add_file(std::move(*e)); look(s, o); }
void vc_add_own(F* s, std::size_t i, std::size_t* o) { ANY(s) s->add_file(std::as_const(*s)[i]); look(s, o); }
void vc_addp(F* s, const fs::path* p, unsigned opt, std::size_t* o) { ANY(s) o[4] = 0; try { s->add_file(*p, static_cast<file_options>(opt)); } catch (...) { o[4] = 1; } look(s, o); }
void vc_adds(F* s, std::vector<E>* v, std::size_t* o) { ANY(s) s->add_files(v->begin(), v->end()); look(s, o); }
void vc_remove(F* s, const E* e, std::size_t* o) { ANY(s) s->remove_file(*e); look(s, o); }
void vc_remove_own(F* s, std::size_t i, std::size_t* o) { ANY(s) s->remove_file((*s)[i]); look(s, o); }
void vc_clear(F* s, std::size_t* o) { ANY(s) s->clear(); look(s, o); }
std::size_t vc_regular(F* s) { ANY(s) return s->total_regular_file_size(); }
std::size_t vc_count(F* s) { ANY(s) return s->file_count(); }
std::size_t vc_size_(F* s) { ANY(s) return s->size(); }
std::size_t vc_regcount(F* s) { ANY(s) return s->regular_file_count(); }
std::size_t vc_pieces(F* s) { ANY(s) return s->piece_count(); }
std::size_t vc_psize(F* s, std::size_t n) { new (s) F(); s->set_piece_size(n); return s->piece_size(); }
std::size_t vc_pieces0(F* s, const E* e) { new (s) F(); s->add_file(*e); return s->piece_count(); }
void vc_range(F* s, std::size_t i, std::size_t* o) { ANY(s) auto [a, b] = s->get_pieces_offsets(i); o[0] = a; o[1] = b; }
const sha1_hash* vc_span(F* s, std::size_t i, std::size_t* o) { ANY(s) vc_assume(s->pieces().size() == s->piece_count()); auto r = s->get_pieces_span(i); o[0] = r.size(); return r.data(); }
void vc_excl(F* s, std::vector<std::size_t>* o) { ANY(s) new (o) std::vector<std::size_t>(exclusive_file_size_scan(*s)); }
void vc_incl1(F* s, std::vector<std::size_t>* o) { ANY(s) new (o) std::vector<std::size_t>(inclusive_file_size_scan_v1(*s)); }
void vc_incl2(F* s, std::vector<std::size_t>* o) { ANY(s) new (o) std::vector<std::size_t>(inclusive_file_size_scan_v2(*s)); }
const E* vc_at(F* s, std::size_t i) { ANY(s) return &std::as_const(*s).at(i); }
const E* vc_mat(F* s, std::size_t i) { ANY(s) return &s->at(i); }
const E* vc_ix(F* s, std::size_t i) { ANY(s) return &(*s)[i]; }
const E* vc_cix(F* s, std::size_t i) { ANY(s) return &std::as_const(*s)[i]; }
const E* vc_front(F* s) { ANY(s) return &s->front(); }
const E* vc_back(F* s) { ANY(s) return &s->back(); }
const E* vc_cfront(F* s) { ANY(s) return &std::as_const(*s).front(); }
const E* vc_cback(F* s) { ANY(s) return &std::as_const(*s).back(); }
const E* vc_begin(F* s) { ANY(s) return &*s->begin(); }
void vc_copy(F* s, F* o, std::size_t* a, std::size_t* b) { ANY(s) look(s, a); new (o) F(*s); look(o, b); b[4] = o->root_directory() == s->root_directory(); }
void vc_assign(F* s, F* o, std::size_t* a, std::size_t* b) { new (o) F(); vc_any(o); ANY(s) look(s, a); *o = *s; look(o, b); b[4] = o->root_directory() == s->root_directory(); }
void vc_self(F* s, std::size_t* a, std::size_t* b) { ANY(s) look(s, a); *s = *s; look(s, b); }
void vc_alloc(F* s, std::size_t* o) { ANY(s) s->allocate_pieces(); auto p = s->pieces(); o[0] = p.size(); o[1] = s->piece_count(); }
void vc_sethash(F* s, std::size_t i, const sha1_hash* h) { ANY(s) vc_assume(s->pieces().size() == s->piece_count()); s->set_piece_hash(i, *h); }
const sha1_hash* vc_gethash(F* s, std::size_t i) { ANY(s) vc_assume(s->pieces().size() == s->piece_count()); return &s->get_piece_hash(i); }
const sha1_hash* vc_hashes(F* s, std::size_t* o) { ANY(s) auto p = s->pieces(); o[0] = p.size(); return p.data(); }
std::size_t vc_mode(F* s, unsigned m) { ANY(s) s->set_file_mode(static_cast<enum file_mode>(m)); return static_cast<std::size_t>(s->file_mode()); }
unsigned vc_proto(F* s) { ANY(s) return static_cast<unsigned>(s->protocol()); }
bool vc_aligned(F* s) { ANY(s) return is_piece_aligned(*s); }
void vc_align(F* s, std::size_t* o) { ANY(s) optimize_alignment(*s); look(s, o); }
}
