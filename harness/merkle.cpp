// Entry points only: every function body verified below comes from /repo/include/dottorrent/merkle_tree.hpp (and hash.hpp, utils.hpp).
#include <gsl-lite/gsl-lite.hpp>
#include <algorithm>
#include <functional>
#include <string>
#include <string_view>
#include <span>
#include <compare>
#include <tuple>
#include <vector>
#include <mutex>
#include <shared_mutex>
#include <memory>
#include <new>
#include "dottorrent/merkle_tree.hpp"
using namespace dottorrent;
using T = merkle_tree<hash_function::sha256>;
using V = T::value_type;
// the hasher given by the caller: what it is told is recorded, what it answers is left open
extern "C" void vc_h_update(void* self, const std::byte* p, std::size_t n);
extern "C" void vc_h_final(void* self, std::byte* p, std::size_t n);
struct ghost_hasher final : single_buffer_hasher {
    using single_buffer_hasher::update;
    void update(std::span<const std::byte> d) override { vc_h_update(this, d.data(), d.size()); }
    void finalize_to(std::span<std::byte> o) override { vc_h_final(this, o.data(), o.size()); }
};
extern "C" {
extern const std::size_t vc_tsize = sizeof(T);
void vc_def(T* o) { new (o) T(); }
void vc_leaves(T* o, std::size_t n) { new (o) T(n); }
void vc_leavesv(T* o, std::size_t n, const V* v) { new (o) T(n, *v); }
void vc_reset(T* o, std::size_t n) { o->set_leaf_nodes(n); }
void vc_resetv(T* o, std::size_t n, const V* v) { o->set_leaf_nodes(n, *v); }
void vc_copy(T* o, const T* a) { new (o) T(*a); }
void vc_move(T* o, T* a) { new (o) T(std::move(*a)); }
void vc_asg(T* o, const T* a) { *o = *a; }
void vc_masg(T* o, T* a) { *o = std::move(*a); }
void vc_dtor(T* o) { o->~T(); }
void vc_update(T* o) { ghost_hasher h; o->update(h); }
std::size_t vc_nodes(const T* o) { return o->node_count(); }
std::size_t vc_leafs(const T* o) { return o->leaf_count(); }
std::size_t vc_height(const T* o) { return o->tree_height(); }
void vc_root(T* o, V* r) { new (r) V(o->root()); }
bool vc_hasroot(T* o) { return o->has_root(); }
void vc_set(T* o, std::size_t i, const V* v) { o->set_leaf(i, *v); }
void vc_get(const T* o, std::size_t i, V* r) { new (r) V(o->get_leaf(i)); }
void vc_node(const T* o, std::size_t l, std::size_t i, V* r) { new (r) V(o->get_node(l, i)); }
const void* vc_layer(T* o, std::size_t d, std::size_t r, std::size_t* n) { auto s = o->get_layer(d, r); *n = s.size(); return s.data(); }
const void* vc_layer0(T* o, std::size_t d, std::size_t* n) { auto s = o->get_layer(d); *n = s.size(); return s.data(); }
const void* vc_range(T* o, std::size_t l, std::size_t a, std::size_t b, std::size_t* n) { auto s = o->get_node_range(l, a, b); *n = s.size(); return s.data(); }
}
