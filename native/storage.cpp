#include <gsl-lite/gsl-lite.hpp>
#include "drv.hpp"
#include <bit>
#include <compare>
#include <filesystem>
#include <memory>
#include <mutex>
#include <new>
#include <span>
#include <tuple>
#include "dottorrent/file_storage.hpp"
using namespace drv; using namespace dottorrent;
struct M { std::string path; size_t size; int attr; std::string root, sum; bool pad() const { return attr >= 0 && (attr & int(file_attributes::padding_file)); } };
static file_entry make(const M& m) {
    auto a = m.attr < 0 ? std::nullopt : std::optional<file_attributes>(static_cast<file_attributes>(m.attr));
    file_entry e(m.path, m.size, a); if (!m.root.empty()) { sha256_hash h; std::memcpy(h.data(), m.root.data(), 32); e.set_pieces_root(h); e.set_piece_layer(std::span(&h, 1)); }
    if (!m.sum.empty()) e.add_checksum(make_checksum("md5", std::string_view(m.sum))); return e;
}
static bool same(const file_entry& e, const M& m) {
    if (e.path().string() != m.path || e.file_size() != m.size || e.is_padding_file() != m.pad() || e.attributes().has_value() != (m.attr >= 0) || e.has_v2_data() != !m.root.empty()) return false;
    if (m.attr >= 0 && *e.attributes() != static_cast<file_attributes>(m.attr)) return false;
    if (!m.root.empty() && (std::memcmp(e.pieces_root().data(), m.root.data(), 32) || e.piece_layer().size() != 1 || std::memcmp(e.piece_layer()[0].data(), m.root.data(), 32))) return false;
    auto* c = e.get_checksum("md5"); if (!c != m.sum.empty()) return false;
    return !c || (c->value().size() == 16 && std::memcmp(c->value().data(), m.sum.data(), 16) == 0);
}
using V = std::vector<M>;
static void is(file_storage& f, const V& v, size_t ps, const std::string& w) {
    const file_storage& c = f; size_t tot = 0, reg = 0, rc = 0; bool al = true, v2 = true; std::vector<size_t> ex, i1, i2;
    req(f.file_count() == v.size() && f.size() == v.size(), w + ": number of files");
    size_t k = 0; for (auto& e : c) { req(same(e, v[k]), w + ": file " + std::to_string(k)); ++k; }
    for (size_t i = 0; i < v.size(); ++i) { auto& m = v[i]; req(&c[i] == &*(c.begin() + i) && &f.at(i) == &c[i] && &f[i] == &c[i], w + ": element");
        ex.push_back(tot); if (!m.pad()) { ++rc; reg += m.size; if (ps && tot % ps) al = false; if (m.size && m.root.empty()) v2 = false; } tot += m.size; i1.push_back(tot); i2.push_back(reg); }
    bool thrown = false; try { (void) c.at(v.size()); } catch (const std::out_of_range&) { thrown = true; } req(thrown, w + ": at the end");
    if (!v.empty()) req(&f.front() == &f[0] && &c.back() == &c[v.size() - 1], w + ": ends");
    req(f.total_file_size() == tot, w + ": total"); req(f.total_regular_file_size() == reg, w + ": regular total"); req(f.regular_file_count() == rc, w + ": regular count");
    req(exclusive_file_size_scan(f) == ex && inclusive_file_size_scan_v1(f) == i1 && inclusive_file_size_scan_v2(f) == i2, w + ": running sums");
    req(f.piece_size() == ps, w + ": piece size"); req(f.piece_count() == (ps ? tot / ps + (tot % ps != 0) : 0), w + ": piece count");
    if (ps) { req(is_piece_aligned(f) == al, w + ": aligned");
        for (size_t i = 0; i < v.size(); ++i) { auto [a, b] = f.get_pieces_offsets(i); size_t x = ex[i] / ps, y = v[i].size ? (ex[i] + v[i].size - 1) / ps + 1 : x; req(a == x && b == y, w + ": piece range"); } }
    bool v1 = !f.pieces().empty(); auto p = v1 && v2 ? protocol::v1 | protocol::v2 : v1 ? protocol::v1 : v2 ? protocol::v2 : tot == 0 ? protocol::v1 : protocol::none; req(f.protocol() == p, w + ": protocol");
}
static void hashes(file_storage& f, const V& v, size_t ps, Rng& r) {
    f.allocate_pieces(); size_t n = f.piece_count(); auto p = f.pieces(); req(p.size() == n, "pieces allocated"); sha1_hash z; for (auto& h : p) req(h == z, "pieces are zero");
    std::vector<std::string> m(n, std::string(20, '\0')); for (size_t k = 0; n && k < 2 * n; ++k) { size_t i = r(n); auto s = r.bytes(20); sha1_hash h; std::memcpy(h.data(), s.data(), 20); f.set_piece_hash(i, h); m[i] = s; }
    for (size_t i = 0; i < n; ++i) req(std::memcmp(f.get_piece_hash(i).data(), m[i].data(), 20) == 0 && &f.pieces()[i] == &f.get_piece_hash(i), "piece hash");
    size_t off = 0; for (size_t i = 0; i < v.size(); ++i) { auto s = f.get_pieces_span(i); size_t a = off / ps, b = v[i].size ? (off + v[i].size - 1) / ps + 1 : a; off += v[i].size; req(s.size() == b - a, "span size"); for (size_t k = 0; k < s.size(); ++k) req(std::memcmp(s[k].data(), m[a + k].data(), 20) == 0, "span"); }
}
void run_case(const args& a) {
    Rng r(std::stoull(a.at(1))); size_t ops = std::stoul(a.at(2)), ps = 0; bool huge = a[0] == "huge"; file_storage f; V v; is(f, v, 0, "no files"); enum file_mode fm = file_mode::empty;
    auto file = [&] { M m; m.path = r.from("ab", r(2)); if (!m.path.empty()) m.path += "/"; m.path += r.from("ab", 1 + r(2)); size_t u = ps ? ps : size_t(1) << 14; m.size = huge ? r(size_t(1) << (r(50))) : r.coin(3) ? u * r(4) : r.coin(4) ? 0 : r(3 * u) ; if (!huge && m.size && r.coin(6)) m.size += r.coin() ? 1 : -1;
        m.attr = r.coin() ? -1 : int(r(16)) & ~int(file_attributes::symlink); if (r.coin(3)) m.attr = int(file_attributes::padding_file); if (r.coin(3)) m.root = r.bytes(32); if (r.coin(3)) m.sum = r.bytes(16); return m; };
    for (size_t k = 0; k < ops; ++k) {
        size_t op = r(12); if (v.size() > 12) op = 6 + r(6);
        if (op < 3) { auto m = file(); auto e = make(m); if (r.coin()) f.add_file(e); else f.add_file(std::move(e)); v.push_back(m); req(!f.index_valid(), "index after adding"); }
        else if (op < 5) { std::vector<file_entry> es; size_t n = r(4); for (size_t i = 0; i < n; ++i) { auto m = file(); es.push_back(make(m)); v.push_back(m); } if (n) f.index(); f.add_files(es.begin(), es.end()); if (n) req(!f.index_valid(), "index after adding"); }
        else if (op == 5) { if (!v.empty()) { size_t i = r(v.size()); M m = v[i]; f.add_file(std::as_const(f)[i]); v.push_back(m); } }
        else if (op < 8) { M m = file(); if (!v.empty() && r.coin()) m = v[r(v.size())]; f.index(); auto e = make(m); auto it = std::find_if(v.begin(), v.end(), [&](auto& x) { return x.path == m.path; }); bool in = it != v.end(); if (in) v.erase(it); f.remove_file(e); if (in) req(!f.index_valid(), "index after removing"); }
        else if (op == 8) { if (!v.empty()) { size_t i = r(v.size()); auto it = std::find_if(v.begin(), v.end(), [&](auto& x) { return x.path == v[i].path; }); f.remove_file(f[i]); v.erase(it); } }
        else if (op == 9) { if (r.coin(4)) { f.index(); f.clear(); v.clear(); req(!f.index_valid(), "index after clearing"); } else { ps = size_t(1) << (14 + r(huge ? 40 : 4)); f.set_piece_size(ps); } }
        else if (op == 10) { if (r.coin(6)) { fm = static_cast<enum file_mode>(r(3)); f.set_file_mode(fm); } f.index(); size_t np = f.pieces().size(); std::vector<sha1_hash> hs(f.pieces().begin(), f.pieces().end()); auto eq = [&](file_storage& g, const char* w) { is(g, v, ps, w); req(!g.index_valid(), "index of a copy"); req(g.file_mode() == f.file_mode(), "mode of a copy"); req(g.pieces().size() == np && std::equal(hs.begin(), hs.end(), g.pieces().begin()), "pieces of a copy"); };
            file_storage g(f); eq(g, "copied"); is(f, v, ps, "source of a copy"); file_storage h; h.add_file(make(file())); h.index(); if (!huge && r.coin()) { h.set_piece_size(1 << 15); h.allocate_pieces(); } h = g; eq(h, "assigned"); h = *&h; is(h, v, ps, "assigned to itself"); if (r.coin()) f = h; g.clear(); is(f, v, ps, "copy cleared"); }
        else if (ps) {
            if (!huge && r.coin()) hashes(f, v, ps, r);
            else { V w; for (size_t i = 0; i < v.size(); ++i) { w.push_back(v[i]); size_t x = v[i].size % ps; if (i + 1 < v.size() && x) { M m; m.size = ps - x; m.path = ".pad/" + std::to_string(m.size); m.attr = int(file_attributes::padding_file); w.push_back(m); } }
                f.index(); optimize_alignment(f); v = w; if (!v.empty()) req(!f.index_valid(), "index after aligning"); }
        }
        is(f, v, ps, "after operation " + std::to_string(k)); req(f.file_mode() == (v.empty() ? file_mode::empty : v.size() == 1 ? fm : file_mode::multi), "file mode");
    }
}
void search(Rng& r, const std::function<bool()>& more, const std::function<void(args)>& t) {
    while (more()) t({r.coin(8) ? "huge" : "files", std::to_string(r(1u << 30)), std::to_string(1 + r(30))});
}
