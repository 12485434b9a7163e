"""C35: map helpers return every key and value in map order."""
import drv
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of both helpers on map-like containers (lvalue, const and rvalue; with duplicate keys, as multimaps have) whose keys and values are opaque objects: "
               "on every path the result has one entry per map entry, in iteration order and of the same content, the map's entries keep their content, and nothing is leaked.")
ASSUMPTIONS = ["maps of up to four entries stand for all maps"]
SRC = r'''
#include <Caitlyn/Collections>
#include <initializer_list>
using namespace Caitlyn;
''' + drv.opaque("K") + drv.opaque("V") + r'''
typedef std::pair<const vp::K, vp::V> E;
struct M {
    using key_type = vp::K; using mapped_type = vp::V; using value_type = E; using iterator = E*; using const_iterator = const E*; using size_type = std::size_t; using reference = E&; using const_reference = const E&; using difference_type = std::ptrdiff_t;
    E* b; std::size_t n;
    iterator begin() { return b; } iterator end() { return b + n; }
    const_iterator begin() const { return b; } const_iterator end() const { return b + n; } const_iterator cbegin() const { return b; } const_iterator cend() const { return b + n; }
    std::reverse_iterator<iterator> rbegin() { return std::reverse_iterator<iterator>(end()); } std::reverse_iterator<iterator> rend() { return std::reverse_iterator<iterator>(begin()); }
    std::reverse_iterator<const_iterator> rbegin() const { return std::reverse_iterator<const_iterator>(end()); } std::reverse_iterator<const_iterator> rend() const { return std::reverse_iterator<const_iterator>(begin()); }
    size_type size() const { return n; } bool empty() const { return n == 0; }
    iterator find(const vp::K& k) { for (std::size_t i = 0; i < n; ++i) if (vp_val(b[i].first) == vp_val(k)) return b + i; return b + n; }
    const_iterator find(const vp::K& k) const { for (std::size_t i = 0; i < n; ++i) if (vp_val(b[i].first) == vp_val(k)) return b + i; return b + n; }
    size_type count(const vp::K& k) const { size_type c = 0; for (std::size_t i = 0; i < n; ++i) if (vp_val(b[i].first) == vp_val(k)) ++c; return c; }
    mapped_type& at(const vp::K& k) { return find(k)->second; } const mapped_type& at(const vp::K& k) const { return find(k)->second; }
    mapped_type& operator[](const vp::K& k) { return find(k)->second; }
};
static int kid[4], vid[4];
static void check(const M& m, const std::vector<vp::K>& k, const std::vector<vp::V>& v) {
    vp_assert(k.size() == m.n, "one key per entry"); vp_assert(v.size() == m.n, "one value per entry");
    for (std::size_t i = 0; i < m.n; ++i) {
        vp_assert(vp_val(k[i]) == kid[i], "the keys are in map order"); vp_assert(vp_val(v[i]) == vid[i], "the n-th value belongs to the n-th key");
        vp_assert(vp_val(m.b[i].first) == kid[i] && vp_val(m.b[i].second) == vid[i], "the map is not changed");
    }
    vp_reach("end");
}
static void ids(const M& m) { for (std::size_t i = 0; i < m.n; ++i) { kid[i] = vp_val(m.b[i].first); vid[i] = vp_val(m.b[i].second); } }
static void runs(E* e, std::size_t n) {
    M m{e, n}; ids(m);
    if (vp_bool("const")) { const M& c = m; check(m, GetMapKeys(c), GetMapValues(c)); } else check(m, GetMapKeys(m), GetMapValues(m));
}
static void rvalue(E* e, std::size_t n) {
    M m{e, n}; ids(m);
    auto k = GetMapKeys(M{e, n}); vp_assert(k.size() == n, "one key per entry"); for (std::size_t i = 0; i < n; ++i) vp_assert(vp_val(k[i]) == kid[i], "the keys are in map order");
    for (std::size_t i = 0; i < n; ++i) { vp_assert(vp_val(m.b[i].first) == kid[i], "the keys of the map are not changed"); }
    auto v = GetMapValues(M{e, n}); vp_assert(v.size() == n, "one value per entry"); for (std::size_t i = 0; i < n; ++i) vp_assert(vp_val(v[i]) == vid[i], "the n-th value belongs to the n-th key");
    vp_reach("end");
}
extern "C" {
void t_0() { if (vp_bool("r")) rvalue(nullptr, 0); else runs(nullptr, 0); }
void t_1() { E e[1] = {E(vp::K(1), vp::V(2))}; if (vp_bool("r")) rvalue(e, 1); else runs(e, 1); }
void t_2() { E e[2] = {E(vp::K(1), vp::V(2)), E(vp::K(3), vp::V(4))}; if (vp_bool("r")) rvalue(e, 2); else runs(e, 2); }
void t_3() { E e[3] = {E(vp::K(1), vp::V(9)), E(vp::K(3), vp::V(4)), E(vp::K(5), vp::V(2))}; if (vp_bool("r")) rvalue(e, 3); else runs(e, 3); }
void t_4() { E e[4] = {E(vp::K(1), vp::V(9)), E(vp::K(3), vp::V(4)), E(vp::K(5), vp::V(2)), E(vp::K(7), vp::V(4))}; if (vp_bool("r")) rvalue(e, 4); else runs(e, 4); }
void t_dup() { E e[3] = {E(vp::K(1), vp::V(2)), E(vp::K(1), vp::V(4)), E(vp::K(5), vp::V(2))}; if (vp_bool("r")) rvalue(e, 3); else runs(e, 3); }
}
'''


def cfg(eng, run, entry):
    drv.lib_classes(eng)
    return drv.leakcheck


def run(ctx):
    mod, res = drv.settle(ctx, "map", SRC, cfg)
    drv.reached(ctx, res, 6)
