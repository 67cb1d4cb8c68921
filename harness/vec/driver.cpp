// Executes histories of operations on the fu::vec of /repo/include, and prints what a
// user of the arrays can see after each one.
//
//   driver cases  < cases     one transition of the specification per line, from every
//                             representation (inline/owned/shared/...) of its pre-state
//   driver random X SEED STEPS whole|range OUT    a random history, one JSON line per operation
//
// Which operation results are right is not decided here: `cases` compares with what TLC
// computed from the specification, `random` output is validated by TLC.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>

#include <fu/int.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/view_assign.h>
#include <fu/vec/view_swap.h>
#include <fu/vec/LEGACY_slice.h>
#include <fu/default.h>

using fu::i;

// --- events: allocations and element lifetimes --------------------------------

static bool g_record = false;
static std::vector<std::string> g_ev;
static std::map<void*, int> g_block;   // live blocks
static int g_next_block = 1;

extern "C" void* __real_malloc(size_t);
extern "C" void  __real_free(void*);
static bool g_in_hook = false;

extern "C" void* __wrap_malloc(size_t n) {
    void* p = __real_malloc(n);
    if (g_record && !g_in_hook) {
        g_in_hook = true;
        int id = g_next_block++;
        g_block[p] = id;
        g_ev.push_back("[\"a\"," + std::to_string(id) + "]");
        g_in_hook = false;
    }
    return p;
}
extern "C" void __wrap_free(void* p) {
    if (g_record && !g_in_hook && p) {
        g_in_hook = true;
        auto it = g_block.find(p);
        g_ev.push_back("[\"f\"," + std::to_string(it == g_block.end() ? 0 : it->second) + "]");
        if (it != g_block.end()) g_block.erase(it);
        g_in_hook = false;
    }
    __real_free(p);
}

// A non-trivial element: it owns a node. The node's serial number is the identity of
// the element, relocation (memcpy) keeps it.
static int g_next_elem = 1;
struct Node { uint32_t magic; int id; int v; };
static const uint32_t LIVE = 0xA11CE5, DEAD = 0xDEADDEAD;
static std::vector<Node*> g_graveyard;
static int g_faults = 0;

static Node* node_new(int v) {
    g_in_hook = true;
    Node* n = new Node { LIVE, g_next_elem++, v };
    if (g_record) g_ev.push_back("[\"c\"," + std::to_string(n->id) + "]");
    g_in_hook = false;
    return n;
}
static void node_del(Node* n) {
    g_in_hook = true;
    if (g_record) g_ev.push_back("[\"d\"," + std::to_string(n->id) + "]");
    if (n->magic != LIVE) g_faults++;
    n->magic = DEAD;
    g_graveyard.push_back(n);   // never reused, so that double releases are visible
    g_in_hook = false;
}
static int node_val(const Node* n) {
    if (!n) return 0;
    if (n->magic != LIVE) { g_faults++; return -77; }
    return n->v;
}
static void bury() {
    g_in_hook = true;
    for (Node* n : g_graveyard) delete n;
    g_graveyard.clear();
    g_in_hook = false;
}

struct Trk {
    Node* p = nullptr;
    Trk() = default;
    explicit Trk(int v) : p(v ? node_new(v) : nullptr) {}
    explicit Trk(const Trk& o) : p(o.p ? node_new(node_val(o.p)) : nullptr) {}
    Trk(Trk&& o) noexcept : p(o.p) { o.p = nullptr; }
    Trk& operator=(Trk&& o) noexcept { Node* n = o.p; o.p = nullptr; if (p) node_del(p); p = n; return *this; }
    Trk& operator=(const Trk& o) noexcept { return *this = Trk(o); }
    ~Trk() { if (p) node_del(p); p = nullptr; }
};
struct Mov {
    Node* p = nullptr;
    Mov() = default;
    explicit Mov(int v) : p(v ? node_new(v) : nullptr) {}
    Mov(const Mov&) = delete;
    Mov(Mov&& o) noexcept : p(o.p) { o.p = nullptr; }
    Mov& operator=(Mov&& o) noexcept { Node* n = o.p; o.p = nullptr; if (p) node_del(p); p = n; return *this; }
    Mov& operator=(const Mov&) = delete;
    ~Mov() { if (p) node_del(p); p = nullptr; }
};
struct S12 { int a, b, c; };
struct S24 { double a; int64_t b; int64_t c; };
struct MovT { int a; int b; MovT() = default; MovT(const MovT&) = delete; MovT(MovT&&) = default;
              MovT& operator=(MovT&&) = default; MovT& operator=(const MovT&) = delete; };   // nocopy but trivial
typedef fu::vec<int> VI;

template <typename T> struct E;
template <> struct E<unsigned char> { static unsigned char mk(int v) { return (unsigned char)v; } static int rd(const unsigned char& x) { return x; } static int id(const unsigned char&) { return 0; } };
template <> struct E<short>         { static short mk(int v) { return short(v); } static int rd(const short& x) { return x; } static int id(const short&) { return 0; } };
template <> struct E<int>           { static int mk(int v) { return v; } static int rd(const int& x) { return x; } static int id(const int&) { return 0; } };
template <> struct E<uint64_t>      { static uint64_t mk(int v) { return uint64_t(v) * 0x100000001ull; } static int rd(const uint64_t& x) { return int(x & 0xffffffff) == int(x >> 32) ? int(x & 0xffffffff) : -78; } static int id(const uint64_t&) { return 0; } };
template <> struct E<S12> { static S12 mk(int v) { return S12 { v, v * 3, v * 5 }; } static int rd(const S12& x) { return x.b == x.a * 3 && x.c == x.a * 5 ? x.a : -78; } static int id(const S12&) { return 0; } };
template <> struct E<S24> { static S24 mk(int v) { return S24 { double(v), v * 3, v * 5 }; } static int rd(const S24& x) { return x.b == int(x.a) * 3 && x.c == int(x.a) * 5 ? int(x.a) : -78; } static int id(const S24&) { return 0; } };
template <> struct E<MovT> { static MovT mk(int v) { MovT m; m.a = v; m.b = v * 3; return m; } static int rd(const MovT& x) { return x.b == x.a * 3 ? x.a : -78; } static int id(const MovT&) { return 0; } };
template <> struct E<Trk> { static Trk mk(int v) { return Trk(v); } static int rd(const Trk& x) { return node_val(x.p); } static int id(const Trk& x) { return x.p ? x.p->id : 0; } };
template <> struct E<Mov> { static Mov mk(int v) { return Mov(v); } static int rd(const Mov& x) { return node_val(x.p); } static int id(const Mov& x) { return x.p ? x.p->id : 0; } };
// nested arrays: value v is an array of 1 + v % 6 cells
template <> struct E<VI> {
    static VI mk(int v) { VI r; if (v) for (int k = 0; k <= v % 6; k++) r.push(v + k); return r; }
    static int rd(const VI& x) {
        if (!x.size()) return 0;
        int v = x[0];
        if (x.size() != 1 + v % 6) return -78;
        for (int k = 0; k < x.size(); k++) if (x[k] != v + k) return -78;
        return v;
    }
    static int id(const VI&) { return 0; }
};

// --- operations ----------------------------------------------------------------

struct Op { std::string op; int d, s, i, del, n, a, b, v; };

template <typename T> using Vec = fu::vec<T>;
template <typename T> static std::vector<int> look(const Vec<T>& x) {
    std::vector<int> r;
    const Vec<T>& c = x;
    for (int k = 0; k < c.size(); k++) r.push_back(E<T>::rd(c[k]));
    return r;
}

// The ways to get at a window [a, b) of an array: at once, in steps, as a part of larger ones.
static int g_path = 0;
template <typename V> static fu::vec_range_mut<typename V::value_type> window(V& d, int a, int b)
{
    int n = d.size();
    switch (g_path % 5) {
        case 1: { auto w = fu::get_range_mut(d, a); return fu::get_range_mut(w, 0, b - a); }
        case 2: { auto w = fu::get_range_start0_mut(d, b); return fu::get_range_mut(w, a); }
        case 3: { int a1 = (a + 1) / 2, b1 = b + (n - b) / 2; auto w = fu::get_range_mut(d, a1, b1); return fu::get_range_mut(w, a - a1, b - a1); }
        case 4: {
            fu::vec_range_mut<typename V::value_type> v(d);
            for (int k = 0; k < a; k++) v.ptr_reassign(fu::get_range_mut(v, 1));
            for (int k = n; k > b; k--) v.ptr_reassign(fu::get_range_start0_mut(v, k - 1 - a));
            return v;
        }
        default: return fu::get_range_mut(d, a, b);
    }
}
template <typename V> static fu::vec_range<typename V::value_type> cwindow(const V& d, int a, int b)
{
    int n = d.size();
    switch (g_path % 5) {
        case 1: return fu::get_range(fu::get_range(d, a), 0, b - a);
        case 2: return fu::get_range(fu::get_range_start0(d, b), a);
        case 3: { int a1 = (a + 1) / 2, b1 = b + (n - b) / 2; return fu::get_range(fu::get_range(d, a1, b1), a - a1, b - a1); }
        case 4: { fu::vec_range_mut<typename V::value_type> w(const_cast<V&>(d)); const auto& c = w; return fu::get_range(fu::get_range(c, a), 0, b - a); }
        default: return fu::get_range(d, a, b);
    }
}
template <typename V> static fu::view<typename V::value_type> slice_of(const V& d, int a, int b)
{
    int n = d.size();
    switch (g_path % 5) {
        case 1: return fu::get_view(fu::get_view(d, a), 0, b - a);
        case 2: return fu::get_view(fu::get_view_start0(d, b), a);
        case 3: { int a1 = (a + 1) / 2, b1 = b + (n - b) / 2; return fu::get_view(fu::get_range(d, a1, b1), a - a1, b - a1); }
        case 4: { fu::view<typename V::value_type> v(d); v.ptr_reassign(fu::get_view(d, a)); return fu::get_view_start0(v, b - a); }
        default: return fu::get_view(d, a, b);
    }
}
template <typename V> static fu::view_mut<typename V::value_type> mut_slice_of(V& d, int a, int b)
{
    int n = d.size();
    switch (g_path % 5) {
        case 1: return fu::get_view_mut(fu::get_view_mut(d, a), 0, b - a);
        case 2: { auto v = fu::get_view_start0_mut(d, b); return fu::get_view_mut(v, a); }
        case 3: { int a1 = (a + 1) / 2, b1 = b + (n - b) / 2; auto w = fu::get_range_mut(d, a1, b1); return fu::get_view_mut(w, a - a1, b - a1); }
        case 4: { fu::view_mut<typename V::value_type> v(d); v.ptr_reassign(fu::get_view_mut(d, a)); return fu::get_view_start0_mut(v, b - a); }
        default: return fu::get_view_mut(d, a, b);
    }
}

// A window that was written through goes on showing its part of the array: what lies
// between the `left` elements before it and the `right` ones behind it.
static std::string g_window;
template <typename T> static std::vector<int> look_at(const fu::vec_range_mut<T>& w) { std::vector<int> r; for (int k = 0; k < w.size(); k++) r.push_back(E<T>::rd(w[k])); return r; }
template <typename T> static void shows(const fu::vec_range_mut<T>& w, const Vec<T>& d, int left, int right)
{
    std::vector<int> all = look(d), part;
    for (int k = left; k + right < int(all.size()); k++) part.push_back(all[size_t(k)]);
    fu::view<T> v(w);
    bool same = look_at(w) == part && v.size() == w.size() && bool(w) == !part.empty();
    for (int k = 0; same && k < v.size(); k++) same = E<T>::rd(v[k]) == part[size_t(k)];
    if (!same) { g_window = " the window shows something else than its part of the array afterwards;"; g_faults++; }
}

// false: this element type has no such operation
template <typename T> static bool run_op(std::vector<Vec<T>>& h, const Op& o)
{
    constexpr bool COPY = Vec<T>::COPIABLE;
    constexpr bool TRIV = Vec<T>::TRIVIAL;
    typedef Vec<T>&& R;
    Vec<T>& d = h[size_t(o.d)];
    Vec<T>& s = h[size_t(o.s)];
    const std::string& n = o.op;
    const int right = d.size() - o.b;
    g_window.clear();
    if (false) {}
    else if (n == "move")   { d = static_cast<R>(s); }
    else if (n == "swap")   { d.swap(s); }
    else if (n == "drop")   { d = Vec<T>(); }
    else if (n == "push")   { T t = E<T>::mk(o.v); d.push(static_cast<T&&>(t)); }
    else if (n == "unshift"){ T t = E<T>::mk(o.v); d.unshift(static_cast<T&&>(t)); }
    else if (n == "insert") { T t = E<T>::mk(o.v); d.insert(o.i, static_cast<T&&>(t)); }
    else if (n == "set")    { d.mutref(o.i) = E<T>::mk(o.v); }
    else if (n == "setall") { T* p = d.data_mut(); for (int k = 0; k < d.size(); k++) p[k] = E<T>::mk(o.v + k); }
    else if (n == "swapelem") { fu::view_swap(d, o.a, o.b); }
    else if (n == "pop")    { d.pop(); }
    else if (n == "shift1") { d.shift(); }
    else if (n == "shift")  { d.shift(o.n); }
    else if (n == "shift_pop") { d.shift_pop(o.a, o.b); }
    else if (n == "splice") { d.splice(o.i, o.del); }
    else if (n == "splice_empty") { d.splice_empty(o.i, o.del, o.n); }
    else if (n == "resize") { d.resize(o.n); }
    else if (n == "grow")   { d.grow(o.n); }
    else if (n == "shrink") { d.shrink(o.n); }
    else if (n == "clear")  { d.clear(); }
    else if (n == "reserve") { d.reserve(o.n); }
    else if (n == "unique") { d.reserve(); }
    else if (n == "slice_mv"){ d = fu::slice(static_cast<R>(d), o.a, o.b); }
    else if (n == "appendmove") { d.append(o.del, static_cast<R>(s)); s = Vec<T>(); }
    else if (n == "splicemove") { d.splice(o.i, o.del, static_cast<R>(s)); s = Vec<T>(); }
    else if (n == "catmove") { if constexpr (COPY) { Vec<T> t = static_cast<R>(d) + static_cast<R>(s); d = static_cast<R>(t); s = Vec<T>(); } else return false; }
    else if (n == "moddef") { d = s.destructive_move_or_default(); s = Vec<T>(); }
    else if (n == "swapthrough") { auto rd = fu::vec_range_mut<T>(d); rd.swap(fu::vec_range_mut<T>(s)); }
    else if (n == "nilread") { fu::vec_range_mut<T> w; fu::vec_range<T> c; fu::view<T> v; fu::view_mut<T> m; if (w.size() || c.size() || v.size() || m.size() || w || c || v || m) g_faults++; d = Vec<T>(); }
    else if (n == "literal") {
        int v = o.v;
        if (o.n <= 1)      { Vec<T> t { fu::slate<1, T> { E<T>::mk(v) } }; d = static_cast<R>(t); }
        else if (o.n == 2) { Vec<T> t { fu::slate<2, T> { E<T>::mk(v), E<T>::mk(v + 1) } }; d = static_cast<R>(t); }
        else               { Vec<T> t { fu::slate<5, T> { E<T>::mk(v), E<T>::mk(v + 1), E<T>::mk(v + 2), E<T>::mk(v + 3), E<T>::mk(v + 4) } }; d = static_cast<R>(t); }
    }
    // views: windows that can only overwrite
    else if (n == "viewset") { auto w = mut_slice_of(d, o.a, o.b); w.mutref(o.i) = E<T>::mk(o.v); }
    else if (n == "rset")   { auto w = window(d, o.a, o.b); w.mutref(o.i) = E<T>::mk(o.v); shows(w, d, o.a, right); }
    else if (n == "rpush")  { auto w = window(d, o.a, o.b); T t = E<T>::mk(o.v); w.push(static_cast<T&&>(t)); shows(w, d, o.a, right); }
    else if (n == "rpush2") { auto w = window(d, o.a, o.b); T t = E<T>::mk(o.v); w.push(static_cast<T&&>(t)); shows(w, d, o.a, right); }
    else if (n == "runshift") { auto w = window(d, o.a, o.b); T t = E<T>::mk(o.v); w.unshift(static_cast<T&&>(t)); shows(w, d, o.a, right); }
    else if (n == "rinsert") { auto w = window(d, o.a, o.b); T t = E<T>::mk(o.v); w.insert(o.i, static_cast<T&&>(t)); shows(w, d, o.a, right); }
    else if (n == "rresize") { auto w = window(d, o.a, o.b); w.resize(o.n); shows(w, d, o.a, right); }
    else if (n == "rgrow")  { auto w = window(d, o.a, o.b); w.grow(o.n); shows(w, d, o.a, right); }
    else if (n == "rshrink") { auto w = window(d, o.a, o.b); w.shrink(o.n); shows(w, d, o.a, right); }
    else if (n == "rclear") { auto w = window(d, o.a, o.b); w.clear(); shows(w, d, o.a, right); }
    else if (n == "rpop")   { auto w = window(d, o.a, o.b); w.pop(); shows(w, d, o.a, right); }
    else if (n == "rsplice") { auto w = window(d, o.a, o.b); w.splice(o.i, o.del); shows(w, d, o.a, right); }
    else if (n == "rsplicemove") { auto w = window(d, o.a, o.b); w.splice(o.i, o.del, static_cast<R>(s)); s = Vec<T>(); shows(w, d, o.a, right); }
    else if (n == "rappendmove") { auto w = window(d, o.a, o.b); w.append(fu_ZERO(), static_cast<R>(s)); s = Vec<T>(); shows(w, d, o.a, right); }
    else if (n == "rassignmove") { auto w = window(d, o.a, o.b); w = static_cast<R>(s); s = Vec<T>(); shows(w, d, o.a, right); }
    else if (n == "rswap")  { auto w = window(d, o.a, o.b); w.swap(s); shows(w, d, o.a, right); }
    else if (n == "rrswap") { auto w = window(d, o.a, o.b); auto w2 = window(s, o.i, o.n); const int right2 = s.size() - o.n; w.swap(w2); shows(w, d, o.a, right); shows(w2, s, o.i, right2); }
    else if (n == "rmove")  { auto w = window(d, o.a, o.b); Vec<T> t = w.destructive_move(); d = static_cast<R>(t); }
    else if constexpr (COPY) {
        if (false) {}
        else if (n == "copy")   { if (o.d != o.s) d = static_cast<const Vec<T>&>(s); }
        else if (n == "selfpush") { T t(static_cast<const Vec<T>&>(s)[o.i]); d.push(static_cast<T&&>(t)); }
        else if (n == "append") { d.append(o.del, static_cast<const Vec<T>&>(s)); }
        else if (n == "appendsub") { d.append(o.del, slice_of(static_cast<const Vec<T>&>(s), o.a, o.b)); }
        else if (n == "appendrng") { d.append(o.del, cwindow(static_cast<const Vec<T>&>(s), o.a, o.b)); }
        else if (n == "splicecopy") { d.splice(o.i, o.del, static_cast<const Vec<T>&>(s)); }
        else if (n == "splicesub") { d.splice(o.i, o.del, slice_of(static_cast<const Vec<T>&>(s), o.a, o.b)); }
        else if (n == "slice_cp") { Vec<T> t = fu::slice(static_cast<const Vec<T>&>(s), o.a, o.b); d = static_cast<R>(t); }
        else if (n == "cat")    { Vec<T> t = static_cast<const Vec<T>&>(d) + static_cast<const Vec<T>&>(s); d = static_cast<R>(t); }
        else if (n == "catview") { Vec<T> t = slice_of(static_cast<const Vec<T>&>(d), o.a, o.b) + static_cast<const Vec<T>&>(s); d = static_cast<R>(t); }
        else if (n == "prepend") { Vec<T> t = static_cast<const Vec<T>&>(s) + static_cast<R>(d); d = static_cast<R>(t); }
        else if (n == "catone") { Vec<T> t = static_cast<const Vec<T>&>(s) + E<T>::mk(o.v); d = static_cast<R>(t); }
        else if (n == "onecat") { Vec<T> t = E<T>::mk(o.v) + static_cast<const Vec<T>&>(s); d = static_cast<R>(t); }
        else if (n == "catv")   { Vec<T> t = static_cast<const Vec<T>&>(d) + slice_of(static_cast<const Vec<T>&>(s), o.a, o.b); d = static_cast<R>(t); }
        else if (n == "catmv")  { Vec<T> t = static_cast<R>(d) + slice_of(static_cast<const Vec<T>&>(s), o.a, o.b); d = static_cast<R>(t); }
        else if (n == "catvm")  { Vec<T> t = slice_of(static_cast<const Vec<T>&>(s), o.a, o.b) + static_cast<R>(d); d = static_cast<R>(t); }
        else if (n == "catvv")  { Vec<T> t = cwindow(static_cast<const Vec<T>&>(d), o.a, o.b) + slice_of(static_cast<const Vec<T>&>(s), o.i, o.n); d = static_cast<R>(t); }
        else if (n == "catvone") { Vec<T> t = slice_of(static_cast<const Vec<T>&>(s), o.a, o.b) + E<T>::mk(o.v); d = static_cast<R>(t); }
        else if (n == "onecatv") { Vec<T> t = E<T>::mk(o.v) + cwindow(static_cast<const Vec<T>&>(s), o.a, o.b); d = static_cast<R>(t); }
        else if (n == "addto")  { if (g_path & 1) d += static_cast<const Vec<T>&>(s); else { Vec<T> t(static_cast<const Vec<T>&>(s)); d += static_cast<R>(t); } }
        else if (n == "addone") { d += E<T>::mk(o.v); }
        else if (n == "addv")   { d += slice_of(static_cast<const Vec<T>&>(s), o.a, o.b); }
        else if (n == "raddto") { auto w = window(d, o.a, o.b); if (g_path & 1) w += static_cast<const Vec<T>&>(s); else { Vec<T> t(static_cast<const Vec<T>&>(s)); w += static_cast<R>(t); } shows(w, d, o.a, right); }
        else if (n == "raddone") { auto w = window(d, o.a, o.b); w += E<T>::mk(o.v); w += E<T>::mk(o.v + 1); shows(w, d, o.a, right); }
        else if (n == "vread")  { auto v = slice_of(static_cast<const Vec<T>&>(s), o.a, o.b); Vec<T> t; t.append(fu_ZERO(), v); d = static_cast<R>(t); }
        else if (n == "vmread") { auto v = mut_slice_of(s, o.a, o.b); Vec<T> t; for (auto& x : v) { T y(static_cast<const T&>(x)); t.push(static_cast<T&&>(y)); } if (o.d != o.s) d = static_cast<R>(t); else d = static_cast<const Vec<T>&>(t); }
        else if (n == "wassign") { d = cwindow(static_cast<const Vec<T>&>(s), o.a, o.b); }
        else if (n == "rappend") { auto w = window(d, o.a, o.b); w.append(fu_ZERO(), static_cast<const Vec<T>&>(s)); shows(w, d, o.a, right); }
        else if (n == "rsplicecopy") { auto w = window(d, o.a, o.b); w.splice(o.i, o.del, static_cast<const Vec<T>&>(s)); shows(w, d, o.a, right); }
        else if (n == "rassign") { auto w = window(d, o.a, o.b); w = static_cast<const Vec<T>&>(s); shows(w, d, o.a, right); }
        else if (n == "rassignrng") { auto w = window(d, o.a, o.b); auto w2 = cwindow(static_cast<const Vec<T>&>(s), o.i, o.n); w = w2; shows(w, d, o.a, right); }
        else if (n == "rread")  { auto w = cwindow(static_cast<const Vec<T>&>(s), o.a, o.b); Vec<T> t = (Vec<T>) w; d = static_cast<R>(t); }
        else if constexpr (TRIV) {
            if (n == "viewassign") { auto w = mut_slice_of(d, o.a, o.b); fu::view_assign(w, slice_of(static_cast<const Vec<T>&>(s), o.i, o.i + (o.b - o.a))); }
            else if (n == "bytes") {
                auto v = fu::into_view<unsigned char>(slice_of(static_cast<const Vec<T>&>(s), o.a, o.b));
                if (v.size() != (o.b - o.a) * int(sizeof(T))) g_faults++;
                Vec<T> t; t.resize(o.b - o.a);
                auto m = fu::into_view_mut<unsigned char>(t);
                if (v.size()) fu::view_assign(m, v);
                d = static_cast<R>(t);
            }
            else return false;
        }
        else return false;
    }
    else return false;
    return true;
}

// --- cases ----------------------------------------------------------------------

static const char* REPS[] = { "plain", "shared", "wasshared", "reserved", "cut", "frontcut", "both" };

// An array with these contents, built in a particular way. keep holds secret copies.
template <typename T> static Vec<T> make(const std::vector<int>& v, int rep, std::vector<Vec<T>>& keep)
{
    Vec<T> x;
    for (int e : v) { T t = E<T>::mk(e); x.push(static_cast<T&&>(t)); }
    if (rep == 3) x.reserve(x.size() + 9);
    if (rep == 4) { for (int k = 0; k < 5; k++) { T t = E<T>::mk(90 + k); x.push(static_cast<T&&>(t)); } }
    if (rep == 5) { for (int k = 0; k < 4; k++) { T t = E<T>::mk(90 + k); x.unshift(static_cast<T&&>(t)); } }
    if constexpr (Vec<T>::COPIABLE) {
        if (rep == 1 || rep == 4 || rep == 5 || rep == 6) keep.push_back(Vec<T>(static_cast<const Vec<T>&>(x)));
        if (rep == 2) { Vec<T> y(static_cast<const Vec<T>&>(x)); Vec<T> z(static_cast<const Vec<T>&>(y)); }
        if (rep == 6) { Vec<T> y(static_cast<const Vec<T>&>(x)); (void) y; }
    }
    if (rep == 4) x.shrink((int) v.size());
    if (rep == 5) x.shift(4);
    return x;
}

struct Case { Op o; std::vector<int> v[2], want[2]; int line; };

static std::vector<int> ints(const std::string& s) {
    std::vector<int> r; std::istringstream in(s); int x; while (in >> x) r.push_back(x); return r;
}

static long g_evals = 0, g_bad = 0;

static std::string show(const std::vector<int>& v) { std::string r = "["; for (size_t k = 0; k < v.size(); k++) r += (k ? "," : "") + std::to_string(v[k]); return r + "]"; }

static std::set<std::string> g_reported;

template <typename T> static void run_cases(const char* type, const std::vector<Case>& cases, int stride)
{
    const int nreps = Vec<T>::COPIABLE ? 7 : 1;
    for (const Case& c : cases)
    for (int rd = 0; rd < nreps; rd++)
    for (int rs = 0; rs < nreps; rs++) {
        if (stride > 1 && (rd * 7 + rs + c.line) % stride && rd != rs) continue;
        int live0;
        {
            std::vector<Vec<T>> keep, h;
            keep.reserve(8); h.reserve(4);
            h.push_back(make<T>(c.v[0], rd, keep));
            h.push_back(make<T>(c.v[1], rs, keep));
            std::vector<std::vector<int>> kept;
            for (auto& k : keep) kept.push_back(look(k));
            g_faults = 0;
            g_path = int(g_evals + c.line);
            if (!run_op(h, c.o)) continue;
            g_evals++;
            std::string why = g_window;
            auto g0 = look(h[0]), g1 = look(h[1]);
            if (g0 != c.want[0]) why += " first array is " + show(g0) + " and not " + show(c.want[0]) + ";";
            if (g1 != c.want[1]) why += " second array is " + show(g1) + " and not " + show(c.want[1]) + ";";
            for (size_t k = 0; k < keep.size(); k++) if (look(keep[k]) != kept[k]) why += " an earlier copy changed from " + show(kept[k]) + " to " + show(look(keep[k])) + ";";
            // the arrays stay independent afterwards
            if (why.empty() && h[0].size()) {
                h[0].mutref(0) = E<T>::mk(77);
                auto w = c.want[0]; w[0] = 77;
                if (look(h[0]) != w) why += " writing to the first array afterwards gives " + show(look(h[0])) + ";";
                if (look(h[1]) != c.want[1]) why += " writing to the first array afterwards changed the second to " + show(look(h[1])) + ";";
                for (size_t k = 0; k < keep.size(); k++) if (look(keep[k]) != kept[k]) why += " writing to the first array afterwards changed an earlier copy;";
                T t = E<T>::mk(78); h[1].push(static_cast<T&&>(t));
                auto w1 = c.want[1]; w1.push_back(78);
                if (look(h[0]) != w || look(h[1]) != w1) why += " appending to the second array afterwards gives " + show(look(h[0])) + show(look(h[1])) + ";";
                for (size_t k = 0; k < keep.size(); k++) if (look(keep[k]) != kept[k]) why += " appending to the second array afterwards changed an earlier copy;";
            }
            if (g_faults && g_window.empty()) why += " an element was used or released after its release;";
            if (!why.empty()) {
                g_bad++;
                std::string key = std::string(type) + "/" + c.o.op;
                if (g_reported.insert(key).second)
                    printf("BAD %s line=%d reps=%s,%s op=%s i=%d del=%d n=%d a=%d b=%d v=%d on %s %s:%s\n", key.c_str(), c.line, REPS[rd], REPS[rs],
                        c.o.op.c_str(), c.o.i, c.o.del, c.o.n, c.o.a, c.o.b, c.o.v, show(c.v[0]).c_str(), show(c.v[1]).c_str(), why.c_str());
            }
        }
        (void) live0;
        bury();
        if (g_faults) { g_faults = 0; printf("BAD %s/%s release: an element was released twice\n", type, c.o.op.c_str()); g_bad++; }
    }
}

// One element type per executable: -DELEM=k
#if   ELEM == 0
typedef unsigned char ELEM_T; static const char ELEM_NAME[] = "byte"; static const int ELEM_MAX = 24;
#elif ELEM == 1
typedef short ELEM_T; static const char ELEM_NAME[] = "i16"; static const int ELEM_MAX = 16;
#elif ELEM == 2
typedef int ELEM_T; static const char ELEM_NAME[] = "i32"; static const int ELEM_MAX = 10;
#elif ELEM == 3
typedef uint64_t ELEM_T; static const char ELEM_NAME[] = "u64"; static const int ELEM_MAX = 10;
#elif ELEM == 4
typedef S12 ELEM_T; static const char ELEM_NAME[] = "struct12"; static const int ELEM_MAX = 10;
#elif ELEM == 5
typedef S24 ELEM_T; static const char ELEM_NAME[] = "struct24"; static const int ELEM_MAX = 8;
#elif ELEM == 6
typedef MovT ELEM_T; static const char ELEM_NAME[] = "nocopy_trivial"; static const int ELEM_MAX = 8;
#elif ELEM == 7
typedef Trk ELEM_T; static const char ELEM_NAME[] = "object"; static const int ELEM_MAX = 10;
#elif ELEM == 8
typedef Mov ELEM_T; static const char ELEM_NAME[] = "nocopy_object"; static const int ELEM_MAX = 10;
#else
typedef VI ELEM_T; static const char ELEM_NAME[] = "nested"; static const int ELEM_MAX = 10;
#endif

static int cases_main(int argc, char** argv)
{
    std::vector<Case> cs;
    std::string line;
    int ln = 0;
    while (std::getline(std::cin, line)) {
        ln++;
        std::vector<std::string> f; std::string cur;
        for (char ch : line) { if (ch == '|') { f.push_back(cur); cur.clear(); } else cur += ch; }
        f.push_back(cur);
        if (f.size() != 5) { fprintf(stderr, "bad case: %s\n", line.c_str()); return 3; }
        Case c; c.line = ln;
        std::istringstream in(f[0]);
        in >> c.o.op >> c.o.d >> c.o.s >> c.o.i >> c.o.del >> c.o.n >> c.o.a >> c.o.b >> c.o.v;
        c.v[0] = ints(f[1]); c.v[1] = ints(f[2]); c.want[0] = ints(f[3]); c.want[1] = ints(f[4]);
        cs.push_back(c);
    }
    int stride = argc > 2 ? atoi(argv[2]) : 1;
    run_cases<ELEM_T>(ELEM_NAME, cs, stride);
    bury();
    printf("EVALS %ld BAD %ld\n", g_evals, g_bad);
    return 0;
}

// --- random histories -------------------------------------------------------------

static uint64_t g_rng;
static uint32_t rnd(uint32_t n) { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return n ? uint32_t((g_rng >> 11) % n) : 0; }
static int upto(int n) { // 0..n, ends more likely
    uint32_t k = rnd(6);
    if (k == 0) return 0;
    if (k == 1) return n;
    return int(rnd(uint32_t(n) + 1));
}

static FILE* g_out = stdout;

template <typename T> static void dump(const Op& o, std::vector<Vec<T>>& h, const std::vector<std::string>& ev, int faults)
{
    fprintf(g_out, "{\"op\":\"%s\",\"d\":%d,\"s\":%d,\"i\":%d,\"del\":%d,\"n\":%d,\"a\":%d,\"b\":%d,\"v\":%d,\"f\":%d,\"vals\":[", o.op.c_str(), o.d + 1, o.s + 1, o.i, o.del, o.n, o.a, o.b, o.v, faults);
    for (size_t k = 0; k < h.size(); k++) {
        fprintf(g_out, k ? ",[" : "[");
        auto x = look(h[k]);
        for (size_t j = 0; j < x.size(); j++) fprintf(g_out, j ? ",%d" : "%d", x[j]);
        fprintf(g_out, "]");
    }
    fprintf(g_out, "],\"ids\":[");
    for (size_t k = 0; k < h.size(); k++) {
        fprintf(g_out, k ? ",[" : "[");
        bool first = true;
        const Vec<T>& c = h[k];
        for (int j = 0; j < c.size(); j++) { int id = E<T>::id(c[j]); if (id) { fprintf(g_out, first ? "%d" : ",%d", id); first = false; } }
        fprintf(g_out, "]");
    }
    // the block a non-empty array lives in, 0 when it has none of its own
    fprintf(g_out, "],\"blk\":[");
    for (size_t k = 0; k < h.size(); k++) {
        const Vec<T>& c = h[k];
        const char* p = (const char*) c.data();
        int id = 0;
        g_in_hook = true;
        if (!(p >= (const char*) &h[k] && p <= (const char*)(&h[k] + 1)) && p) {
            auto it = g_block.upper_bound((void*) p);
            if (it != g_block.begin()) { --it; if (p - (const char*) it->first <= 64) id = it->second; else id = -1; }
            else id = -1;
        }
        g_in_hook = false;
        fprintf(g_out, k ? ",%d" : "%d", id);
    }
    fprintf(g_out, "],\"ev\":[");
    for (size_t k = 0; k < ev.size(); k++) fprintf(g_out, "%s%s", k ? "," : "", ev[k].c_str());
    fprintf(g_out, "]}\n");
}

template <typename T> static void run_random(uint64_t seed, int steps, const std::vector<std::string>& ops, int maxlen, int nh)
{
    g_rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (int k = 0; k < 8; k++) rnd(2);
    {
        std::vector<Vec<T>> h(static_cast<size_t>(nh));
        int epoch = 0;
        for (int step = 0; step < steps; step++) {
            if (++epoch == 400) { epoch = 0; }
            Op o;
            for (;;) {
                o.op = ops[rnd(uint32_t(ops.size()))];
                o.d = int(rnd(uint32_t(nh))); o.s = int(rnd(uint32_t(nh)));
                int ld = h[size_t(o.d)].size(), ls = h[size_t(o.s)].size();
                o.i = o.del = o.n = o.a = o.b = 0; o.v = int(1 + rnd(60));
                const std::string& n = o.op;
                bool rg = n[0] == 'r' && n != "reserve" && n != "resize";
                auto two = [&](const char* x) { return n == x; };
                bool needS = two("copy") || two("move") || two("swap") || two("append") || two("appendsub") || two("appendrng") || two("appendmove") || two("splicemove")
                    || two("splicecopy") || two("splicesub") || two("slice_cp") || two("cat") || two("catview") || two("catmove") || two("prepend") || two("catone") || two("onecat")
                    || two("selfpush") || two("catv") || two("catmv") || two("catvm") || two("catvv") || two("catvone") || two("onecatv") || two("addto") || two("addv") || two("raddto")
                    || two("vread") || two("vmread") || two("wassign") || two("bytes") || two("moddef") || two("swapthrough") || two("viewassign")
                    || two("rsplicemove") || two("rappendmove") || two("rassignmove") || two("rswap") || two("rrswap") || two("rappend") || two("rsplicecopy") || two("rassign") || two("rassignrng") || two("rread");
                if (!needS) o.s = o.d;
                bool selfok = two("append") || two("appendsub") || two("appendrng") || two("splicecopy") || two("splicesub") || two("slice_cp") || two("cat") || two("catview")
                    || two("catv") || two("catvv") || two("catvone") || two("onecatv") || two("addv") || two("addto") || two("vread") || two("bytes")
                    || two("catone") || two("onecat") || two("selfpush") || two("swap") || two("rread") || two("rappend") || two("rsplicecopy");
                if (needS && !selfok && o.d == o.s) continue;
                ls = h[size_t(o.s)].size();
                int w = 0;   // window length
                if (rg && n != "rread") { o.a = upto(ld); o.b = o.a + upto(ld - o.a); w = o.b - o.a; }
                if (two("insert")) o.i = upto(ld);
                else if (two("set")) { if (!ld) continue; o.i = upto(ld - 1); }
                else if (two("swapelem")) { if (!ld) continue; o.a = upto(ld - 1); o.b = upto(ld - 1); }
                else if (two("pop") || two("shift1")) { if (!ld) continue; }
                else if (two("shift")) o.n = upto(ld);
                else if (two("shift_pop")) { o.a = upto(ld); o.b = upto(ld - o.a); }
                else if (two("splice") || two("splicecopy") || two("splicemove")) { o.i = upto(ld); o.del = upto(ld - o.i); }
                else if (two("splice_empty")) { o.i = upto(ld); o.del = upto(ld - o.i); o.n = upto(6); }
                else if (two("splicesub")) { o.i = upto(ld); o.del = upto(ld - o.i); o.a = upto(ls); o.b = o.a + upto(ls - o.a); }
                else if (two("resize")) o.n = upto(maxlen);
                else if (two("grow")) o.n = ld + upto(5);
                else if (two("shrink")) o.n = upto(ld);
                else if (two("reserve")) o.n = upto(maxlen + 8);
                else if (two("append") || two("appendmove")) o.del = rnd(3) ? 0 : upto(ld);
                else if (two("appendsub") || two("appendrng")) { o.del = rnd(3) ? 0 : upto(ld); o.a = upto(ls); o.b = o.a + upto(ls - o.a); }
                else if (two("slice_mv")) { o.a = upto(ld); o.b = o.a + upto(ld - o.a); }
                else if (two("slice_cp") || two("rread")) { o.a = upto(ls); o.b = o.a + upto(ls - o.a); }
                else if (two("catv") || two("catmv") || two("catvm") || two("catvone") || two("onecatv") || two("addv") || two("vread") || two("vmread") || two("wassign") || two("bytes")) { o.a = upto(ls); o.b = o.a + upto(ls - o.a); }
                else if (two("catvv")) { o.a = upto(ld); o.b = o.a + upto(ld - o.a); o.i = upto(ls); o.n = o.i + upto(ls - o.i); }
                else if (two("literal")) { static const int N[] = { 1, 2, 5 }; o.n = N[rnd(3)]; }
                else if (two("catview")) { o.a = upto(ld); o.b = o.a + upto(ld - o.a); }
                else if (two("selfpush")) { if (!ls) continue; o.i = upto(ls - 1); }
                else if (two("viewassign")) { o.a = upto(ld); o.b = o.a + upto(ld - o.a); if (o.b - o.a > ls) continue; o.i = upto(ls - (o.b - o.a)); }
                else if (two("viewset")) { o.a = upto(ld); o.b = o.a + upto(ld - o.a); if (o.b == o.a) continue; o.i = upto(o.b - o.a - 1); }
                else if (two("rset")) { if (!w) continue; o.i = upto(w - 1); }
                else if (two("rinsert")) o.i = upto(w);
                else if (two("rresize")) o.n = upto(w + 4);
                else if (two("rgrow")) o.n = w + upto(4);
                else if (two("rshrink")) o.n = upto(w);
                else if (two("rpop")) { if (!w) continue; }
                else if (two("rsplice") || two("rsplicemove") || two("rsplicecopy")) { if (!w) continue; o.i = upto(w - 1); o.del = upto(w - o.i); }
                else if (two("rrswap") || two("rassignrng")) { o.i = upto(ls); o.n = o.i + upto(ls - o.i); }
                // keep the arrays short enough
                int grow = ld + ls + 8;
                if (grow > 2 * maxlen && (n.find("append") != std::string::npos || n.find("cat") != std::string::npos || n.find("splicecopy") != std::string::npos || n.find("add") != std::string::npos || n == "prepend")) continue;
                if (ld >= maxlen && (two("push") || two("unshift") || two("insert") || two("grow") || two("splice_empty") || two("selfpush"))) { if (rnd(2)) continue; o = Op { "clear", o.d, o.d, 0, 0, 0, 0, 0, 0 }; }
                break;
            }
            g_ev.clear();
            g_faults = 0;
            g_record = true;
            g_path = int(rnd(5));
            bool ok = run_op(h, o);
            g_record = false;
            if (!ok) { step--; continue; }
            std::vector<std::string> ev = g_ev;
            dump(o, h, ev, g_faults);
        }
        // and the end of all of them
        for (int k = 0; k < nh; k++) {
            Op o = Op { "drop", k, k, 0, 0, 0, 0, 0, 0 };
            g_ev.clear(); g_faults = 0; g_record = true;
            run_op(h, o);
            g_record = false;
            std::vector<std::string> ev = g_ev;
            dump(o, h, ev, g_faults);
        }
        g_record = true; g_ev.clear();
    }
    g_record = false;
}

static const std::vector<std::string> WHOLE = { "move", "swap", "drop", "push", "push", "push", "unshift", "insert", "insert", "set", "set", "setall", "swapelem", "pop", "shift1", "shift", "shift_pop",
    "splice", "splice_empty", "resize", "grow", "shrink", "clear", "reserve", "unique", "slice_mv", "appendmove", "splicemove", "catmove", "moddef", "swapthrough",
    "copy", "copy", "copy", "selfpush", "append", "append", "appendsub", "appendrng", "splicecopy", "splicesub", "slice_cp", "cat", "catview", "prepend", "catone", "onecat", "catv", "catmv", "catvm", "catvv", "catvone", "onecatv", "addto", "addone", "addv", "wassign", "literal", "bytes" };
static const std::vector<std::string> RANGE = { "push", "push", "copy", "copy", "insert", "viewset", "rset", "rset", "rpush", "rpush2", "runshift", "rinsert", "rresize", "rgrow", "rshrink", "rclear", "rpop", "rsplice", "rsplicemove", "rappendmove",
    "rassignmove", "rswap", "rrswap", "rrswap", "rmove", "rappend", "rsplicecopy", "rassign", "rassignrng", "rread", "viewassign", "reserve", "swap", "raddto", "raddone", "vread", "vmread", "wassign", "addv", "nilread", "bytes" };

int main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "cases") return cases_main(argc, argv);
    if (mode != "random" || argc < 7) return 3;
    g_out = fopen(argv[6], "w");
    if (!g_out) return 3;
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    int steps = atoi(argv[4]);
    const auto& ops = std::string(argv[5]) == "range" ? RANGE : WHOLE;
    run_random<ELEM_T>(seed, steps, ops, ELEM_MAX, 4);
    bury();
    fclose(g_out);
    return 0;
}
