// Threads that hold arrays made of the same memory, each changing its own, under chosen schedules.
// usage: arr OUT < SCENARIOS
// a scenario: id seed runs bounded keep threads ops shared length
#include "rt.hpp"
#include "mon.hpp"
#define std vfstd
#include <fu/int.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/default.h>
#include <fu/mem/arc.cpp>
#include <fu/mem/memswap.cpp>
#undef std

// an element: reads, writes and its end of life are recorded
static int living = 0;
struct El {
    static constexpr int ALIVE = 0x5EED1234, GONE = 0x0DEAD999;
    int v, cell, magic;
    void check() const { if (magic != ALIVE) { vf::sh->gone = true; vf::put(vf::DEAD); } }
    explicit El(int v = 0) : v(v), cell(vf::cell()), magic(ALIVE) { living++; vf::wr(cell); }
    El(const El& o) : cell(vf::cell()), magic(ALIVE) { living++; o.check(); vf::rd(o.cell); v = o.v; vf::wr(cell); }
    El(El&& o) : cell(vf::cell()), magic(ALIVE) { living++; o.check(); vf::rd(o.cell); v = o.v; vf::wr(cell); }
    El& operator=(const El& o) { check(); o.check(); vf::rd(o.cell); vf::wr(cell); v = o.v; return *this; }
    ~El() { check(); vf::wr(cell); magic = GONE; living--; }
    int get() const { check(); vf::rd(cell); return v; }
    void set(int x) { check(); vf::wr(cell); v = x; }
};

typedef fu::vec<El> Arr;
enum { SET = 1, PUSH_, POP_, COPY, DROP, SPLICE, CAT, MOVE, UNIQUE, CLEAR, SHOW_ };
static int finished = 0;

// the contents, as digits of base 16: at most 10 elements of 1..15
static void show(const Arr& a, int op, int d, int s, int p, int q)
{
    int x = 0, y = 0;
    for (int k = a.size(); k --> 0; ) { int& w = k < 5 ? x : y; w = w * 16 + a[k].get(); }
    // t is the thread; a: operation, r: d * 16 + s, x and y: contents, z: operands
    vf::put(vf::ARR, op, d * 16 + s, x, y, p * 16 + q);
}

static void thread(std::vector<Arr> own, int ops)
{
    const int n = (int) own.size();
    for (int i = 0; i < n; i++) show(own[i], SHOW_, i, 0, 0, 0);
    for (int k = 0; k < ops; k++) {
        const int d = (int) (vf::rnd() % n), s = (int) (vf::rnd() % n), val = 1 + (int) (vf::rnd() % 15);
        Arr& a = own[d];
        const int sz = a.size(), at = sz ? (int) (vf::rnd() % sz) : 0;
        switch (vf::rnd() % 11) {
            case 0: case 1: case 2: if (sz) { a.mutref(at).set(val); show(a, SET, d, 0, at, val); } break;
            case 3: if (sz < 8) { a.push(El(val)); show(a, PUSH_, d, 0, 0, val); } break;
            case 4: if (sz) { a.pop(); show(a, POP_, d, 0, 0, 0); } break;
            case 5: if (d != s) { a = static_cast<const Arr&>(own[s]); show(a, COPY, d, s, 0, 0); } break;
            case 6: { a = Arr(); show(a, DROP, d, 0, 0, 0); } break;
            case 7: if (sz) { a.splice(at, 1); show(a, SPLICE, d, 0, at, 0); } break;
            case 8: if (d != s && sz + own[s].size() < 9) { a += static_cast<const Arr&>(own[s]); show(a, CAT, d, s, 0, 0); } break;
            case 9: if (d != s) { a = static_cast<Arr&&>(own[s]); own[s] = Arr(); show(a, MOVE, d, s, 0, 0); show(own[s], SHOW_, s, 0, 0, 0); } break;
            case 10: { a.reserve(); show(a, UNIQUE, d, 0, 0, 0); } break;
        }
    }
    own.clear();
    finished++;
    vf::put(vf::DONE);
}

int main(int argc, char** argv)
{
    FILE* out = fopen(argv[1], "w");
    std::string id;
    int threads, bounded, runs, keep, ops, shared, length;
    uint64_t seed;
    while (std::cin >> id >> seed >> runs >> bounded >> keep >> threads >> ops >> shared >> length) {
        vf::Explorer x { out, id, runs, keep, (int) vf::fibers.size() + threads, bounded, seed, {}, {} };
        x.over = [&] {
            if (finished != threads) return false;
            if (living) vf::put(vf::FATE, 4);      // elements that nobody can get at any more
            return true;
        };
        x.body = [&] {
            std::vector<Arr> made;
            for (int k = 0; k < shared; k++) {
                Arr a;
                for (int j = 0; j < length; j++) a.push(El(1 + (k * length + j) % 15));
                made.push_back(a);
            }
            for (int m = 0; m < threads; m++) {
                std::vector<Arr>* own = new std::vector<Arr>(made);
                vf::spawn([=] { std::vector<Arr> mine; mine.swap(*own); delete own; thread(std::move(mine), ops); });
            }
            made.clear();
            vf::me->done = true;
            vf::step();
        };
        x.all();
        printf("%s runs %ld odd %ld crashed %ld different %zu\n", id.c_str(), x.done, x.odd, x.died, x.seen.size());
        fflush(stdout);
    }
    fclose(out);
    _exit(0);
}
