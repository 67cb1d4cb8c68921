// Runs parallel_for under chosen schedules and records what happens.
// usage: fu_NUM_WORKER_THREADS=W par OUT < SCENARIOS
// a scenario: id seed runs bounded keep masters { loops { n min kind n2 min2 at } }
#include "rt.hpp"
#include "mon.hpp"
#define std vfstd
#define pthread_create vf_pthread_create
#include <par/parfor.cpp>
#undef std
#undef pthread_create

struct Loop { int n, min, kind, n2, min2, at; };
static int calls = 0, finished = 0;

__attribute__((noinline)) static void scribble()
{
    volatile uint64_t* p = (volatile uint64_t*) alloca(6000);
    uint64_t x = vf::rnd() % 3 ? 0xF1F2F3F4F5F6F7F1ull + vf::rnd() % 1000 : vf::rnd();
    for (int i = 0; i < 750; i++) p[i] = x;
}

__attribute__((noinline)) static void loop(const Loop& l, int depth)
{
    const int c = ++calls;
    const bool fine = l.n <= 12;      // look at every element
    const int frame = vf::cell();
    std::vector<int> in(fine ? l.n : 0), out(in.size());
    for (size_t i = 0; i < in.size(); i++) { in[i] = vf::cell(); out[i] = vf::cell(); vf::wr(in[i]); }
    vf::wr(frame);
    vf::put(vf::CALL, 0, 0, c, l.n, l.min);
    fu::parallel_for((size_t) l.n, (size_t) l.min, [&](size_t s, size_t e) {
        vf::put(vf::BEGIN, 0, 0, c, s, e);
        vf::rd(frame);
        for (size_t i = s; i < e && i < out.size(); i++) {
            vf::rd(in[i]);
            if (l.kind == 1 && depth == 0 && (int) i % 2 == l.at % 2) loop(Loop { l.n2, l.min2, 0, 0, 0, 0 }, 1);
            if (l.kind == 2 && (int) i == l.at && depth < 2) loop(Loop { l.n2, l.min2, depth ? 0 : 2, 2, 1, 0 }, depth + 1);
            vf::wr(out[i]);
        }
        if (!fine) vf::step();
        vf::rd(frame);
        vf::put(vf::END, 0, 0, c, s, e);
    });
    vf::put(vf::RET, 0, 0, c);
    for (size_t i = 0; i < out.size(); i++) { vf::rd(out[i]); vf::wr(in[i]); }
    vf::wr(frame);
}

__attribute__((noinline)) static void padded(size_t pad, const Loop& l)
{
    volatile char* p = (volatile char*) alloca(pad + 16);
    p[0] = 1;
    loop(l, 0);
}

int main(int argc, char** argv)
{
    FILE* out = fopen(argv[1], "w");
    std::string id;
    int masters, bounded, runs, keep;
    uint64_t seed;
    while (std::cin >> id >> seed >> runs >> bounded >> keep >> masters) {
        std::vector<std::vector<Loop>> todo(masters);
        for (auto& m : todo) {
            int k;
            std::cin >> k;
            m.resize(k);
            for (Loop& l : m) std::cin >> l.n >> l.min >> l.kind >> l.n2 >> l.min2 >> l.at;
        }
        vf::Explorer x { out, id, runs, keep, (int) vf::fibers.size() + masters, bounded, seed, {}, {} };
        x.over = [&] { return finished == masters; };
        x.body = [&] {
            auto run = [&](int m) {
                const size_t pad = vf::rnd() % 2 ? 0 : vf::rnd() % 99 * 16;
                for (const Loop& l : todo[m]) { padded(pad, l); scribble(); }
                finished++;
                vf::put(vf::DONE);
            };
            for (size_t f = 1; f < vf::fibers.size(); f++) vf::put(vf::SPAWN, 0, 0, (int) f);
            for (int m = 0; m < masters; m++) vf::spawn([=] { run(m); });
            vf::me->done = true;
            vf::step();
        };
        x.all();
        printf("%s runs %ld odd %ld crashed %ld different %zu\n", id.c_str(), x.done, x.odd, x.died, x.seen.size());
        fflush(stdout);
    }
    fclose(out);
    return 0;
}
