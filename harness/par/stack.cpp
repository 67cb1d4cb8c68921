// Runs the lock-free stack under chosen schedules and records what happens.
// usage: stack OUT < SCENARIOS
// a scenario: id seed runs bounded keep threads ops nodes(each) align
#include "rt.hpp"
#include "mon.hpp"
#define std vfstd
#include <lockfree/stack.hpp>
#undef std

struct Node { char* next; char rest[120]; };
static Node arena[16] __attribute__((aligned(128)));
static lockfree::stack<3> three;
static lockfree::stack<4> four;
static int finished = 0, ops_begun = 0, cells[16];

static bool linear()
{
    struct Op { int call, ret; bool push; int y; };
    std::vector<Op> ops;
    std::map<int, int> at;
    for (int i = 0; i < vf::sh->n; i++) {
        vf::Event e = vf::sh->ev[i];
        if (e.k != vf::PUSH && e.k != vf::POP) continue;
        if (!e.a) { at[e.x] = (int) ops.size(); ops.push_back({ i, INT_MAX, e.k == vf::PUSH, e.y }); }
        else { Op& o = ops[at[e.x]]; o.ret = i; if (!o.push) o.y = e.y; }
    }
    std::set<std::pair<uint64_t, std::string>> failed;
    std::function<bool(uint64_t, std::string)> go = [&](uint64_t mask, std::string st) {
        int first = INT_MAX;   // whatever begins after this cannot be next
        for (size_t k = 0; k < ops.size(); k++) if (!(mask >> k & 1)) first = std::min(first, ops[k].ret);
        if (first == INT_MAX) return true;
        if (failed.count({ mask, st })) return false;
        for (size_t k = 0; k < ops.size(); k++) {
            const Op& o = ops[k];
            if (mask >> k & 1 || o.call > first) continue;
            std::string s = st;
            if (o.push) for (int y = o.y, j = 0; y; y /= 16) s.insert(s.begin() + j++, char(y % 16));
            else if (o.y == 0 ? !s.empty() : s.empty() || s[0] != o.y) continue;
            else if (o.y) s.erase(0, 1);
            if (go(mask | 1ull << k, s)) return true;
        }
        failed.insert({ mask, st });
        return false;
    };
    return go(0, "");
}

template <class S> static void thread(S& st, int ops, std::vector<int> own)
{
    for (int k = 0; k < ops; k++) {
        const int x = ++ops_begun;
        if (own.size() && vf::rnd() % 2) {
            const int len = 1 + (int) (vf::rnd() % std::min<size_t>(3, own.size()));
            int y = 0;
            std::vector<int> seg;
            for (int j = 0; j < len; j++) {
                int p = (int) (vf::rnd() % own.size());
                seg.push_back(own[p]);
                own.erase(own.begin() + p);
            }
            for (int j = len; j --> 0; ) {
                y = y * 16 + seg[j] + 1;
                vf::wr(cells[seg[j]]);
                arena[seg[j]].next = j + 1 < len ? (char*) &arena[seg[j + 1]] : (char*) (0xF5F5F5F5F5F5F5F1ull ^ vf::rnd());
            }
            vf::put(vf::PUSH, 0, 0, x, y);
            st.push((char*) &arena[seg[0]], (char*) &arena[seg[len - 1]]);
            vf::put(vf::PUSH, 1, 0, x, y);
        } else {
            vf::put(vf::POP, 0, 0, x);
            char* p = st.try_pop();
            int id = p ? (int) ((Node*) p - arena) : -1;
            if (p && (id < 0 || id >= 16 || p != (char*) &arena[id])) id = 14;
            vf::put(vf::POP, 1, 0, x, id + 1);
            if (p) {
                if (id == 14) break;
                vf::rd(cells[id]);
                vf::wr(cells[id]);
                if (vf::rnd() % 2) arena[id].next = vf::rnd() % 2 ? (char*) &arena[vf::rnd() % 12] : (char*) (0xF5F5F5F5F5F5F5F1ull ^ vf::rnd());
                own.push_back(id);
            }
        }
    }
    finished++;
    vf::put(vf::DONE);
}

int main(int argc, char** argv)
{
    FILE* out = fopen(argv[1], "w");
    std::string id;
    int threads, bounded, runs, keep, ops, nodes, align;
    uint64_t seed;
    while (std::cin >> id >> seed >> runs >> bounded >> keep >> threads >> ops >> nodes >> align) {
        vf::Explorer x { out, id, runs, keep, (int) vf::fibers.size() + threads, bounded, seed, {}, {} };
        x.over = [&] { return finished == threads; };
        x.also = [] { return !linear(); };
        x.body = [&] {
            for (int& c : cells) c = vf::cell();
            for (int m = 0; m < threads; m++) {
                std::vector<int> own;
                for (int k = 0; k < nodes; k++) own.push_back(m * nodes + k);
                vf::spawn([=] { align == 3 ? thread(three, ops, own) : thread(four, ops, own); });
            }
            vf::me->done = true;
            vf::step();
        };
        x.all();
        printf("%s runs %ld odd %ld crashed %ld different %zu\n", id.c_str(), x.done, x.odd, x.died, x.seen.size());
        fflush(stdout);
    }
    fclose(out);
    return 0;
}
