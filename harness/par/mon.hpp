// A quick look at a recorded run, to tell which ones to show to the specification first. The verdict is the specification's.
#pragma once
#include "rt.hpp"
namespace vf {
inline const char* names[] = { "load", "store", "rmw", "lock", "unlock", "fence", "spawn", "rd", "wr", "call", "begin", "end", "ret", "push", "pop", "done", "dead", "fate", "arr" };
typedef std::vector<int> VC;
inline void join(VC& a, const VC& b) { for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
inline bool odd_looking(int threads)
{
    if (sh->fate != FINE) return true;
    VC zero(threads, 0);
    std::vector<VC> C(threads, zero), A(threads, zero), F(threads, zero);
    for (int i = 0; i < threads; i++) C[i][i] = 1;
    std::map<int, VC> L, W, R;
    struct Call { int n, min; std::vector<std::pair<int, int>> b; int covered = 0, open = 0; };
    std::map<int, Call> calls;
    auto of = [&](std::map<int, VC>& m, int x) -> VC& { return m.try_emplace(x, zero).first->second; };
    for (int i = 0; i < sh->n; i++) {
        Event e = sh->ev[i];
        VC& c = C[e.t];
        switch (e.k) {
            case LOAD: join(e.a ? c : A[e.t], of(L, e.x)); break;
            case STORE: L[e.x] = e.r ? c : F[e.t]; if (e.r) c[e.t]++; break;
            case RMW: join(e.a ? c : A[e.t], of(L, e.x)); join(of(L, e.x), e.r ? c : F[e.t]); if (e.r) c[e.t]++; break;
            case LOCK: join(c, of(L, e.x)); break;
            case UNLOCK: join(of(L, e.x), c); c[e.t]++; break;
            case FENCE: if (e.a) join(c, A[e.t]); if (e.r) { F[e.t] = c; c[e.t]++; } break;
            case SPAWN: join(C[e.x], c); c[e.t]++; break;
            case RD: { VC& w = of(W, e.x); for (int u = 0; u < threads; u++) if (w[u] > c[u]) return true; of(R, e.x)[e.t] = c[e.t]; break; }
            case WR: { VC &w = of(W, e.x), &r = of(R, e.x); for (int u = 0; u < threads; u++) if (w[u] > c[u] || r[u] > c[u]) return true; w = zero; w[e.t] = c[e.t]; break; }
            case CALL: calls[e.x].n = e.y; calls[e.x].min = e.z; break;
            case BEGIN: {
                auto q = calls.find(e.x);
                if (q == calls.end() || e.y > e.z || e.z > q->second.n || e.y < 0 || e.z - e.y < std::min(q->second.n, q->second.min)) return true;
                for (auto& b : q->second.b) if (std::max(b.first, e.y) < std::min(b.second, e.z)) return true;
                q->second.b.push_back({ e.y, e.z }); q->second.covered += e.z - e.y; q->second.open++;
                break;
            }
            case END: calls[e.x].open--; break;
            case RET: if (calls[e.x].open || calls[e.x].covered != calls[e.x].n) return true; calls.erase(e.x); break;
            case DEAD: case FATE: return true;
            default: break;
        }
    }
    return false;
}
inline void dump(FILE* f, const char* id, int threads)
{
    fprintf(f, "{\"id\":\"%s\",\"n\":%d,\"ev\":[", id, threads);
    for (int i = 0; i < sh->n; i++) {
        Event e = sh->ev[i];
        fprintf(f, "%s{\"t\":%d,\"k\":\"%s\",\"a\":%d,\"r\":%d,\"x\":%d,\"y\":%d,\"z\":%d}", i ? "," : "", e.t + 1, names[e.k], e.a, e.r, e.k == SPAWN ? e.x + 1 : e.x, e.y, e.z);
    }
    fprintf(f, "]}\n");
}
inline uint64_t hash_run() { uint64_t h = 1469598103934665603ull; const char* p = (const char*) sh->ev; for (size_t i = 0; i < sh->n * sizeof(Event); i++) h = (h ^ (uint8_t) p[i]) * 1099511628211ull; return h; }

// runs body in a child under every plan, and keeps some of the recordings
struct Explorer {
    FILE* out;
    std::string id;
    int runs, keep, threads, bounded;
    uint64_t base;
    std::function<void()> body;       // in the child: begin_run is done
    std::function<bool()> over, also; // the run is complete; the run looks odd
    // what came of it
    long done = 0, odd = 0, died = 0;
    std::set<uint64_t> seen;

    void one(uint64_t s, const Plan& p, bool want)
    {
        fflush(out);
        sh->n = 0;
        pid_t pid = fork();
        if (!pid) {
            alarm(20);
            begin_run(s, p, over);
            body();
            finish(FINE);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        done++;
        bool crash = !WIFEXITED(st) || WEXITSTATUS(st);
        bool bad = crash || odd_looking(threads) || also && also();
        bool fresh = seen.insert(hash_run()).second;
        std::string name = id + "/" + std::to_string(s) + "/" + std::to_string(p.mode);
        if (p.mode == 2) for (auto& q : p.sw) name += "/" + std::to_string(q.first) + ">" + std::to_string(q.second);
        if (crash) {
            if (died++ < 3) {
                sh->ev[sh->n++] = Event { 0, FATE, 9, 0, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WEXITSTATUS(st), 0 };
                dump(out, name.c_str(), threads);
            }
        } else if (bad) {
            if (odd++ < 3) dump(out, name.c_str(), threads);
        } else if (want && fresh) dump(out, name.c_str(), threads);
    }
    void all()
    {
        std::mt19937_64 r(base);
        int every = std::max(1, runs / std::max(1, keep));
        for (int i = 0; i < runs; i++) {
            Plan p;
            p.mode = std::vector<int> { 0, 1, 3, 3 }[i % 4];
            p.per1000 = std::vector<int> { 600, 250, 80, 20 }[r() % 4];
            p.changes = 1 + r() % 4;
            p.length = 20 << r() % 5;
            p.spurious = r() % 3 ? 0 : 60;
            one(base + i, p, i % every == 0);
        }
        if (!bounded) return;
        Plan p;
        p.mode = 2;
        one(base, p, true);
        long len = std::min(sh->steps, 400l);
        int total = 0;
        for (long s = 1; s <= len; s++)
            for (int to = 0; to < threads; to++, total++) { p.sw = { { (int) s, to } }; one(base, p, total % 97 == 0); }
        for (int i = 0; i < bounded; i++) {
            int k = 2 + r() % 2;
            p.sw.clear();
            for (int j = 0; j < k; j++) p.sw.push_back({ (int) (1 + r() % (len + 20)), (int) (r() % threads) });
            one(base, p, i % 97 == 0);
        }
    }
};
} // namespace vf
