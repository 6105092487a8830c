/* Histories of several diagram managers, each in a thread of its own (C35). usage: threads seed steps threads rounds; with ALONE=1 the same histories one after another */
#define DD_THREADS
#include "ddsys.h"
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include <unistd.h>
int arith_run(int, char **); int bddops_run(int, char **); int ddhist_run(int, char **); int dddmpio_run(int, char **);
static const struct { const char *name; int (*run)(int, char **); int per; } TOOL[] = {{"arith", arith_run, 100}, {"bddops", bddops_run, 100}, {"ddhist", ddhist_run, 60}, {"dddmpio", dddmpio_run, 4}};
static std::mutex lock;
static std::map<std::string, long> total;
static bool alone;
static std::atomic<int> ready, running, most, target;
void ddThreadDone(const std::map<std::string, long> &c) {
    std::lock_guard<std::mutex> g(lock);
    for (auto &x : c) if (x.first.compare(0, 3, "op ")) total[x.first] += x.second; else total["different kinds of operations, summed over the histories"]++;
}
static void one(int tool, unsigned long long seed, long steps, int id) {
    std::string a[] = {TOOL[tool].name, std::to_string(seed), std::to_string(std::max(1L, steps * TOOL[tool].per / 100)), "", "t" + std::to_string(id)};
    char *argv[6] = {}; for (int i = 0; i < 5; i++) argv[i] = &a[i][0];
    ready++;
    while (!alone && ready < target) std::this_thread::yield();
    int now = ++running, m = most; while (now > m && !most.compare_exchange_weak(m, now)) ;
    bool ended = false;
    try { TOOL[tool].run(tool == 3 ? 5 : 3, argv); } catch (DDDone &) { ended = true; }
    running--;
    std::lock_guard<std::mutex> g(lock);
    if (!ended) { printf("VIOL %s|the history has no end\n", TOOL[tool].name); fflush(NULL); _exit(10); }
    total[std::string("histories of ") + TOOL[tool].name]++;
}
int main(int, char **argv) {
    unsigned long long s = strtoull(argv[1], NULL, 10) * 1000003ULL + 12345;
    long steps = atol(argv[2]);
    int n = atoi(argv[3]), rounds = atoi(argv[4]);
    alone = getenv("ALONE") != NULL;
    setvbuf(stdout, NULL, _IONBF, 0);
    for (int r = 0; r < rounds; r++) {
        std::vector<std::thread> t;
        ready = 0; target = n;
        for (int i = 0; i < n; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; t.emplace_back(one, (int)((s >> 33) % 4), (s >> 20) % 1000000007ULL, steps, i); if (alone) t.back().join(); }
        for (auto &x : t) if (x.joinable()) x.join();
    }
    for (auto &c : total) printf("COUNT %s %ld\n", c.first.c_str(), c.second);
    printf("COUNT most histories at the same time %d\n", (int)most);
    fflush(NULL);
    _Exit(0);
}
