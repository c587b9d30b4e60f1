// X01: threads working on different documents. Built with ThreadSanitizer. Each case forks a child that runs its jobs in
// threads at once (so that also the first use of everything happens in threads) and another one that runs the same jobs
// one after another; a race is a sanitizer report, and the results must be the same.
#include "jobs.h"
struct Seen { std::atomic<uint64_t> pairs, overlapped, orders; }; static Seen* seen; // what the schedules were, kept outside the processes
static uint64_t now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static std::string exec(std::vector<Job>& J, bool parallel) {
    for (auto& j : J) j.prepare();
    if (parallel) {
        std::atomic<int> ready{0}; std::vector<std::thread> T; int n = J.size();
        for (auto& j : J) T.emplace_back([&ready, n, &j] { ready++; while (ready < n) std::this_thread::yield(); j.t0 = now(); j.run(); j.t1 = now(); });
        for (auto& t : T) t.join();
        for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { seen->pairs++; seen->overlapped += J[a].t0 < J[b].t1 && J[b].t0 < J[a].t1; }
        std::vector<int> q(n); for (int a = 0; a < n; a++) q[a] = a; std::sort(q.begin(), q.end(), [&](int a, int b) { return J[a].t1 < J[b].t1; }); std::string o = "order"; for (int a : q) o += fmt(" %d:%s", a, KN[J[a].kind]); if (h.distinct(o)) { seen->orders++; h.sh->nkeys--; }
    } else for (auto& j : J) j.run();
    std::string o; for (auto& j : J) { j.W.reset(); j.S.reset(); o += j.out + "\n"; } return o;
}
static void x01() {
    auto body = [&](uint64_t i, Rng& r, bool samekind) {
        std::string base = h.work + fmt("/x%d", h.shard); std::string cmd = "rm -rf '" + base + "'"; if (system(cmd.c_str())) return; mkdir(base.c_str(), 0755);
        int n = 2 + r.below(7), k0 = i % (KINDS - 1); bool xml = false; std::string d; std::vector<std::pair<int, uint64_t>> plan; int rounds = 1 + r.below(3);
        for (int k = 0; k < n; k++) { int kind = samekind ? k0 : (int)r.below(KINDS); if (kind == XML) { if (xml) kind = READ_SHARED; xml = true; } plan.push_back({kind, r.next()}); d += fmt("%s ", KN[kind]); } // XML sources: one at a time
        h.desc(d + fmt("%d rounds", rounds)); h.distinct(fmt("%d ", (int)i) + d);
        GenOpt o; o.maxnodes = 100; auto t = rand_tree(r, o); write_file(base + "/shared.src", "x"); { TreePlugin P((base + "/shared.src").c_str(), t.get()); Bin_xml_packer::Convert(&P, (base + "/shared.xb").c_str()); }
        std::string res[2];
        for (int par = 1; par >= 0; par--) {
            std::string rf = base + fmt("/res%d", par); pid_t p = fork();
            if (p == 0) {
                std::vector<Job> J(n); for (int k = 0; k < n; k++) { J[k].kind = plan[k].first; J[k].seed = plan[k].second; J[k].rounds = rounds; J[k].dir = base + fmt("/%c%d", par ? 'p' : 's', k); J[k].shared = base + "/shared.xb"; }
                write_file(rf, exec(J, par)); _exit(0);
            }
            int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { // the report is on stderr, leave it to be seen
                if (par) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 70); fprintf(stderr, "no result of jobs one after another: %d\n", st); _exit(71); }
            res[par] = read_file(rf);
        }
        size_t a = 0, b = 0; for (int k = 0; k < n; k++) {
            size_t ae = res[0].find('\n', a), be = res[1].find('\n', b); if (ae == std::string::npos || be == std::string::npos) { h.check(false, "lost", "result of a job is missing"); break; }
            h.check(res[0].substr(a, ae - a) == res[1].substr(b, be - b), std::string("result/") + KN[plan[k].first], "result in threads differs from the result alone: " + res[1].substr(b, std::min<size_t>(be - b, 300)) + " instead of " + res[0].substr(a, std::min<size_t>(ae - a, 300))); a = ae + 1; b = be + 1; }
        if (i < 12) h.sample(d + res[1].substr(0, 200));
        if (system(cmd.c_str())) return;
    };
    h.group_run("same-work", h.thorough ? 5000 : 500, [&](uint64_t i, Rng& r) { body(i, r, true); }, 120);
    h.group_run("mixed-work", h.thorough ? 6000 : 600, [&](uint64_t i, Rng& r) { body(i, r, false); }, 120);
}
int main(int argc, char** argv) { h.init(argc, argv); debug_status = nullptr; /* the log of failures is one for the whole process; its users can turn it off */ setenv("TZ", "UTC", 1); tzset(); xmlInitParser(); seen = (Seen*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); x01();
    auto tell = [](const char* n, uint64_t v) { h.emit(fmt("{\"t\":\"seen\",\"name\":\"%s\",\"n\":%llu}", n, (unsigned long long)v)); }; tell("pairs of jobs", seen->pairs); tell("pairs of jobs at the same time", seen->overlapped); tell("different orders of completion", seen->orders);
    h.finish(); return 0; }
