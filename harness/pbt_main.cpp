#include "pbt.hpp"
#include <fcntl.h>
#include <regex>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
Record *record = nullptr;
std::vector<Test> &tests() { static std::vector<Test> t; return t; }
std::vector<Init> &inits() { static std::vector<Init> t; return t; }
}
using namespace pbt;

static void on_hang(int) { if (record) record->status = 97; _exit(97); }

static void arm(long sec)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}

static std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// 0 ok, 1 fail, 2 discarded
static int run_one(const Test &t, Src &s, std::string &msg)
{
    try { t.fn(s); return 0; }
    catch (Fail &f) { msg = f.msg; return 1; }
    catch (Discard &) { return 2; }
    catch (std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
}

int main(int argc, char **argv)
{
    uint64_t seed = 1, shard = 0, shards = 1, mult_num = 1, mult_den = 1;
    long hang = 60; double wall_limit = 1e9;
    std::string out, rec, filter, replay, one_case, history, prefix; bool list = false, first_only = false; uint64_t one_index = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return argv[++i]; };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--shard") shard = strtoull(val().c_str(), 0, 10);
        else if (a == "--shards") shards = strtoull(val().c_str(), 0, 10);
        else if (a == "--mult") mult_num = strtoull(val().c_str(), 0, 10);
        else if (a == "--div") mult_den = strtoull(val().c_str(), 0, 10);
        else if (a == "--hang") hang = atol(val().c_str());
        else if (a == "--wall") wall_limit = atof(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--rec") rec = val();
        else if (a == "--filter") filter = val();
        else if (a == "--replay") replay = val();
        else if (a == "--case") { one_case = val(); one_index = strtoull(val().c_str(), 0, 10); }
        else if (a == "--history") history = val();
        else if (a == "--prefix") { prefix = val(); one_index = strtoull(val().c_str(), 0, 10); }
        else if (a == "--list") list = true;
        else if (a == "--first") first_only = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 64; }
    }
    if (list) {
        for (auto &t : tests()) printf("%s %llu\n", t.name.c_str(), (unsigned long long)t.quick);
        return 0;
    }
    static Record local;
    record = &local;
    if (!rec.empty()) {
        int fd = open(rec.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Record)) != 0) { perror("rec"); return 64; }
        record = (Record *)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    record->magic = 0x7062745245430001ull;
    record->test = ~0ull;
    signal(SIGPROF, on_hang);
    arm(hang);
    if (prefix.empty()) for (const auto &i : inits()) if (!i.table || (replay.empty() && one_case.empty())) i.f();

    if (!history.empty()) {
        // lines "index test name": the cases run one after the other in this
        // process; reports on the last one
        FILE *f = fopen(history.c_str(), "r");
        if (!f) { perror("history"); return 64; }
        char line[512]; std::vector<std::pair<uint64_t, std::string>> cases;
        while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; char *e; const uint64_t i = strtoull(line, &e, 10); cases.push_back({i, e + 1}); }
        fclose(f); int r = 0; std::string msg, sample;
        for (auto &c : cases) for (auto &t : tests()) if (t.name == c.second) {
            Src s; s.case_index = c.first; s.state = mix64(mix64(seed ^ 0x5eed) ^ hash_str(t.name)) ^ mix64(c.first);
            arm(hang); msg.clear(); r = run_one(t, s, msg); sample = s.sample;
        }
        FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
        fprintf(o, "{\"result\":%d,\"msg\":\"%s\",\"sample\":\"%s\"}\n", r, esc(msg).c_str(), esc(sample).c_str());
        fflush(o);
        return r == 1 ? 1 : 0;
    }
    if (!replay.empty() || !one_case.empty()) {
        Src s; s.verbose = true; std::string name = one_case;
        if (!replay.empty()) {
            // file: test name on the first line, then the choices
            FILE *f = fopen(replay.c_str(), "r");
            if (!f) { perror("replay"); return 64; }
            char line[512]; if (!fgets(line, sizeof line, f)) return 64;
            line[strcspn(line, "\n")] = 0; name = line;
            s.replaying = true; unsigned long long v;
            while (fscanf(f, "%llu", &v) == 1) s.in.push_back(v);
            fclose(f);
        } else { s.case_index = one_index; s.state = mix64(mix64(seed ^ 0x5eed) ^ hash_str(name)) ^ mix64(one_index); }
        for (auto &t : tests()) if (t.name == name) {
            arm(hang);
            std::string msg; int r = run_one(t, s, msg);
            FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
            fprintf(o, "{\"result\":%d,\"msg\":\"%s\",\"sample\":\"%s\",\"digest\":\"%016llx\",\"digest_text\":\"%s\",\"choices\":[", r, esc(msg).c_str(), esc(s.sample).c_str(), (unsigned long long)s.dig, esc(s.digest_text).c_str());
            for (size_t i = 0; i < s.out.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)s.out[i]);
            fprintf(o, "]}\n");
            fflush(o);
            return r == 1 ? 1 : 0;
        }
        fprintf(stderr, "no such test\n");
        return 64;
    }

    struct Res { uint64_t evals = 0, disc = 0, nt = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; double cpu = 0; };
    std::vector<Res> res(tests().size());
    std::vector<std::string> failures;
    std::vector<uint64_t> hashes, digests;
    std::unordered_set<uint64_t> seen;
    std::regex re(filter);
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };
    bool cut = false;
    // interleave the tests in rounds so that a wall limit cuts all of them alike
    std::vector<uint64_t> next(tests().size(), shard), total(tests().size());
    std::vector<char> dead(tests().size(), 0);
    for (size_t k = 0; k < tests().size(); k++) {
        uint64_t q = tests()[k].quick * mult_num;
        total[k] = q / mult_den; if (!total[k] && q) total[k] = 1;
        if (!filter.empty() && !std::regex_search(tests()[k].name, re)) dead[k] = 1;
        // spread tests with few cases over the shards
        if (total[k] < shards) next[k] = (shard + k) % shards;
    }
    const int ROUNDS = 16;
    for (int round = 1; round <= ROUNDS && !cut; round++)
    for (size_t k = 0; k < tests().size() && !cut; k++) {
        if (dead[k]) continue;
        const Test &t = tests()[k]; Res &r = res[k];
        const uint64_t th = hash_str(t.name), limit = (total[k] * round + ROUNDS - 1) / ROUNDS;
        struct timespec c0; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &c0);
        for (; next[k] < limit; next[k] += shards) {
            const uint64_t i = next[k];
            if (!prefix.empty()) { printf("%llu %s\n", (unsigned long long)i, t.name.c_str()); if (t.name == prefix && i == one_index) return 0; continue; }
            if (elapsed() > wall_limit) { cut = true; break; }
            Src s; s.case_index = i; s.state = mix64(mix64(seed ^ 0x5eed) ^ th) ^ mix64(i);
            s.labels = &r.labels;
            record->n = 0; record->index = i; record->test = k; record->status = 1;
            arm(hang);
            std::string msg;
            int o = run_one(t, s, msg);
            record->status = 0;
            if (o == 2) { ++r.disc; continue; }
            ++r.evals;
            if (o == 0 && s.dig) { digests.push_back(th ^ mix64(i)); digests.push_back(k); digests.push_back(i); digests.push_back(s.dig); }
            if (o == 1 && first_only) return 1;
            if (o == 1) {
                std::ostringstream os;
                os << "{\"test\":\"" << esc(t.name) << "\",\"index\":" << i << ",\"msg\":\"" << esc(msg) << "\",\"sample\":\"" << esc(s.sample) << "\",\"choices\":[";
                for (size_t j = 0; j < s.out.size(); j++) os << (j ? "," : "") << s.out[j];
                os << "]}";
                failures.push_back(os.str());
                dead[k] = 1;
                break;
            }
            if (s.nontrivial) {
                uint64_t h = th;
                for (uint64_t v : s.out) h = mix64(h ^ v);
                if (seen.size() >= 4000000) ; // table full: not counted (the figure is then a lower bound)
                else if (seen.insert(h).second) { ++r.nt; hashes.push_back(h); }
                if (r.samples.size() < 2 && !s.sample.empty() && (i / shards) % 3 == 1) r.samples.push_back(s.sample);
            }
        }
        struct timespec c1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &c1);
        r.cpu += (c1.tv_sec - c0.tv_sec) + 1e-9 * (c1.tv_nsec - c0.tv_nsec);
    }
    arm(0);
    FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!o) { perror("out"); return 64; }
    fprintf(o, "{\"cut\":%s,\"wall\":%.3f,\"tests\":[", cut ? "true" : "false", elapsed());
    bool first = true;
    for (size_t k = 0; k < tests().size(); k++) {
        Res &r = res[k];
        if (!r.evals && !r.disc) continue;
        fprintf(o, "%s\n{\"name\":\"%s\",\"evals\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"cpu\":%.4f,\"labels\":{", first ? "" : ",", esc(tests()[k].name).c_str(),
                (unsigned long long)r.evals, (unsigned long long)r.disc, (unsigned long long)r.nt, r.cpu);
        first = false; bool f2 = true;
        for (auto &l : r.labels) { fprintf(o, "%s\"%s\":%llu", f2 ? "" : ",", esc(l.first).c_str(), (unsigned long long)l.second); f2 = false; }
        fprintf(o, "},\"samples\":["); f2 = true;
        for (auto &l : r.samples) { fprintf(o, "%s\"%s\"", f2 ? "" : ",", esc(l).c_str()); f2 = false; }
        fprintf(o, "]}");
    }
    fprintf(o, "],\"failures\":[");
    for (size_t k = 0; k < failures.size(); k++) fprintf(o, "%s\n%s", k ? "," : "", failures[k].c_str());
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    if (!out.empty()) {
        FILE *h = fopen((out + ".hashes").c_str(), "wb");
        if (h) { fwrite(hashes.data(), 8, hashes.size(), h); fclose(h); }
        h = digests.empty() ? nullptr : fopen((out + ".digests").c_str(), "wb");
        if (h) { fwrite(digests.data(), 8, digests.size(), h); fclose(h); }
    }
    return failures.empty() ? 0 : 1;
}
