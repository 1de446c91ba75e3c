// Supervisor: runs cases in forked children, turns crashes/hangs into failures, shrinks, reports.
#pragma once
#include "core.hpp"

#include <fcntl.h>
#include <fstream>
#include <exception>
#include <algorithm>

inline double now_s() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline void reset_limits_child() {
    signal(SIGALRM, SIG_DFL);
}

// Run one case in this process. Returns normally, or throws Violation.
inline void run_one(const CaseFn& fn, Src& src, CaseInfo& info) {
    try {
        fn(src, info);
    } catch (Violation&) {
        throw;
    } catch (Discard&) {
        throw;
    } catch (std::exception& e) {
        throw Violation{"exception", std::string("unexpected exception: ") + e.what()};
    }
}

struct Outcome {
    int kind = 0;  // 0 ok, 1 violation, 2 crash, 3 hang
    std::string tag, msg;
    std::vector<uint32_t> choices;
};

// A failure that needs the cases before it (something survives from one graph to the next) is written as
// {RANGE, seed, first, last}: the generated cases first..last of that seed, of which the last one fails.
constexpr uint32_t RANGE = 0xffffffffu;
inline bool is_range(const std::vector<uint32_t>& c) { return c.size() == 4 && c[0] == RANGE; }
inline uint64_t case_rng(uint64_t seed, uint64_t k) {
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull + 12345;
    splitmix(x);
    return x;
}
inline void run_before(const CaseFn& fn, const std::vector<uint32_t>& range, Shared* sh) {
    for (uint64_t k = range[2]; k < range[3]; ++k) {
        sh->n = 0;
        Src src{sh};
        src.rng = case_rng(range[1], k);
        CaseInfo info;
        try {
            run_one(fn, src, info);
        } catch (Violation&) {
        } catch (Discard&) {
        }
    }
    sh->n = 0;
}
inline void set_source(Src& src, const std::vector<uint32_t>& choices) {
    if (is_range(choices)) {
        src.rng = case_rng(choices[1], choices[3]);
    } else {
        src.replay = true;
        src.fixed = choices;
    }
}

// Run one explicit choice sequence in a forked child.
inline Outcome attempt(const CaseFn& fn, const std::vector<uint32_t>& choices, Shared* sh, int timeout_s,
                       bool quiet = true) {
    sh->n = 0;
    sh->tag[0] = sh->msg[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
        }
        alarm(timeout_s);
        if (is_range(choices)) run_before(fn, choices, sh);
        Src src{sh};
        set_source(src, choices);
        CaseInfo info;
        try {
            run_one(fn, src, info);
        } catch (Violation& v) {
            snprintf(sh->tag, sizeof sh->tag, "%s", v.tag.c_str());
            snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
            _exit(11);
        } catch (Discard&) {
            _exit(0);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.choices.assign(sh->choices, sh->choices + sh->n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) {
        o.kind = 1;
        o.tag = sh->tag;
        o.msg = sh->msg;
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        o.kind = 3;
        o.tag = "hang";
        o.msg = "the case did not finish within its time limit";
    } else {
        o.kind = 2;
        o.tag = "crash";
        o.msg = WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st))
                                : "memory error / abnormal exit, status " + std::to_string(WEXITSTATUS(st));
    }
    return o;
}

inline bool simpler(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline Outcome shrink(const CaseFn& fn, Outcome best, Shared* sh, double budget_s, bool same_tag) {
    const double end = now_s() + budget_s;
    auto strip = [](std::vector<uint32_t> c) {
        while (!c.empty() && c.back() == 0) c.pop_back();
        return c;
    };
    auto ok = [&](const std::vector<uint32_t>& c) -> bool {
        if (now_s() > end) return false;
        if (!simpler(strip(c), strip(best.choices))) return false;
        Outcome o = attempt(fn, c, sh, 8);
        if (!o.kind || o.kind == 3) return false;
        if (same_tag && o.tag != best.tag) return false;
        o.choices = strip(simpler(strip(o.choices), strip(c)) ? o.choices : c);
        if (!simpler(o.choices, strip(best.choices))) return false;
        best = o;
        return true;
    };
    best.choices = strip(best.choices);
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        for (size_t chunk : {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = 0; i < best.choices.size() && now_s() < end;) {
                auto c = best.choices;
                size_t e = std::min(i + chunk, c.size());
                c.erase(c.begin() + i, c.begin() + e);
                if (ok(c)) {
                    progress = true;
                    continue;
                }
                c = best.choices;
                bool nz = false;
                for (size_t k = i; k < e; ++k) {
                    nz |= c[k] != 0;
                    c[k] = 0;
                }
                if (nz && ok(c)) progress = true;
                i += std::max<size_t>(1, chunk / 2);
            }
        }
        for (size_t i = 0; i < best.choices.size() && now_s() < end; ++i) {
            while (i < best.choices.size() && best.choices[i] > 0) {
                auto c = best.choices;
                c[i] = c[i] / 2;
                if (ok(c)) {
                    progress = true;
                    continue;
                }
                c = best.choices;
                c[i] -= 1;
                if (ok(c)) {
                    progress = true;
                    continue;
                }
                // lower this one and delete the following draw (sizes)
                if (i + 1 < best.choices.size()) {
                    c = best.choices;
                    c[i] -= 1;
                    c.erase(c.begin() + i + 1);
                    if (ok(c)) {
                        progress = true;
                        continue;
                    }
                }
                break;
            }
        }
    }
    return best;
}

// Verbose description of a case, produced in a child so that a crash cannot hurt us.
inline std::string describe(const CaseFn& fn, const std::vector<uint32_t>& choices, Shared* sh) {
    int p[2];
    if (pipe(p)) return "";
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        dup2(p[1], 1);
        dup2(p[1], 2);
        alarm(20);
        setvbuf(stdout, nullptr, _IONBF, 0);
        if (is_range(choices)) {
            printf("(after the generated cases %u to %u of seed %u)\n", choices[2], choices[3] - 1, choices[1]);
            run_before(fn, choices, sh);
        }
        sh->n = 0;
        Src src{sh};
        set_source(src, choices);
        CaseInfo info;
        info.verbose = true;
        try {
            run_one(fn, src, info);
            printf("(no violation)\n");
        } catch (Violation& v) {
            printf("VIOLATED [%s]: %s\n", v.tag.c_str(), v.msg.c_str());
        } catch (Discard&) {
            printf("(discarded)\n");
        }
        _exit(0);
    }
    close(p[1]);
    std::string out;
    char buf[4096];
    ssize_t k;
    while ((k = read(p[0], buf, sizeof buf)) > 0) {
        if (out.size() < 60000) out.append(buf, k);
    }
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    return out;
}

inline int fuzz_main(const std::string& mode, const CaseFn& fn, int argc, char** argv) {
    std::map<std::string, std::string> opt;
    for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const char* d) { return opt.count(k) ? opt[k] : std::string(d); };

    Shared* sh = make_shared_block();

    if (opt.count("--replay")) {
        std::ifstream f(opt["--replay"]);
        std::vector<uint32_t> c;
        std::string line;
        while (std::getline(f, line)) {
            if (line.rfind("choices:", 0) == 0) {
                std::istringstream is(line.substr(8));
                uint32_t v;
                while (is >> v) c.push_back(v);
            }
        }
        if (opt.count("--direct")) {  // no fork: for debuggers
            if (is_range(c)) run_before(fn, c, sh);
            Src src{sh};
            set_source(src, c);
            CaseInfo info;
            info.verbose = true;
            try {
                run_one(fn, src, info);
                printf("(no violation)\n");
                return 0;
            } catch (Violation& v) {
                printf("VIOLATED [%s]: %s\n", v.tag.c_str(), v.msg.c_str());
                return 1;
            } catch (Discard&) {
                return 0;
            }
        }
        printf("%s", describe(fn, c, sh).c_str());
        Outcome o = attempt(fn, c, sh, 30);
        return o.kind ? 1 : 0;
    }

    const uint64_t seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
    const double seconds = atof(get("--seconds", "10").c_str());
    const uint64_t max_cases = strtoull(get("--cases", "1000000000").c_str(), nullptr, 10);
    const bool triage = opt.count("--triage");
    const double shrink_s = atof(get("--shrink", "25").c_str());
    const std::string out = get("--out", "");
    const double t0 = now_s();

    // feature counters + hashes come back through files written by the child at its end
    std::string tmp = out.empty() ? "/dev/null" : out + ".hash";
    std::map<std::string, Outcome> failures;
    uint64_t next_case = 0;
    std::string featfile = out.empty() ? "" : out + ".feat";
    if (!out.empty()) {
        unlink(tmp.c_str());
        unlink(featfile.c_str());
    }
    std::vector<std::pair<uint64_t, std::vector<uint32_t>>> dummy;

    while (now_s() - t0 < seconds && next_case < max_cases) {
        sh->tag[0] = sh->msg[0] = 0;
        sh->case_start = static_cast<uint64_t>(now_s());
        const uint64_t child_first = next_case;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            if (!getenv("DWOFUZZ_STDERR")) {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 2);
            }
            std::unordered_set<uint64_t> hashes;
            std::map<std::string, uint64_t> feat;
            int code = 0;
            uint64_t local = 0;
            for (uint64_t k = next_case; k < max_cases && now_s() - t0 < seconds; ++k) {
                sh->n = 0;
                sh->case_start = static_cast<uint64_t>(now_s());
                sh->cases = k + 1;
                Src src{sh};
                src.rng = case_rng(seed, k);
                CaseInfo info;
                try {
                    run_one(fn, src, info);
                } catch (Violation& v) {
                    snprintf(sh->tag, sizeof sh->tag, "%s", v.tag.c_str());
                    snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
                    code = 11;
                } catch (Discard&) {
                    sh->discards = sh->discards + 1;
                    continue;
                }
                sh->steps = sh->steps + info.steps;
                sh->checks = sh->checks + info.checks;
                sh->refused = sh->refused + info.refused;
                for (auto& [a, b] : info.feat) feat[a] += b;
                if (info.nontrivial) {
                    uint64_t h = 1469598103934665603ull;
                    for (uint32_t i = 0; i < sh->n; ++i) h = (h ^ sh->choices[i]) * 1099511628211ull;
                    hashes.insert(h);
                }
                if (code) break;
                // bound the memory of a child: restart it now and then
                if (++local >= 60000) break;
            }
            if (!out.empty()) {
                FILE* f = fopen(tmp.c_str(), "ab");
                for (uint64_t h : hashes) fwrite(&h, 8, 1, f);
                fclose(f);
                f = fopen(featfile.c_str(), "a");
                for (auto& [a, b] : feat) fprintf(f, "%s\t%llu\n", a.c_str(), (unsigned long long)b);
                fclose(f);
            }
            _exit(code);
        }
        int st = 0;
        bool hang = false;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            usleep(5000);
            if (static_cast<uint64_t>(now_s()) > sh->case_start + 30) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                hang = true;
                break;
            }
        }
        next_case = sh->cases;
        if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;

        Outcome o;
        o.choices.assign(sh->choices, sh->choices + sh->n);
        Outcome again = attempt(fn, o.choices, sh, hang ? 60 : 30);
        if (!again.kind) {
            // a case that fails only after others: look for the shortest run of cases that shows it
            const uint64_t last = next_case - 1;
            for (uint64_t w = 1; !again.kind && now_s() - t0 < seconds; w *= 4) {
                const uint64_t from = last - std::min(w, last - child_first);
                std::vector<uint32_t> range{RANGE, static_cast<uint32_t>(seed), static_cast<uint32_t>(from),
                                            static_cast<uint32_t>(last)};
                again = attempt(fn, range, sh, 120);
                again.choices = range;
                if (from == child_first) break;
            }
            if (!again.kind) {
                fprintf(stderr, "note: unreproducible failure in case %llu (status %d)\n",
                        (unsigned long long)next_case, st);
                continue;
            }
            failures[again.tag] = again;
            if (triage) {
                printf("==== %s (cases %u to %u)\n", again.tag.c_str(), again.choices[2], again.choices[3]);
                continue;
            }
            break;
        }
        if (triage) {
            std::string key = again.tag;
            if (failures.count(key)) continue;
            Outcome s = shrink(fn, again, sh, shrink_s, true);
            failures[key] = s;
            printf("==== %s (case %llu)\n%s\n", key.c_str(), (unsigned long long)next_case,
                   describe(fn, s.choices, sh).c_str());
            printf("choices:");
            for (auto c : s.choices) printf(" %u", c);
            printf("\n");
            fflush(stdout);
            continue;
        }
        again.choices = o.choices;
        Outcome s = shrink(fn, again, sh, shrink_s, false);
        failures[s.tag] = s;
        break;
    }

    if (!out.empty()) {
        FILE* f = fopen((out + ".tmp").c_str(), "w");
        fprintf(f, "{\"mode\":\"%s\",\"seed\":%llu,\"cases\":%llu,\"discards\":%llu,\"steps\":%llu,\"checks\":%llu,\"refused\":%llu,\"failures\":[",
                mode.c_str(), (unsigned long long)seed, (unsigned long long)sh->cases,
                (unsigned long long)sh->discards, (unsigned long long)sh->steps,
                (unsigned long long)sh->checks, (unsigned long long)sh->refused);
        bool first = true;
        for (auto& [tag, o] : failures) {
            // confirm three times
            int hits = 0;
            for (int i = 0; i < 3; ++i) hits += attempt(fn, o.choices, sh, 60).kind != 0;
            fprintf(f, "%s{\"tag\":\"%s\",\"confirmed\":%d,\"msg\":\"%s\",\"text\":\"%s\",\"choices\":[", first ? "" : ",",
                    jesc(tag).c_str(), hits, jesc(o.msg).c_str(), jesc(describe(fn, o.choices, sh)).c_str());
            for (size_t i = 0; i < o.choices.size(); ++i) fprintf(f, "%s%u", i ? "," : "", o.choices[i]);
            fprintf(f, "]}");
            first = false;
        }
        fprintf(f, "],\"samples\":[");
        // a few written-out samples of this run
        if (failures.empty() && get("--samples", "0") != "0") {
            int want = atoi(get("--samples", "0").c_str());
            int got = 0;
            for (uint64_t k = 0; k < 200 && got < want; ++k) {
                sh->n = 0;
                Src src{sh};
                src.rng = case_rng(seed, k);
                CaseInfo info;
                try {
                    run_one(fn, src, info);
                } catch (...) {
                    continue;
                }
                if (!info.nontrivial) continue;
                std::vector<uint32_t> c(sh->choices, sh->choices + sh->n);
                fprintf(f, "%s\"%s\"", got ? "," : "", jesc(describe(fn, c, sh).substr(0, 1800)).c_str());
                ++got;
            }
        }
        fprintf(f, "]}\n");
        fclose(f);
        rename((out + ".tmp").c_str(), out.c_str());
    } else {
        printf("%s: cases=%llu discards=%llu steps=%llu checks=%llu refused=%llu failures=%zu\n", mode.c_str(),
               (unsigned long long)sh->cases, (unsigned long long)sh->discards, (unsigned long long)sh->steps,
               (unsigned long long)sh->checks, (unsigned long long)sh->refused, failures.size());
    }
    return failures.empty() ? 0 : 1;
}
