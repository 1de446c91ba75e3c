// Choice-sequence based generation, failure isolation and shrinking shared by all C++ fuzz modes.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

struct Violation {
    std::string tag;  // short signature, e.g. "value:Concatenate"
    std::string msg;
};
struct Discard {};

constexpr int MAXC = 6000;

// Shared between the supervising parent and the child that runs the cases.
struct Shared {
    volatile uint64_t cases, nontrivial, discards, steps, checks, refused;
    volatile uint64_t case_start;  // seconds (monotonic) at which the current case began
    volatile uint32_t n;           // choices drawn so far in the current case
    uint32_t choices[MAXC];
    char tag[200];
    char msg[4000];
};

inline Shared* make_shared_block() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    memset(p, 0, sizeof(Shared));
    return static_cast<Shared*>(p);
}

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// Source of all random decisions of a case. Smaller draws are "simpler".
struct Src {
    Shared* sh;
    bool replay = false;
    std::vector<uint32_t> fixed;
    uint64_t rng = 0;
    size_t pos = 0;

    uint32_t draw(uint32_t n) {  // uniform in [0, n)
        if (n <= 1) n = 1;
        uint32_t v;
        if (replay) {
            v = pos < fixed.size() ? fixed[pos] % n : 0;
        } else {
            v = static_cast<uint32_t>(splitmix(rng) >> 33) % n;
        }
        ++pos;
        if (sh->n < MAXC) {
            sh->choices[sh->n] = v;
            sh->n = sh->n + 1;
        } else {
            throw Discard{};
        }
        return v;
    }
    int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1))); }
    // true with probability num/den; false is the simple outcome
    bool chance(int num, int den) { return static_cast<int>(draw(den)) >= den - num; }
};

// Information a case reports about itself.
struct CaseInfo {
    bool nontrivial = false;
    std::string text;      // human readable description (only filled when verbose)
    bool verbose = false;
    uint64_t steps = 0, checks = 0, refused = 0;
    std::map<std::string, uint64_t> feat;
};

using CaseFn = std::function<void(Src&, CaseInfo&)>;

inline std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (static_cast<unsigned char>(c) < 32) {
            o += ' ';
        } else {
            o += c;
        }
    }
    return o;
}
