#include "main.hpp"
#include "graphcheck.hpp"
#include "viewcheck.hpp"

int main(int argc, char** argv) {
    if (argc < 2) {
        fprintf(stderr, "usage: dwofuzz MODE [--seed S --seconds T --out F | --replay F]\n");
        return 3;
    }
    string mode = argv[1];
    CaseFn fn;
    auto graph = [&](int m) { return [m](Src& s, CaseInfo& i) { graph_case(m, s, i); }; };
    if (mode == "C01") fn = graph(M01);
    else if (mode == "C02") fn = graph(M02);
    else if (mode == "C03") fn = graph(M03);
    else if (mode == "C04") fn = graph(M04);
    else if (mode == "C05") fn = graph(M05);
    else if (mode == "C06") fn = graph(M06);
    else if (mode == "C15") fn = graph(M15);
    else if (mode == "C14") fn = prune_case;
    else if (mode == "ALL") fn = graph(MALL);
    else if (mode == "C10") fn = [](Src& s, CaseInfo& i) { graph_case(M10, s, i, true); };
    else if (mode == "C07") fn = c07::run;
    else return 3;
    return fuzz_main(mode, fn, argc, argv);
}
