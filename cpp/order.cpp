// Drives the variable orders and the weight table of embedding_problem.
#include "problem.hpp"

namespace {

void orders(Reader &in, Out &out) {
    int nv = static_cast<int>(in()), nf = static_cast<int>(in()), nq = static_cast<int>(in());
    std::vector<std::vector<int>> vn, qn(nq);
    for (int i = 0; i < nv + nf; i++) vn.push_back(in.list());
    optional_parameters params;
    params.localInteractionPtr = LocalInteractionPtr(new Silent());
    params.seed(static_cast<uint64_t>(in()));
    params.max_fill = static_cast<int>(in());
    if (i64 beta = in()) params.max_beta = static_cast<double>(beta) / 1000;
    problem_t ep(params, nv, nf, nq, 0, vn, qn);
    out.push_back(ep.weight_bound);
    while (in.more()) {
        i64 k = in();
        if (k < 6) {
            put_list(out, ep.var_order(static_cast<VARORDER>(k)));
        } else if (k == 6) {
            i64 mw = in();
            ep.populate_weight_table(static_cast<int>(mw));
            for (int i = 0; i < 66; i++) out.push_back(ep.weight(i));
        } else {
            int u = static_cast<int>(in());
            put_list(out, k == 7 ? ep.var_neighbors(u, shuffle_first{}) : k == 8 ? ep.var_neighbors(u, rndswap_first{}) : ep.var_neighbors(u));
        }
    }
}

}  // namespace

void run_program(const std::string &, Reader &in, Out &out) { orders(in, out); }
