// Drives chain and embedding.
#include "problem.hpp"

namespace {

typedef embedding<problem_t> emb_t;

void put_emb(Out &out, problem_t &ep, const emb_t &emb) {
    int nv = ep.num_vars() + ep.num_fixed(), nq = ep.num_qubits() + ep.num_reserved();
    for (int v = 0; v < nv; v++) {
        auto &c = emb.get_chain(v);
        out.push_back(static_cast<i64>(emb.chainsize(v)));
        for (auto &q : c) {
            out.push_back(q);
            out.push_back(c.parent(q));
            out.push_back(c.refcount(q));
        }
        for (int w = 0; w < nv; w++) out.push_back(c.get_link(w));
        out.push_back(c.run_diagnostic());
    }
    for (int q = 0; q < nq; q++) out.push_back(emb.weight(q));
    out.push_back(ep.num_qubits() ? emb.max_weight() : 0);
    out.push_back(emb.linked());
    for (int v = 0; v < ep.num_vars(); v++) out.push_back(emb.linked(v));
    std::vector<int> stats;
    out.push_back(emb.statistics(stats));
    put_list(out, stats);
}

void embeddings(Reader &in, Out &out) {
    int nv = static_cast<int>(in()), nf = static_cast<int>(in()), nq = static_cast<int>(in()), nr = static_cast<int>(in());
    std::vector<std::vector<int>> vn, qn;
    for (int i = 0; i < nv + nf; i++) vn.push_back(in.list());
    for (int i = 0; i < nq + nr; i++) qn.push_back(in.list());
    optional_parameters params;
    params.localInteractionPtr = LocalInteractionPtr(new Silent());
    params.seed(static_cast<uint64_t>(in()));
    params.fixed_chains = in.dict();
    params.initial_chains = in.dict();
    params.restrict_chains = in.dict();
    problem_t ep(params, nv, nf, nq, nr, vn, qn);
    emb_t emb(ep, params.fixed_chains, params.initial_chains);
    emb_t other(ep);
    put_emb(out, ep, emb);
    while (in.more()) {
        int op = static_cast<int>(in());
        switch (op) {
            case 0:
                emb.tear_out(static_cast<int>(in()));
                break;
            case 1:
                out.push_back(emb.freeze_out(static_cast<int>(in())));
                break;
            case 2:
                emb.thaw_back(static_cast<int>(in()));
                break;
            case 3: {  // construct
                int u = static_cast<int>(in()), q = static_cast<int>(in());
                std::vector<std::vector<int>> parents(nv + nf);
                i64 k = in();
                while (k-- > 0) {
                    int v = static_cast<int>(in());
                    parents[v] = in.list();
                }
                emb.construct_chain(u, q, parents);
                break;
            }
            case 4: {  // construct by Steiner nodes
                int u = static_cast<int>(in()), q = static_cast<int>(in());
                std::vector<std::vector<int>> parents(nv + nf), visited(nv + nf);
                std::vector<std::vector<distance_t>> distances(nv + nf);
                i64 k = in();
                while (k-- > 0) {
                    int v = static_cast<int>(in());
                    parents[v] = in.list();
                    std::vector<int> d = in.list();
                    visited[v] = in.list();
                    distances[v].assign(d.begin(), d.end());
                }
                emb.construct_chain_steiner(u, q, parents, distances, visited);
                break;
            }
            case 5: {
                int u = static_cast<int>(in());
                emb.flip_back(u, static_cast<int>(in()));
                break;
            }
            case 6:
                emb.steal_all(static_cast<int>(in()));
                break;
            case 7:  // keep a copy
                other = emb;
                out.push_back(other == emb);
                break;
            case 8:  // go back to the copy
                emb = other;
                out.push_back(other == emb);
                break;
            case 9:
                out.push_back(other == emb);
                break;
            default:
                throw std::runtime_error("driver: unknown operation");
        }
        put_emb(out, ep, emb);
    }
}

}  // namespace

void run_program(const std::string &, Reader &in, Out &out) { embeddings(in, out); }
