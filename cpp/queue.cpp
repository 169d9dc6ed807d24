// Drives pairing_queue and collectMinima.
#include "driver.hpp"
#include "util.hpp"

using namespace find_embedding;

namespace {

template <typename tag>
void queue(Reader &in, Out &out) {
    typedef pairing_queue<priority_node<distance_t, tag>> Q;
    int n = static_cast<int>(in());
    std::unique_ptr<Q> q(new Q(n));
    while (in.more()) {
        switch (in()) {
            case 0:
                q->reset();
                break;
            case 1: {
                int node = static_cast<int>(in()), dirt = static_cast<int>(in());
                distance_t dist = in();
                q->emplace(node, dirt, dist);
                break;
            }
            case 2:
                q->pop();
                break;
            case 3: {
                auto z = q->top();
                out.push_back(z.node);
                out.push_back(z.dirt);
                out.push_back(z.dist);
                break;
            }
            case 4:
                out.push_back(q->empty());
                break;
            case 5: {
                std::unique_ptr<Q> r(new Q(std::move(*q)));
                q.swap(r);
                break;
            }
        }
    }
}

void minima(Reader &in, Out &out) {
    std::vector<int> l = in.list(), o{7, 7, 7};
    collectMinima(l, o);
    put_list(out, o);
}

}  // namespace

void run_program(const std::string &what, Reader &in, Out &out) {
    if (what == "min")
        queue<min_heap_tag>(in, out);
    else if (what == "max")
        queue<max_heap_tag>(in, out);
    else
        minima(in, out);
}
