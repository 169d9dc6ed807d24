// What the drivers share: programs and answers are lists of integers.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include "errors.hpp"

typedef long long i64;

struct Reader {
    const i64 *p, *end;
    i64 operator()() {
        if (p >= end) throw std::runtime_error("driver: program too short");
        return *p++;
    }
    bool more() const { return p < end; }
    std::vector<int> list() {
        i64 n = (*this)();
        std::vector<int> v;
        while (n-- > 0) v.push_back(static_cast<int>((*this)()));
        return v;
    }
    std::map<int, std::vector<int>> dict() {
        i64 n = (*this)();
        std::map<int, std::vector<int>> m;
        while (n-- > 0) {
            int k = static_cast<int>((*this)());
            m[k] = list();
        }
        return m;
    }
};

typedef std::vector<i64> Out;

template <typename L>
inline void put_list(Out &out, const L &l) {
    out.push_back(static_cast<i64>(l.size()));
    for (auto &x : l) out.push_back(x);
}

inline void put_lists(Out &out, const std::vector<std::vector<int>> &l) {
    out.push_back(static_cast<i64>(l.size()));
    for (auto &x : l) put_list(out, x);
}

void run_program(const std::string &what, Reader &in, Out &out);

extern "C" {
// runs a program; returns the number of answers (copied up to cap), or -1 with the message of an exception in err
long long drv_run(const char *what, const i64 *prog, long long n, i64 *res, long long cap, char *err, long long errcap) {
    Out out;
    try {
        Reader in{prog, prog + n};
        run_program(what, in, out);
    } catch (const std::exception &e) {
        std::strncpy(err, e.what(), static_cast<size_t>(errcap - 1));
        err[errcap - 1] = 0;
        return -1;
    }
    long long m = static_cast<long long>(out.size());
    for (long long i = 0; i < m && i < cap; i++) res[i] = out[i];
    return m;
}
}
