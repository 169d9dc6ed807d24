// An embedding problem without output, for the drivers.
#pragma once
#include "driver.hpp"
#include "embedding.hpp"

using namespace find_embedding;

class Silent : public LocalInteraction {
    void displayOutputImpl(int, const string &) const override {}
    void displayErrorImpl(int, const string &) const override {}
    bool cancelledImpl() const override { return false; }
};

typedef embedding_problem<fixed_handler_hival, domain_handler_masked, output_handler<false>> problem_t;
