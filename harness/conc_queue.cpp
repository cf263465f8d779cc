// C16: the work-stealing queue under all interleavings and permitted stale reads.
#include "../lib/mcapi.hpp"
#include <co_ecs/detail/work_stealing_queue.hpp>
#include <thread>

using queue = co_ecs::detail::work_stealing_queue<int*>;

// ops of the owner: '+' push, '-' pop; thieves steal a number of times each
static void scenario(int64_t cap, int prefill, int rotate, std::vector<std::string> owner_scripts, std::vector<int> thieves) {
    std::string ops = owner_scripts[mcapi::choose(unsigned(owner_scripts.size()))];
    constexpr int N = 64;
    static int payload[N];
    static int taken[N];
    static int by[N];
    {
        mcapi::Quiet q;
        for (int i = 0; i < N; ++i) payload[i] = 0, taken[i] = 0, by[i] = -1;
    }
    queue* q = new queue(cap);
    int pushed = 0;
    auto take = [&](int* p, int who) {
        int v = *p; // the pusher's write must be visible (a race is reported otherwise)
        mcapi::Quiet quiet;
        int i = int(p - payload);
        MCHECK(i >= 0 && i < N && v == i + 1000, "thread %d obtained a value that was never pushed, or before it was written", who);
        MCHECK(taken[i]++ == 0, "item %d obtained twice", i);
        by[i] = who;
        mcapi::log("takes item %d", i);
        return i;
    };
    auto push = [&] {
        int i = pushed++;
        payload[i] = i + 1000;
        q->push(&payload[i]);
    };
    // reach a wrapped-around or grown state without concurrency
    for (int i = 0; i < rotate; ++i) {
        push();
        auto r = q->steal();
        MCHECK(r.has_value(), "a lone thief fails on a non-empty queue");
        take(*r, 0);
    }
    for (int i = 0; i < prefill; ++i) push();
    std::vector<std::thread> th;
    for (size_t k = 0; k < thieves.size(); ++k)
        th.emplace_back([&, k] {
            int lastgot = -1;
            for (int n = 0; n < thieves[k]; ++n) {
                auto r = q->steal();
                if (r) {
                    int i = take(*r, int(k) + 1);
                    MCHECK(i > lastgot, "thief %zu obtained item %d after the newer item %d", k, i, lastgot);
                    lastgot = i;
                }
            }
        });
    int mine = -1;
    for (char c : ops) {
        if (c == '+') push();
        else {
            auto r = q->pop();
            if (r) {
                int i = take(*r, 0);
                // newest: everything newer must be gone already
                mcapi::Quiet quiet;
                for (int j = i + 1; j < pushed; ++j) MCHECK(taken[j], "the owner popped item %d while the newer item %d is still in the queue", i, j);
            } else {
                // a failing pop means that the queue was empty or its last item lost to a thief
            }
        }
    }
    for (auto& t : th) t.join();
    // now alone: everything left must come out, newest first or oldest first
    bool lifo = mcapi::choose(2) == 0;
    int prev = lifo ? 1 << 20 : -1;
    int left = 0;
    for (int i = 0; i < pushed; ++i) left += !taken[i];
    MCHECK(int(q->size()) == left && q->empty() == (left == 0), "queue reports %zu items, %d were pushed and not obtained", q->size(), left);
    for (int n = 0; n < left; ++n) {
        auto r = lifo ? q->pop() : q->steal();
        MCHECK(r.has_value(), "%d items were pushed and not obtained, but the lone taker gets only %d", left, n);
        int i = take(*r, 0);
        MCHECK(lifo ? i < prev : i > prev, "%s item %d after %d", lifo ? "pop gives" : "steal gives", i, prev);
        prev = i;
    }
    MCHECK(!q->pop().has_value() && !q->steal().has_value(), "an empty queue yields an item");
    uint64_t h = 7;
    for (int i = 0; i < pushed; ++i) h = h * 31 + uint64_t(by[i] + 2);
    mcapi::outcome(h);
    delete q;
}

int main(int argc, char** argv) {
    using B = std::vector<mcapi::Bound>;
    using V = std::vector<std::string>;
    auto add = [](const char* n, int64_t cap, int prefill, int rotate, V ops, std::vector<int> th, B q, B t) { mcapi::add(n, [=] { scenario(cap, prefill, rotate, ops, th); }, q, t, 30, 900); };
    B all{ { -1, 0, 0, 0 } }, d6{ { 6, 6, 4, 0 } }, d5{ { 5, 5, 4, 0 } }, d4{ { 4, 4, 3, 0 } }, d3{ { 3, 3, 3, 0 } }, d8{ { 8, 8, 6, 0 } };
    add("C16.one-item", 2, 1, 0, { "-", "--", "+-", "-+" }, { 1 }, d6, all);
    add("C16.empty", 4, 0, 0, { "+", "+-", "++-", "+-+" }, { 2 }, d5, d8);
    add("C16.full", 2, 2, 0, { "-", "--", "-+-", "--+" }, { 2 }, d4, d6);
    add("C16.grow", 2, 2, 0, { "+", "+-", "++", "+--" }, { 1 }, d5, d8);
    add("C16.grow-wrapped", 2, 2, 1, { "+", "+-", "+--" }, { 2 }, d4, d6);
    add("C16.grow-twice", 2, 1, 1, { "++++", "+++-+" }, { 2 }, d4, d6);
    add("C16.wrapped", 2, 1, 3, { "+-", "-+", "+--" }, { 2 }, d4, d6);
    add("C16.two-thieves", 2, 1, 0, { "", "-", "+-", "-+" }, { 1, 1 }, d4, d6);
    add("C16.two-thieves-two-items", 2, 2, 0, { "", "-", "--" }, { 1, 1 }, d4, d6);
    add("C16.two-thieves-grow", 2, 2, 1, { "+", "+-" }, { 1, 1 }, d4, d6);
    add("C16.thieves-steal-twice", 4, 2, 0, { "-", "--", "-+" }, { 2, 1 }, d3, d5);
    return mcapi::main(argc, argv);
}
