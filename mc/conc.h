// Clients as actors: what each sends next once a condition (mostly: a received packet) holds, under every schedule of the server's threads.
#pragma once
#include "mqtt.h"
#include <deque>
namespace mc {
struct Actor {
    struct Step { std::function<bool()> when; std::function<void()> act; };
    std::deque<Step> steps;
    Actor &then(std::function<bool()> w, std::function<void()> a) { steps.push_back({std::move(w), std::move(a)}); return *this; }
    Actor &now(std::function<void()> a) { return then([] { return true; }, std::move(a)); }
};
inline bool has(Cl &c, int type) { if (!c.c) return false; c.pump(); for (auto &p : c.rx) if (p.type == type) return true; return false; }
inline size_t seen(Cl &c, int type) { c.pump(); size_t n = 0; for (auto &p : c.rx) n += p.type == type; return n; }
// Runs the actors to the end, with up to `budget` deviations from the default schedule. Returns false when some step's condition never came true.
inline bool run_actors(int budget, std::vector<Actor*> as, std::function<void()> at_start = {}, std::function<void()> always = {}, uint64_t pass_ms = 0)
{
    bool busy = false;
    auto step = [&] { if (busy) return; busy = true; if (always) always(); for (auto *a : as) while (!a->steps.empty() && a->steps.front().when()) { auto f = a->steps.front().act; a->steps.pop_front(); f(); } busy = false; };
    sim::set_on_step(step);
    explore_schedules(budget, [&] { if (at_start) at_start(); step(); for (int i = 0; i < 50; i++) { settle(); step(); bool left = false; for (auto *a : as) left |= !a->steps.empty(); if (!left) break; if (pass_ms) sim::pass(pass_ms); } settle(); });
    sim::set_on_step(nullptr);
    count("schedule points", sim::sched().points); count("schedules");
    for (auto *a : as) if (!a->steps.empty()) return false;
    return true;
}
// One thread's work (start) interrupted at given steps, each time by another thread doing all of something (from act until done).
// Every placement of the interruptions is explored; returns at which steps they were (fewer than asked for: not started before the work ended).
struct Interruption { std::function<void()> act; std::function<bool()> done; };
inline std::vector<uint64_t> run_interrupted(const std::function<void()> &start, const std::vector<Interruption> &ints, std::function<void()> always = {})
{
    std::vector<uint64_t> at; auto &s = sim::sched(); uint64_t k = 0; size_t i = 0; bool in = false, sw = false, busy = false, started = false; auto old = s.choose;
    sim::set_on_step([&] { if (busy || !started) return; busy = true; if (always) always(); if (in && ints[i - 1].done()) in = false; if (!in && i < ints.size()) { if (choose(2, "interrupt")) { at.push_back(k); ints[i].act(); i++; in = sw = true; } else k++; } busy = false; });
    s.on = true; s.budget = 1 << 30; s.points = 0; s.choose = [&](int) { bool x = sw; sw = false; return x ? 1 : 0; };
    start(); started = true; settle(); started = false; sim::set_on_step(nullptr); s.on = false; s.budget = 0; s.choose = old;
    for (int j = 0; j < 8; j++) { if (always) always(); settle(); } count("interrupted"); return at;
}
}
