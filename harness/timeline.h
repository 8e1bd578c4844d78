// The whole walk laid out on a time axis, from its parameters alone.
#pragma once
#include "humoto/humoto.h"
#include "humoto/walking.h"
#include <vector>
namespace timeline
{
    using namespace humoto::walking;
    // ---------------- reference: the whole walk laid out on a time axis ----------------
    struct Ref { int type, subtype, prev_nonds, prev_nontds; uint64_t start, dur; uint64_t steps_left; };
    struct Timeline
    {
        std::vector<Ref> s; size_t last = 0;   // s[last]: the terminating stance
        static int other(int t) { return t == StanceType::LSS ? StanceType::RSS : StanceType::LSS; }
        explicit Timeline(const StanceFSMParameters& p)
        {
            bool ds = p.first_stance_ == StanceType::DS; uint64_t steps = p.num_steps_;
            int support = ds ? (p.first_ss_type_ == StanceType::UNDEFINED ? (int)StanceType::UNDEFINED : other(p.first_ss_type_)) : (int)p.first_stance_;
            if (ds && p.first_ss_type_ == StanceType::UNDEFINED) steps = 0;
            push(p.first_stance_, StanceSubType::FIRST, support, StanceType::UNDEFINED, p.first_stance_duration_ms_, steps);
            if (ds && steps == 0) { last = 0; return; }
            int before = p.first_stance_;
            for (uint64_t k = 0; k < steps; ++k)
            {
                push(StanceType::TDS, StanceSubType::INTERMEDIATE, support, before, p.tds_duration_ms_, steps - k);
                int now = other(support); push(now, StanceSubType::INTERMEDIATE, support, before, p.ss_duration_ms_, steps - k - 1); support = now; before = now;
            }
            push(StanceType::TDS, StanceSubType::INTERMEDIATE, support, before, p.tds_duration_ms_, 0);
            push(StanceType::DS, StanceSubType::LAST, support, before, p.last_stance_duration_ms_, 0);
            last = s.size() - 1;
        }
        void push(int t, int st, int a, int b, uint64_t d, uint64_t left) { uint64_t at = s.empty() ? 0 : s.back().start + s.back().dur; s.push_back({t, st, a, b, at, d, left}); }
        uint64_t end() const { return s[last].start + s[last].dur; }
        // stance at a moment: one that has ended gives way to the next at once, but only one stance is entered without time passing
        size_t at(uint64_t t) const { size_t i = 0; while (i < last && t > 0 && s[i].start + s[i].dur <= t) { ++i; if (s[i].start >= t) break; } return i; }
    };
}
using timeline::Ref; using timeline::Timeline;
