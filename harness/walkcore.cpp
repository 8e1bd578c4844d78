// C09: stance machine under arbitrary time slicing; C19: timer on arbitrary clock histories.
#include "humoto/humoto.h"
#include "humoto/walking.h"
#include "sim/sim.h"
#include "sim/sched.h"
#include "harness/timeline.h"
#include <vector>
#include <cmath>
#include <sstream>
using namespace humoto::walking;
namespace
{
    const char* name(int t) { static const char* n[] = {"UNDEFINED", "DS", "LSS", "RSS", "TDS"}; return t >= 0 && t < 5 ? n[t] : "?"; }

    StanceFSMParameters anyParams()
    {
        StanceFSMParameters p;
        auto dur = [](bool zero) { switch (sim::choose(6)) { case 0: return (size_t)(100 * sim::range(1, 8)); case 1: return (size_t)sim::range(1, 9); case 2: return (size_t)(20 * sim::range(1, 30)); case 3: return zero ? (size_t)0 : (size_t)1; default: return (size_t)sim::range(1, 900); } };
        p.ss_duration_ms_ = dur(true); p.tds_duration_ms_ = dur(true); p.first_stance_duration_ms_ = dur(true); p.last_stance_duration_ms_ = dur(true);
        uint32_t k = sim::choose(8); p.num_steps_ = k == 0 ? 0 : sim::range(2, 12);
        switch (sim::choose(4)) { case 0: p.first_stance_ = StanceType::DS; break; case 1: p.first_stance_ = StanceType::DS; p.first_ss_type_ = StanceType::LSS; break; case 2: p.first_stance_ = StanceType::LSS; p.first_ss_type_ = StanceType::RSS; break; default: p.first_stance_ = StanceType::RSS; p.first_ss_type_ = StanceType::LSS; }
        if (p.first_stance_ == StanceType::DS && sim::chance(1, 12)) p.first_ss_type_ = StanceType::UNDEFINED;
        return p;
    }
    void compare(const StanceFiniteStateMachine& f, const Timeline& T, uint64_t t)
    {
        size_t i = T.at(t); const Ref& r = T.s[i]; const Stance& c = f.current_stance_;
        bool over = i == T.last && (t >= T.end() && !(t == r.start));   // after the walk: remains in the terminating stance
        if ((int)c.type_ != r.type) sim::fail("wrong-stance", "after %llu ms the stance is %s instead of %s", (unsigned long long)t, name(c.type_), name(r.type));
        if (over) { if (f.ss_states_to_termination_ != 0) sim::fail("wrong-step-count", "steps are left after the end of the walk"); return; }
        if ((int)c.subtype_ != r.subtype) sim::fail("wrong-subtype", "after %llu ms the stance %s has subtype %d instead of %d", (unsigned long long)t, name(r.type), (int)c.subtype_, r.subtype);
        if ((int)c.previous_nonds_stance_type_ != r.prev_nonds || (int)c.previous_nontds_stance_type_ != r.prev_nontds) sim::fail("wrong-previous-stance", "after %llu ms in %s the previous stances are %s/%s instead of %s/%s", (unsigned long long)t, name(r.type), name(c.previous_nonds_stance_type_), name(c.previous_nontds_stance_type_), name(r.prev_nonds), name(r.prev_nontds));
        if (c.duration_ms_ != r.dur) sim::fail("wrong-duration", "after %llu ms the stance %s lasts %zu instead of %llu ms", (unsigned long long)t, name(r.type), c.duration_ms_, (unsigned long long)r.dur);
        if (f.current_time_ms_ != t - r.start) sim::fail("wrong-time", "after %llu ms the time since the start of the stance %s is %zu instead of %llu ms", (unsigned long long)t, name(r.type), f.current_time_ms_, (unsigned long long)(t - r.start));
        if (f.ss_states_to_termination_ != r.steps_left) sim::fail("wrong-step-count", "after %llu ms %zu steps are left instead of %llu", (unsigned long long)t, f.ss_states_to_termination_, (unsigned long long)r.steps_left);
        if (t > 0 && r.type == StanceType::TDS && f.is_tds_started_ != (t == r.start)) sim::fail("wrong-tds-flag", "after %llu ms: transitional double support %s", (unsigned long long)t, f.is_tds_started_ ? "reported as just started" : "not reported as just started");
        if (t > 0 && (r.type == StanceType::LSS || r.type == StanceType::RSS) && f.is_tds_started_) sim::fail("wrong-tds-flag", "a transitional double support is reported as just started in a single support");
    }
    // a preview at time t against the time axis
    void comparePreview(const std::vector<Stance>& v, const Timeline& T, uint64_t t, uint64_t horizon)
    {
        size_t i = T.at(t); uint64_t left = horizon, at = t; size_t k = 0;
        if (i == T.last && t >= T.end() && t != T.s[i].start) { for (auto& s : v) if (s.type_ != StanceType::DS) sim::fail("wrong-preview", "after the end of the walk the preview has a stance %s", name(s.type_)); return; }
        bool covered = T.end() >= t + horizon; uint64_t total = 0; for (auto& s : v) total += s.duration_ms_;
        if (covered ? total != horizon : total >= horizon) sim::fail("wrong-preview", "at %llu ms the preview over %llu ms covers %llu ms", (unsigned long long)t, (unsigned long long)horizon, (unsigned long long)total);
        for (; k < v.size(); ++k)
        {
            if (i >= T.s.size()) sim::fail("wrong-preview", "the preview goes on after the terminating stance");
            const Ref& r = T.s[i]; uint64_t rem = r.start + r.dur - at; uint64_t take = std::min(rem, left); const Stance& s = v[k];
            bool extra = left == 0 && k + 1 == v.size() && k > 0 && v[k - 1].type_ == StanceType::TDS;   // the stance after the last transitional double support
            if ((int)s.type_ != r.type || (int)s.subtype_ != r.subtype) sim::fail("wrong-preview", "at %llu ms previewed stance %zu is %s/%d instead of %s/%d", (unsigned long long)t, k, name(s.type_), (int)s.subtype_, name(r.type), r.subtype);
            if (s.duration_ms_ != (extra ? 0 : take)) sim::fail("wrong-preview", "at %llu ms previewed stance %zu (%s) lasts %zu instead of %llu ms", (unsigned long long)t, k, name(r.type), s.duration_ms_, (unsigned long long)(extra ? 0 : take));
            if (!extra && s.total_duration_ms_ != r.dur) sim::fail("wrong-preview", "previewed stance %s has total duration %zu instead of %llu ms", name(r.type), s.total_duration_ms_, (unsigned long long)r.dur);
            if ((int)s.previous_nonds_stance_type_ != r.prev_nonds || (int)s.previous_nontds_stance_type_ != r.prev_nontds) sim::fail("wrong-preview", "previewed stance %zu (%s) follows %s/%s instead of %s/%s", k, name(r.type), name(s.previous_nonds_stance_type_), name(s.previous_nontds_stance_type_), name(r.prev_nonds), name(r.prev_nontds));
            if (left == 0 && !extra) sim::fail("wrong-preview", "the preview goes on after its horizon");
            left -= take; at += take; ++i;
        }
        if (covered && !v.empty() && v.back().type_ == StanceType::TDS) sim::fail("wrong-preview", "the preview ends with a transitional double support, not with the stance after it");
        // without the terminating stance, everything else is there
        if (!covered && i < T.last) sim::fail("wrong-preview", "stances before the terminating one are missing from the preview");
    }
    bool same(const StanceFiniteStateMachine& a, const StanceFiniteStateMachine& b)
    {
        return a.current_stance_.type_ == b.current_stance_.type_ && a.current_stance_.subtype_ == b.current_stance_.subtype_ && a.current_stance_.duration_ms_ == b.current_stance_.duration_ms_ && a.current_time_ms_ == b.current_time_ms_
            && a.current_stance_.previous_nonds_stance_type_ == b.current_stance_.previous_nonds_stance_type_ && a.current_stance_.previous_nontds_stance_type_ == b.current_stance_.previous_nontds_stance_type_
            && a.ss_states_to_termination_ == b.ss_states_to_termination_ && a.is_tds_started_ == b.is_tds_started_;
    }
    void c09()
    {
        StanceFSMParameters p = anyParams(); Timeline T(p); StanceFiniteStateMachine f(p); if (sim::chance(1, 4)) { f = StanceFiniteStateMachine(); f.shiftTime(sim::range(0, 3000)); f.setParameters(p); }
        sim::sample("first %s, %zu steps, durations %zu/%zu/%zu/%zu", name(p.first_stance_), p.num_steps_, p.first_stance_duration_ms_, p.tds_duration_ms_, p.ss_duration_ms_, p.last_stance_duration_ms_);
        uint64_t t = 0, stop = T.end() + (sim::chance(1, 3) ? sim::range(0, 2000) : 0); int style = sim::choose(4); uint64_t fixed = sim::range(1, 250);
        struct Promise { uint64_t at, horizon; std::vector<Stance> v; }; std::vector<Promise> promises;
        compare(f, T, 0);
        for (int step = 0; step < 400 && t < stop; ++step)
        {
            uint64_t d;
            size_t i = T.at(t); uint64_t boundary = T.s[i].start + T.s[i].dur;
            switch (style == 3 ? sim::choose(3) : style)
            {
                case 0: d = fixed; break;
                case 1: d = sim::range(0, 400); break;
                default: d = boundary > t ? boundary - t : 0; { uint32_t k = sim::choose(5); if (k == 1 && d > 0) --d; if (k == 2) ++d; if (k == 3) d += sim::range(0, 1500); if (k == 4) d = d / 2; } break;
            }
            if (d == 0 && style == 2) d = 1;
            // preview before moving
            if (sim::chance(1, 3))
            {
                uint64_t h = sim::chance(1, 20) ? 0 : sim::chance(1, 3) ? (boundary > t ? boundary - t : 1) + sim::choose(3) : sim::range(1, 3000);
                StanceFiniteStateMachine before = f; Promise pr = {t, h, f.previewStances(h)}; sim::event("preview of %llu ms", (unsigned long long)h);
                if (!same(before, f)) sim::fail("preview-changes-state", "previewing changed the state of the machine");
                if (h > 0) comparePreview(pr.v, T, t, h); promises.push_back(pr);
                if (i < T.last) { Stance n = f.getNextStance(); const Ref& r = T.s[i + 1]; if ((int)n.type_ != r.type || (int)n.subtype_ != r.subtype || n.duration_ms_ != r.dur) sim::fail("wrong-next-stance", "the next stance after %s is announced as %s/%d (%zu ms) instead of %s/%d (%llu ms)", name(T.s[i].type), name(n.type_), (int)n.subtype_, n.duration_ms_, name(r.type), r.subtype, (unsigned long long)r.dur); }
            }
            sim::event("shift %llu at %llu", (unsigned long long)d, (unsigned long long)t);
            f.shiftTime(d); t += d; sim::step(); sim::simTime(d / 1000.0);
            compare(f, T, t);
            sim::state(sim::mix(sim::mix(f.current_stance_.type_ * 7 + f.current_stance_.subtype_, f.current_time_ms_ * 3 + (f.current_time_ms_ == 0)), f.current_stance_.duration_ms_));
            // one big step, a restart from the parameters
            if (sim::chance(1, 6)) { StanceFiniteStateMachine g(p); g.shiftTime(t); if (t > 0 && !same(f, g)) sim::fail("depends-on-slicing", "after %llu ms: %s at %zu ms, but %s at %zu ms when advanced at once", (unsigned long long)t, name(f.current_stance_.type_), f.current_time_ms_, name(g.current_stance_.type_), g.current_time_ms_); sim::count("fault:restart"); }
            // previews come true
            for (auto& pr : promises)
            {
                uint64_t at = pr.at; for (auto& s : pr.v) { if (s.duration_ms_ > 0 && f.current_stance_.duration_ms_ > 0 && t >= at && t < at + s.duration_ms_ && s.type_ != f.current_stance_.type_) sim::fail("preview-not-kept", "%llu ms ahead the preview said %s, but the stance is %s", (unsigned long long)(t - pr.at), name(s.type_), name(f.current_stance_.type_)); at += s.duration_ms_; }
            }
        }
        if (t >= T.end()) { sim::count("walks completed"); }
        sim::nontrivial();
    }
    sim::Scenario s09("C09", "random stance parameters, time advanced in random, fixed and boundary-seeking slices, previews of random horizons", c09);

    // ------------------------------------------------------------------ C19
    void units()
    {
        size_t ms = sim::chance(1, 2) ? sim::choose(100000) : (size_t)sim::choose(2000000000) * sim::choose(1000); double s = humoto::convertMillisecondToSecond(ms), part = sim::num(-0.49, 0.49), eps = 1e-12 * (1 + ms);
        if (std::fabs(s - ms / 1000.0) > 1e-15 * ms) sim::fail("wrong-units", "%zu ms are %.17g s", ms, s); if (humoto::convertSecondToMillisecond(s) != ms) sim::fail("wrong-units", "%zu ms are %zu ms after conversion to seconds and back", ms, humoto::convertSecondToMillisecond(s));
        double x = (ms + part) / 1000.0; if (x >= 0 && humoto::convertSecondToMillisecond(x) != ms) sim::fail("wrong-units", "%.17g s are rounded to %zu ms", x, humoto::convertSecondToMillisecond(x));
        if (x >= 0) { double t = (double)humoto::truncateSecondToMillisecond(x); if (t > x * 1000 + eps || t <= x * 1000 - 1 - eps) sim::fail("wrong-units", "%.17g s are truncated to %g ms", x, t); }
    }
    void c19()
    {
        if (sim::chance(1, 4)) units();
        sched::Config c; c.gap = 0; sched::begin(c);
        sched::stepWallUs((int64_t)(sim::choose(4) == 0 ? 0 : sim::choose(1000000000)) * 1000 - (int64_t)sim::choose(1000000));
        if (sim::chance(1, 8)) { sched::stepWallUs(((int64_t)1 << 31) * 1000000 - (int64_t)sched::wallUs() - sim::range(0, 2000000)); sim::count("fault:clock near 2038"); }
        std::vector<humoto::Timer> t(1); std::vector<int64_t> start(1, (int64_t)sched::wallUs()); std::vector<double> value(1, 0.0); std::vector<bool> stopped(1, false);
        int ops = sim::range(2, 30);
        for (int k = 0; k < ops; ++k)
        {
            size_t i = sim::choose(t.size()); sim::step();
            uint64_t d = 0;
            switch (sim::choose(7))
            {
                case 0: d = sim::choose(1000000); break;
                case 1: d = sim::choose(20); break;
                case 2: { uint64_t r = 1000000 - sched::wallUs() % 1000000; d = r + sim::choose(3); if (sim::choose(2) && d > 0) --d; break; }     // around a second boundary
                case 3: d = 1000000ull * sim::choose(100000); break;
                case 4: d = (uint64_t)sim::choose(2000000000) * 3; break;
                default: break;
            }
            sched::advanceUs(d); sim::simTime(d * 1e-6);
            if (sim::chance(1, 8)) { int64_t j = (int64_t)sim::choose(5000000) - 2500000; if (sim::chance(1, 4)) j *= 1000; sched::stepWallUs(j); sim::count(j < 0 ? "fault:clock_jumps_back" : "fault:clock_jumps_forward"); sim::event("clock jumps by %lld us", (long long)j); }
            int64_t now = (int64_t)sched::wallUs();
            switch (sim::choose(6))
            {
                case 0: t[i].start(); start[i] = now; sim::event("timer %zu: start", i); break;
                case 1: if (t.size() < 4) { t.push_back(humoto::Timer()); start.push_back(now); value.push_back(0); stopped.push_back(false); sim::event("timer %zu: created", t.size() - 1); } break;
                case 2: { humoto::Timer copy = t[i]; t.push_back(copy); start.push_back(start[i]); value.push_back(value[i]); stopped.push_back(stopped[i]); if (t.size() > 4) { t.pop_back(); start.pop_back(); value.pop_back(); stopped.pop_back(); } break; }
                default:
                {
                    double r = t[i].stop(); value[i] = (now - start[i]) * 1e-6; stopped[i] = true; sim::event("timer %zu: stop, %lld us", i, (long long)(now - start[i]));
                    if (std::fabs(r - value[i]) > 1e-8 + 1e-14 * std::fabs(value[i])) sim::fail("wrong-duration", "%.7f s instead of %.7f s", r, value[i]);
                    sim::nontrivial(); sim::state(sim::mix(now % 1000000 < start[i] % 1000000, (now / 1000000 - start[i] / 1000000) > 2 ? 3 : (now / 1000000 - start[i] / 1000000)));
                }
            }
            double g = t[i].get(); if (std::fabs(g - value[i]) > 1e-8 + 1e-14 * std::fabs(value[i])) sim::fail("wrong-duration", "get() returns %.7f s instead of %.7f s", g, value[i]);
            std::ostringstream o; o.precision(3 + k % 3); auto fl = o.flags(); o << t[i]; std::string s = o.str(); size_t p = s.find("= ");
            if (p == std::string::npos || std::fabs(std::strtod(s.c_str() + p + 2, 0) - value[i]) > 1e-6 + 1e-12 * std::fabs(value[i])) sim::failStr("wrong-output", "printed '" + s + "' for " + std::to_string(value[i]) + " s");
            if (o.precision() != 3 + k % 3 || o.flags() != fl) sim::fail("stream-changed", "printing the timer changed the settings of the stream");
        }
        sim::sample("%d operations on %zu timers", ops, t.size());
        sched::end();
    }
    sim::Scenario s19("C19", "timers started and stopped at random instants of a simulated clock that jumps, stalls and crosses second boundaries", c19);
}
