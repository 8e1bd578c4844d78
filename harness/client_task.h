// A task of the client of a controller, which fails when the simulation wants it to.
#pragma once
#include "harness/control.h"
namespace client
{
    class Task : public humoto::TaskZeroVariables
    {
        public:
            bool armed = false, fired = false; uint64_t fail_in = 0;      // 0: fails at once, 1: after its equations are set, 2: while it guesses the active set
            explicit Task(double gain = 1e-2) : humoto::TaskZeroVariables(gain, "ClientTask") {}
            void form(const humoto::SolutionStructure& s, const humoto::Model& m, const humoto::ControlProblem& p)
            {
                if (armed && fail_in == 0) { fired = true; throw control::ClientError(); }
                humoto::TaskZeroVariables::form(s, m, p);
                if (armed && fail_in == 1) { fired = true; throw control::ClientError(); }
            }
            void guessActiveSet(const humoto::SolutionStructure& s, const humoto::Model& m, const humoto::ControlProblem& p)
            {
                if (armed && fail_in == 2) { fired = true; throw control::ClientError(); }
                humoto::TaskZeroVariables::guessActiveSet(s, m, p);
            }
    };
}
namespace control
{
    // injects a fault into an iteration while in scope
    struct Arm
    {
        Fault* f; client::Task* probe;
        Arm(Fault* f_, client::Task* p) : f(f_), probe(p)
        {
            if (probe) probe->armed = false; if (!f) return;
            if (f->kind == Fault::ALLOC) faults::allocArmNew(f->at);
            if (f->kind == Fault::SOLVER) { qpcore::control().fail_at = qpcore::control().calls + 1; qpcore::control().fail_status = (int)f->at; }
            if (f->kind == Fault::TASK && probe) { probe->armed = true; probe->fail_in = f->at; probe->fired = false; }
        }
        void solving() { if (f && f->kind == Fault::SOLVER) f->fired = true; }
        ~Arm()
        {
            if (!f) return;
            if (f->kind == Fault::ALLOC && faults::allocDisarm()) f->fired = true;
            if (f->kind == Fault::SOLVER) qpcore::control().fail_at = -1;
            if (f->kind == Fault::TASK && probe) { f->fired = probe->fired; probe->armed = false; }
        }
    };
}
