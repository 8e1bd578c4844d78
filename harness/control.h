// A simulated controller process: one of humoto's model predictive controllers in closed loop with its own plant.
#pragma once
#include "sim/sim.h"
#include "sim/faults.h"
#include "stubs/qpcore.h"
#include "harness/mlog.h"
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>
namespace control
{
    // what is injected into one iteration of a controller
    struct Fault
    {
        enum Kind { NONE, ALLOC, SOLVER, TASK } kind = NONE;
        uint64_t at = 0;         // ALLOC: which allocation, SOLVER: status, TASK: which task of the hierarchy
        bool fired = false;
    };
    struct ClientError : std::runtime_error { ClientError() : std::runtime_error("a task of the client failed") {} };

    // An iteration may fail because the limits cannot be met: then it is the back end that says so. Nothing else may go wrong.
    struct Excuse
    {
        uint64_t before = qpcore::control().calls;
        bool solver() const { return qpcore::control().calls > before && qpcore::control().last_status != qpcore::OK; }
    };
    struct Controller
    {
        virtual ~Controller() {}
        // one iteration: false when the controller has stopped.  Nothing of the client's state changes if it throws.
        virtual bool iterate() = 0;
        // the steps before the commit, with a fault; what the client persists does not change
        virtual bool attempt(Fault& f) = 0;
        // an iteration in steps: update, form, solve, extract, commit; false when the controller has stopped
        enum { STEPS = 5 };
        virtual bool phase(int k) = 0;
        // everything an application sees: the state, the solution, the prediction
        virtual std::vector<double> observe() = 0;
        virtual void save(const std::string& dir) = 0;     // what a process persists
        virtual void load(const std::string& dir) = 0;     // into a fresh process
        virtual void push(double vx, double vy) = 0;       // disturbance
        virtual void command(int k) = 0;                   // change of commands by the user
        virtual std::string describe() = 0;
        virtual double period() = 0;
        // records everything an application may record, and what has to be found there
        virtual void logTo(std::ostream& out, const mlog::Names& n) = 0;
        virtual void logExpected(const mlog::Entries& got, mlog::Expect& e, const mlog::Names& n) = 0;
    };
    typedef std::shared_ptr<Controller> Ptr;
    // the configuration of a controller can be reused to start a twin of it
    struct Factory { virtual ~Factory() {} virtual Ptr start() = 0; };
    std::shared_ptr<Factory> drawWpg(bool small);
    std::shared_ptr<Factory> drawPepper(bool small);
    inline std::shared_ptr<Factory> draw(bool small) { return sim::choose(2) ? drawPepper(small) : drawWpg(small); }
}
