// The machines of the repository, asked for the next state of every (state, transition). Built with -fno-access-control.
#include "drv.h"
#if MACHINE == 0
#include TEST_USM
using S = TestStates;
static std::map<std::string, S> ST = {{"START", START}, {"PATH_A_1", PATH_A_1}, {"PATH_A_2", PATH_A_2}, {"END", END}, {"PATH_B_1", PATH_B_1}, {"PATH_B_2", PATH_B_2}, {"PATH_B_3", PATH_B_3}, {"CLEANUP", CLEANUP}};
static TestStateMachine machine;
#elif MACHINE == 1
#include "local_planner/waypoint_generator.h"
using S = avoidance::PlannerState;
static std::map<std::string, S> ST = {{"TRY_PATH", S::TRY_PATH}, {"ALTITUDE_CHANGE", S::ALTITUDE_CHANGE}, {"LOITER", S::LOITER}, {"DIRECT", S::DIRECT}};
static avoidance::WaypointGenerator machine;
#else
#include "safe_landing_planner/waypoint_generator.hpp"
using S = avoidance::SLPState;
static std::map<std::string, S> ST = {{"GOTO", S::GOTO}, {"LOITER", S::LOITER}, {"EVALUATE_GRID", S::EVALUATE_GRID}, {"GOTO_LAND", S::GOTO_LAND}, {"ALTITUDE_CHANGE", S::ALTITUDE_CHANGE}, {"LAND", S::LAND}};
static avoidance::WaypointGenerator machine;
#endif
using namespace drv;
static std::map<std::string, usm::Transition> T = {{"NEXT1", usm::Transition::NEXT1}, {"NEXT2", usm::Transition::NEXT2}, {"NEXT3", usm::Transition::NEXT3}, {"NEXT4", usm::Transition::NEXT4}, {"ERROR", usm::Transition::ERROR}};
int main(int argc, char** argv) {
  return run(argc, argv, [] {}, [](const std::string& op, Args& a) {
    if (op == "table") return;
    for (auto& s : ST)
      for (auto& t : T) {
        S n = machine.chooseNextState(s.second, t.second);
        std::string to = "?";
        for (auto& x : ST) if (x.second == n) to = x.first;
        out()(J("step").s("s", s.first).s("t", t.first).s("to", to).b("may", s.first == "END"));
      }
  });
}
