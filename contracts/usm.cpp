// Contract of usm::StateMachine (avoidance/include/avoidance/usm.h)
#include "vc.h"
#include <avoidance/include/avoidance/usm.h>
using namespace usm;

enum class S { A, B, C, D, ERR };

// a machine whose state handler and transition choice are arbitrary, and observed
struct M : StateMachine<S> {
  int runs = 0, chooses = 0;
  Transition ran = Transition::REPEAT, given = Transition::REPEAT;
  S from = S::A, to = S::A, at = S::A;
  M(S s) : StateMachine<S>(s) {}
  Transition runCurrentState() override {
    runs++;
    at = getState();
    ran = static_cast<Transition>(vc::i32("transition", 0, 5));
    return ran;
  }
  S chooseNextState(S cur, Transition t) override {
    chooses++;
    from = cur; given = t;
    to = static_cast<S>(vc::i32("next", 0, 4));
    return to;
  }
};

HARNESS(usm_iterate) {
  S s0 = static_cast<S>(vc::i32("start", 0, 4));
  M m(s0);
  ENSURES("the machine starts in the given state", m.getState() == s0);
  m.iterateOnce();
  ENSURES("one iteration runs the current state exactly once", m.runs == 1 && m.at == s0);
  if (m.ran == Transition::REPEAT) {
    ENSURES("REPEAT keeps the state and consults no transition", m.chooses == 0 && m.getState() == s0);
  } else {
    ENSURES("any other outcome consults the table once, with the current state and that outcome", m.chooses == 1 && m.from == s0 && m.given == m.ran);
    ENSURES("the machine moves to the state the table chose", m.getState() == m.to);
  }
  S s1 = m.getState();
  int c1 = m.chooses;
  m.iterateOnce();
  ENSURES("the next iteration runs the state that was entered", m.runs == 2 && m.at == s1 && m.chooses - c1 == (m.ran == Transition::REPEAT ? 0 : 1));
}

static S table(S s, Transition t) {
  // clang-format off
  USM_TABLE(s, S::ERR,
    USM_STATE(t, S::A, USM_MAP(Transition::NEXT1, S::B); USM_MAP(Transition::ERROR, S::D));
    USM_STATE(t, S::B, USM_MAP(Transition::NEXT1, S::C); USM_MAP(Transition::NEXT2, S::A));
    USM_STATE(t, S::C, USM_MAP(Transition::NEXT4, S::A)));
  // clang-format on
}
HARNESS(usm_table) {
  S s = static_cast<S>(vc::i32("s", 0, 4));
  Transition t = static_cast<Transition>(vc::i32("t", 0, 5));
  S want = S::ERR;
  if (s == S::A && t == Transition::NEXT1) want = S::B;
  if (s == S::A && t == Transition::ERROR) want = S::D;
  if (s == S::B && t == Transition::NEXT1) want = S::C;
  if (s == S::B && t == Transition::NEXT2) want = S::A;
  if (s == S::C && t == Transition::NEXT4) want = S::A;
  ENSURES("the table maps exactly the listed pairs and sends every other pair to the error state", table(s, t) == want);
}
