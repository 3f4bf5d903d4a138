#ifndef SHIM_CLIENT_STATE_H
#define SHIM_CLIENT_STATE_H
#include <string>
namespace actionlib
{
class SimpleClientGoalState
{
public:
  enum StateEnum
  {
    PENDING,
    ACTIVE,
    RECALLED,
    REJECTED,
    PREEMPTED,
    ABORTED,
    SUCCEEDED,
    LOST
  };
  StateEnum state_;
  std::string text_;
  SimpleClientGoalState(const StateEnum& s, const std::string& t = "")
    : state_(s)
    , text_(t)
  {
  }
  bool operator==(const SimpleClientGoalState& o) const
  {
    return state_ == o.state_;
  }
  bool operator==(const StateEnum& o) const
  {
    return state_ == o;
  }
  bool operator!=(const SimpleClientGoalState& o) const
  {
    return state_ != o.state_;
  }
  bool operator!=(const StateEnum& o) const
  {
    return state_ != o;
  }
  bool isDone() const
  {
    return state_ >= RECALLED;
  }
  std::string getText() const
  {
    return text_;
  }
  std::string toString() const
  {
    static const char* const n[] = {"PENDING", "ACTIVE", "RECALLED", "REJECTED", "PREEMPTED", "ABORTED", "SUCCEEDED", "LOST"};
    return n[state_];
  }
};
}  // namespace actionlib
#endif
