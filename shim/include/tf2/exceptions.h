#ifndef SHIM_TF2_EXC_H
#define SHIM_TF2_EXC_H
#include <stdexcept>
#include <string>
namespace tf2
{
class TransformException : public std::runtime_error
{
public:
  explicit TransformException(const std::string e)
    : std::runtime_error(e)
  {
  }
};
#define SHIM_TF2_EXC(N)                  \
  class N : public TransformException    \
  {                                      \
  public:                                \
    explicit N(const std::string e)      \
      : TransformException(e)            \
    {                                    \
    }                                    \
  };
SHIM_TF2_EXC(ConnectivityException)
SHIM_TF2_EXC(LookupException)
SHIM_TF2_EXC(ExtrapolationException)
SHIM_TF2_EXC(InvalidArgumentException)
SHIM_TF2_EXC(TimeoutException)
}  // namespace tf2
#endif
