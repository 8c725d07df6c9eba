// Stand-in for Elements::Logging: swallows messages (but still formats them, so that the
// operands are evaluated under the sanitizers).
#ifndef VP_SHIM_ELEMENTS_LOGGING_H
#define VP_SHIM_ELEMENTS_LOGGING_H
#include <sstream>
#include <string>
namespace Elements {
class Logging {
public:
  static Logging getLogger(const std::string& = "") { return Logging{}; }
  struct Message {
    std::ostringstream s;
    Message() = default;
    Message(Message&& o) : s(std::move(o.s)) {}
    template <typename T> Message& operator<<(const T& v) { s << v; return *this; }
  };
  Message debug() { return Message{}; }
  Message info() { return Message{}; }
  Message warn() { return Message{}; }
  Message error() { return Message{}; }
  Message fatal() { return Message{}; }
  void debug(const std::string&) {}
  void info(const std::string&) {}
  void warn(const std::string&) {}
  void error(const std::string&) {}
  void fatal(const std::string&) {}
};
}  // namespace Elements
#endif
