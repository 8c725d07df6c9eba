// Minimal stand-in for the Elements framework's Exception (same observable interface:
// default/string/printf-format construction, message streaming that keeps the dynamic type).
#ifndef VP_SHIM_ELEMENTS_EXCEPTION_H
#define VP_SHIM_ELEMENTS_EXCEPTION_H
#include <cstdio>
#include <exception>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "ElementsKernel/Export.h"
namespace Elements {
enum class ExitCode : int { OK = 0, NOT_OK = 1, USAGE = 64, DATAERR = 65, NOINPUT = 66, SOFTWARE = 70, IOERR = 74, CONFIG = 78 };
class Exception : public std::exception {
public:
  explicit Exception(ExitCode e = ExitCode::NOT_OK) : m_exit(e) {}
  explicit Exception(std::string msg, ExitCode e = ExitCode::NOT_OK) : m_msg(std::move(msg)), m_exit(e) {}
  explicit Exception(const char* msg, ExitCode e = ExitCode::NOT_OK) : m_msg(msg), m_exit(e) {}
  template <typename A, typename... Args, typename = typename std::enable_if<!std::is_same<typename std::decay<A>::type, ExitCode>::value>::type>
  explicit Exception(const char* fmt, A&& a, Args&&... args) : m_exit(ExitCode::NOT_OK) {
    int               n = std::snprintf(nullptr, 0, fmt, a, args...);
    std::vector<char> b(n > 0 ? n + 1 : 1);
    std::snprintf(b.data(), b.size(), fmt, a, args...);
    m_msg.assign(b.data());
  }
  Exception(const Exception&) = default;
  Exception(Exception&&)      = default;
  virtual ~Exception() noexcept = default;
  const char* what() const noexcept override { return m_msg.c_str(); }
  ExitCode    exitCode() const noexcept { return m_exit; }
  void        appendMessage(const std::string& m) { m_msg += m; }
protected:
  std::string m_msg;
  ExitCode    m_exit;
};
template <typename Ex, typename T, typename = typename std::enable_if<std::is_base_of<Exception, typename std::decay<Ex>::type>::value>::type>
auto operator<<(Ex&& ex, const T& v) -> Ex&& {
  std::ostringstream s;
  s << v;
  ex.appendMessage(s.str());
  return std::forward<Ex>(ex);
}
}  // namespace Elements
#endif
