// Minimal stand-in for glog: enough to compile the runtime's token parser.
#ifndef VERIF_GLOG_STUB_H_
#define VERIF_GLOG_STUB_H_
#include <cstdlib>
#include <iostream>
namespace verif_glog {
struct Fatal {
  bool on;
  explicit Fatal(bool enabled) : on(enabled) {}
  ~Fatal() { if (on) std::abort(); }
  template <class T> Fatal& operator<<(const T& value) { if (on) std::cerr << value; return *this; }
};
}  // namespace verif_glog
enum { INFO = 0, WARNING = 0, ERROR = 0, FATAL = 1 };
#define LOG(severity) verif_glog::Fatal((severity) == FATAL)
#define CHECK(condition) verif_glog::Fatal(!(condition))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#endif  // VERIF_GLOG_STUB_H_
