// Stand-in for the (cosmetic) p-ranav/indicators library, which is not installed here.
// Every operation is a no-op: only the terminal progress bars of the chunker are stubbed.
#pragma once
#include <cstddef>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
namespace option {
template <int Tag> struct Any { template <typename... A> explicit Any(A&&...) {} };
using BarWidth = Any<0>; using Start = Any<1>; using End = Any<2>; using ForegroundColor = Any<3>;
using PrefixText = Any<4>; using PostfixText = Any<5>; using ShowElapsedTime = Any<6>;
using ShowRemainingTime = Any<7>; using MaxProgress = Any<8>; using FontStyles = Any<9>;
using Fill = Any<10>; using Lead = Any<11>; using Remainder = Any<12>; using ShowPercentage = Any<13>;
using Completed = Any<14>; using MinProgress = Any<15>; using ProgressType = Any<16>;
struct Stream { explicit Stream(std::ostream&) {} };
}  // namespace option
class Bar {
 public:
  template <typename... A> explicit Bar(A&&...) {}
  template <typename O> void set_option(O&&) {}
  template <typename P> void set_progress(P&&) {}
  void tick() {}
  size_t current() const { return 0; }
  bool is_completed() const { return false; }
  void mark_as_completed() {}
  void print_progress(bool = false) {}
};
using BlockProgressBar = Bar;
using ProgressBar = Bar;
inline void show_console_cursor(bool) {}
}  // namespace indicators
