// Everything a caller can do with a possibly damaged file, and what it sees
#pragma once
#include "common.hpp"
#include "mutate.hpp"

namespace props {
struct Op {
  unsigned kind;
  size_t amount;
};
struct UsePlan {
  unsigned sink{0};   // 0: recording, 1: csv, 2: print, 3: null
  unsigned filter{0}; // 0: all, 1: every second column, 2: none
  std::vector<Op> ops;
};
UsePlan gen_plan(Src &s);
struct Seen {
  std::string text;           // all that was seen, one event per line
  size_t rows{0}, errors{0};
  bool opened{false}, rejected{false};
};
// Throws Fail when something else than an exception derived from std::exception comes out, or when a cell shows
// bytes from outside its row
Seen use_file(const std::string &bytes, const UsePlan &plan);
// a sink of the library (0 CSV, 1 text, else the null sink) behind an interface
struct AnySink {
  virtual ~AnySink() = default;
  virtual void set_properties(const Properties &p) = 0;
  virtual void push_row(size_t i, Column::PBUF p) = 0;
  virtual void end_of_data() = 0;
};
std::unique_ptr<AnySink> library_sink(unsigned kind, std::ostream &os);
} // namespace props
