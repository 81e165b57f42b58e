// Observation of the library: sources, sinks, canonical forms of what a caller sees, comparison with the model.
#pragma once
#include "model.hpp"
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/properties.hpp>
#include <cppsas7bdat/filter/column.hpp>
#include <memory>
#include <optional>

namespace obs {
using cppsas7bdat::Column;
using cppsas7bdat::COLUMNS;
using cppsas7bdat::Properties;
using cppsas7bdat::Reader;

// In-memory source that behaves like std::ifstream: a short read supplies what there is, fails and raises eof
struct MemSource {
  const std::string *data;
  size_t pos{0};
  bool at_end{false};
  explicit MemSource(const std::string &d) : data(&d) {}
  bool eof() { return at_end; }
  bool read_bytes(void *p, const size_t n) {
    if (at_end)
      return false;
    const size_t k = std::min(n, data->size() - pos);
    if (k)
      memcpy(p, data->data() + pos, k);
    pos += k;
    if (k < n)
      at_end = true;
    return !at_end;
  }
};

constexpr int64_t INF_P = INT64_MAX, INF_M = INT64_MIN + 1;
struct CellObs {
  std::string str;
  uint64_t num{0};
  int32_t i{0};
  int64_t dt{0}, day{0}, time{0};
  bool operator==(const CellObs &o) const { return str == o.str && num == o.num && i == o.i && dt == o.dt && day == o.day && time == o.time; }
  std::string show() const;
};
int64_t us_of(const cppsas7bdat::DATETIME &);
int64_t day_of(const cppsas7bdat::DATE &);
int64_t us_of(const cppsas7bdat::TIME &);
CellObs observe(const Column &c, Column::PBUF p);

struct RowObs {
  size_t index{0};
  std::vector<CellObs> cells;
  bool operator==(const RowObs &o) const { return index == o.index && cells == o.cells; }
};
RowObs observe_row(const COLUMNS &cols, size_t index, Column::PBUF p);

struct Log {
  int n_props{0}, n_end{0};
  std::vector<RowObs> rows;
  std::vector<std::string> events;
  std::optional<Properties> props;
};
struct RecSink {
  Log *log;
  COLUMNS columns;
  explicit RecSink(Log &l) : log(&l) {}
  void set_properties(const Properties &p);
  void push_row(size_t irow, Column::PBUF p);
  void end_of_data();
};

// "" when equal to the model, else what differs
std::string check_cell(const model::Dataset &d, const model::Col &c, const model::Cell &cell, const CellObs &o);
std::string check_row(const model::Dataset &d, size_t irow, const RowObs &o, const std::vector<size_t> *cols = nullptr);
// all rows, each once, in order
std::string check_rows(const model::Dataset &d, const std::vector<RowObs> &rows, const std::vector<size_t> *cols = nullptr, size_t from = 0);
std::string check_header(const model::Dataset &d, const model::File &f, const Properties &p);
std::string check_schema(const model::Dataset &d, const model::File &f, const Properties &p, const std::vector<size_t> *cols = nullptr);
cppsas7bdat::Column::Type type_of(model::Ty t);

// reads everything through a recording sink
void read_all(const std::string &bytes, Log &log);
std::string show_rows(const std::vector<RowObs> &rows, size_t max = 3);
std::string show_props(const Properties &p); // every reported property, one line each
inline void require(const std::string &msg) {
  if (!msg.empty())
    throw eng::Fail{msg};
}
} // namespace obs
