// Reference text forms
#pragma once
#include "common.hpp"
#include <algorithm>

namespace props {
// RFC 4180: records of fields; msg says what is wrong
struct Csv {
  std::vector<std::vector<std::string>> records;
  std::string error;
};
Csv parse_csv(const std::string &text);
// "" when text is the CSV form of the given rows of d
std::string check_csv(const Dataset &d, const std::string &text, const std::vector<size_t> &rows, const std::vector<size_t> *cols = nullptr);
// texts acceptable for a cell (two near a rounding tie)
std::vector<std::string> cell_texts(const model::Col &c, const model::Cell &cell);
std::string iso_date(int64_t day);
std::string iso_time(int64_t us);
std::string trimmed(const std::string &stored); // character cell without trailing blanks and zeros
// microseconds since 1960 (or since midnight) denoted by "YYYY-MM-DD[ T]hh:mm:ss[.f]" with the month as a number or
// an English abbreviation; false when it is none
bool parse_instant(const std::string &t, bool date, bool time, int64_t &us);
// what the print sink writes before the rows
std::string print_header(const Properties &p);
} // namespace props
