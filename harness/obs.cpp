#include "obs.hpp"

namespace obs {
using eng::hex;
using eng::strf;
using model::Ty;

static const cppsas7bdat::DATE EPOCH_D(1960, 1, 1);

int64_t us_of(const cppsas7bdat::TIME &t) {
  if (t.is_special())
    return t.is_pos_infinity() ? INF_P : t.is_neg_infinity() ? INF_M : model::NAT;
  return t.total_microseconds();
}
int64_t us_of(const cppsas7bdat::DATETIME &t) {
  static const cppsas7bdat::DATETIME epoch(EPOCH_D);
  if (t.is_special())
    return t.is_pos_infinity() ? INF_P : t.is_neg_infinity() ? INF_M : model::NAT;
  // through the calendar fields: valid whatever the internal representation is
  const auto d = t.date();
  return model::days_from_civil(static_cast<int>(d.year()), static_cast<unsigned>(d.month()), static_cast<unsigned>(d.day())) * 86400000000ll + us_of(t.time_of_day());
}
int64_t day_of(const cppsas7bdat::DATE &d) {
  if (d.is_special())
    return d.is_pos_infinity() ? INF_P : d.is_neg_infinity() ? INF_M : model::NAT;
  return model::days_from_civil(static_cast<int>(d.year()), static_cast<unsigned>(d.month()), static_cast<unsigned>(d.day()));
}
CellObs observe(const Column &c, Column::PBUF p) {
  CellObs o;
  const auto sv = c.get_string(p);
  if (!sv.empty())
    o.str.assign(sv.data(), sv.size());
  const double x = c.get_number(p);
  memcpy(&o.num, &x, 8);
  o.i = c.get_integer(p);
  o.dt = us_of(c.get_datetime(p));
  o.day = day_of(c.get_date(p));
  o.time = us_of(c.get_time(p));
  return o;
}
static std::string show_i(int64_t x) {
  if (x == model::NAT)
    return "none";
  if (x == INF_P)
    return "+inf";
  if (x == INF_M)
    return "-inf";
  return std::to_string(x);
}
std::string CellObs::show() const {
  double d;
  memcpy(&d, &num, 8);
  return strf("{text=%s number=%016llx(%.17g) int=%d datetime=%s date=%s time=%s}", hex(str, 40).c_str(), static_cast<unsigned long long>(num), d, i, show_i(dt).c_str(), show_i(day).c_str(), show_i(time).c_str());
}
RowObs observe_row(const COLUMNS &cols, size_t index, Column::PBUF p) {
  RowObs r;
  r.index = index;
  r.cells.reserve(cols.size());
  for (auto &c : cols)
    r.cells.push_back(observe(c, p));
  return r;
}
void RecSink::set_properties(const Properties &p) {
  ++log->n_props;
  log->events.push_back("P");
  log->props.emplace(p);
  columns = COLUMNS(p.columns);
}
void RecSink::push_row(size_t irow, Column::PBUF p) {
  log->events.push_back("R" + std::to_string(irow));
  log->rows.push_back(observe_row(columns, irow, p));
}
void RecSink::end_of_data() {
  ++log->n_end;
  log->events.push_back("E");
}

static bool is_space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool nan_bits(uint64_t b) { return (b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (b & 0xfffffffffffffull); }

std::string check_cell(const model::Dataset &, const model::Col &c, const model::Cell &cell, const CellObs &o) {
  std::string e_str;
  bool num_nan = false;
  uint64_t e_num = 0;
  int32_t e_i = 0;
  model::Instant dt, tm;
  model::Day day;
  double v = 0;
  memcpy(&v, &cell.bits, 8);
  switch (c.ty) {
  case Ty::Str: {
    size_t n = cell.str.size();
    while (n && (cell.str[n - 1] == 0 || is_space(static_cast<unsigned char>(cell.str[n - 1]))))
      --n;
    e_str = cell.str.substr(0, n);
    num_nan = true;
    break;
  }
  case Ty::Int1:
  case Ty::Int2: {
    e_i = cell.i;
    const double x = cell.i;
    memcpy(&e_num, &x, 8);
    break;
  }
  case Ty::Num:
    e_num = cell.bits;
    break;
  case Ty::DateTime:
    e_num = cell.bits;
    dt = model::expect_datetime(v);
    break;
  case Ty::Date:
    e_num = cell.bits;
    day = model::expect_date(v);
    break;
  case Ty::Time:
    e_num = cell.bits;
    tm = model::expect_time(v);
    break;
  }
  auto bad = [&](const std::string &what) { return "column '" + c.name + "' (" + model::ty_name(c.ty) + strf(", stored width %zu at offset %zu): %s; got ", c.width, c.offset, what.c_str()) + o.show(); };
  if (o.str != e_str)
    return bad("text should be " + hex(e_str));
  if (num_nan ? !nan_bits(o.num) : o.num != e_num)
    return bad(num_nan ? "number should be NaN" : strf("number should be %016llx", static_cast<unsigned long long>(e_num)));
  if (o.i != e_i)
    return bad(strf("integer should be %d", e_i));
  constexpr int64_t DAYUS = 86400000000ll;
  auto fdiv = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
  if (c.ty == Ty::DateTime) {
    if (o.dt != dt.us && o.dt != dt.alt)
      return bad("date-time should be " + show_i(dt.us));
    const int64_t ed = o.dt == model::NAT ? model::NAT : fdiv(o.dt, DAYUS);
    const int64_t et = o.dt == model::NAT ? model::NAT : o.dt - ed * DAYUS;
    if (o.day != ed || o.time != et)
      return bad("date and time of day do not agree with the date-time");
  } else if (c.ty == Ty::Date) {
    if (o.day != day.day && o.day != day.alt)
      return bad("date should be " + show_i(day.day));
    if (o.day == model::NAT ? o.dt != model::NAT : o.dt != o.day * DAYUS)
      return bad("date-time of a date should be its midnight");
    if (o.time != 0 && !(o.day == model::NAT && o.time == model::NAT))
      return bad("time of day of a date should be midnight");
  } else if (c.ty == Ty::Time) {
    if (o.time != tm.us && o.time != tm.alt)
      return bad("time should be " + show_i(tm.us));
    if (o.dt != model::NAT || o.day != model::NAT)
      return bad("a time has no date");
  } else if (o.dt != model::NAT || o.day != model::NAT || o.time != model::NAT)
    return bad("date-time, date and time should be not-a-date-time");
  return {};
}
std::string check_row(const model::Dataset &d, size_t irow, const RowObs &o, const std::vector<size_t> *cols) {
  const size_t n = cols ? cols->size() : d.cols.size();
  if (o.cells.size() != n)
    return strf("row %zu: %zu cells instead of %zu", irow, o.cells.size(), n);
  for (size_t k = 0; k < n; ++k) {
    const size_t i = cols ? (*cols)[k] : k;
    const auto m = check_cell(d, d.cols[i], d.rows[irow][i], o.cells[k]);
    if (!m.empty())
      return strf("row %zu, ", irow) + m;
  }
  return {};
}
std::string check_rows(const model::Dataset &d, const std::vector<RowObs> &rows, const std::vector<size_t> *cols, size_t from) {
  for (size_t i = 0; i < rows.size(); ++i) {
    if (from + i >= d.rows.size())
      return strf("%zu rows delivered, the file holds %zu", from + rows.size(), d.rows.size());
    if (rows[i].index != from + i)
      return strf("row number %zu delivered as row %zu", from + i, rows[i].index);
    const auto m = check_row(d, from + i, rows[i], cols);
    if (!m.empty())
      return m;
  }
  if (from + rows.size() != d.rows.size())
    return strf("%zu rows delivered, the file holds %zu", from + rows.size(), d.rows.size());
  return {};
}
Column::Type type_of(Ty t) {
  switch (t) {
  case Ty::Str: return Column::Type::string;
  case Ty::Num: return Column::Type::number;
  case Ty::Int1:
  case Ty::Int2: return Column::Type::integer;
  case Ty::DateTime: return Column::Type::datetime;
  case Ty::Date: return Column::Type::date;
  case Ty::Time: return Column::Type::time;
  }
  return Column::Type::unknown;
}
static std::string trim(std::string x) {
  while (!x.empty() && is_space(static_cast<unsigned char>(x.front())))
    x.erase(x.begin());
  while (!x.empty() && (x.back() == 0 || is_space(static_cast<unsigned char>(x.back()))))
    x.pop_back();
  return x;
}
std::string check_header(const model::Dataset &d, const model::File &f, const Properties &p) {
  const auto &h = d.h;
#define EXPECT(WHAT, GOT, WANT)                                                                                                                                                                                                                                                                                                \
  if (!((GOT) == (WANT)))                                                                                                                                                                                                                                                                                                      \
  return std::string(WHAT " differs")
#define EXPECT_S(WHAT, GOT, WANT)                                                                                                                                                                                                                                                                                              \
  if ((GOT) != (WANT))                                                                                                                                                                                                                                                                                                         \
  return std::string(WHAT " is '") + (GOT) + "' instead of '" + (WANT) + "'"
#define EXPECT_N(WHAT, GOT, WANT)                                                                                                                                                                                                                                                                                              \
  if (static_cast<unsigned long long>(GOT) != static_cast<unsigned long long>(WANT))                                                                                                                                                                                                                                           \
  return strf(WHAT " is %llu instead of %llu", static_cast<unsigned long long>(GOT), static_cast<unsigned long long>(WANT))
  EXPECT("byte order", p.endianness, d.big ? cppsas7bdat::Endian::big : cppsas7bdat::Endian::little);
  EXPECT("word size", p.format, d.w64 ? cppsas7bdat::Format::bit64 : cppsas7bdat::Format::bit32);
  EXPECT("platform", p.platform, h.platform == '1' ? cppsas7bdat::Platform::unix : h.platform == '2' ? cppsas7bdat::Platform::windows : cppsas7bdat::Platform::unknown);
  EXPECT_S("encoding", p.encoding, std::string(model::encoding_name(h.encoding)));
  EXPECT_S("dataset name", p.dataset_name, trim(h.dataset_name));
  EXPECT_S("file type", p.file_type, trim(h.file_type));
  auto dt = [&](const char *what, const cppsas7bdat::DATETIME &got, double v) -> std::string {
    const auto e = model::expect_datetime(v);
    const auto g = us_of(got);
    if (g != e.us && g != e.alt)
      return strf("%s is %s instead of %s", what, show_i(g).c_str(), show_i(e.us).c_str());
    return {};
  };
  if (auto m = dt("creation date", p.date_created, h.created); !m.empty())
    return m;
  if (auto m = dt("modification date", p.date_modified, h.modified); !m.empty())
    return m;
  EXPECT_S("release", p.sas_release, trim(h.release));
  EXPECT_S("server type", p.sas_server_type, trim(h.server_type));
  EXPECT_S("OS type", p.os_type, trim(h.os_type));
  EXPECT_S("OS name", p.os_name, trim(h.os_name.empty() ? h.os_maker : h.os_name));
  EXPECT_N("header length", p.header_length, f.header_length);
  EXPECT_N("page length", p.page_length, f.page_length);
  return {};
}
std::string check_schema(const model::Dataset &d, const model::File &f, const Properties &p, const std::vector<size_t> *cols) {
  EXPECT("compression", p.compression, d.comp == model::Comp::RLE ? cppsas7bdat::Compression::RLE : d.comp == model::Comp::RDC ? cppsas7bdat::Compression::RDC : cppsas7bdat::Compression::none);
  EXPECT_N("row length", p.row_length, d.row_length);
  EXPECT_N("row count", p.row_count, d.rows.size());
  EXPECT_N("column count", p.column_count, d.cols.size());
  EXPECT_N("column count p1", p.col_count_p1, f.col_count_p1);
  EXPECT_N("column count p2", p.col_count_p2, f.col_count_p2);
  EXPECT_N("mixed page row count", p.mix_page_row_count, f.mix_page_row_count);
  EXPECT_N("lcs", p.lcs, f.lcs);
  EXPECT_N("lcp", p.lcp, f.lcp);
  EXPECT_S("creator", p.creator, f.creator);
  EXPECT_S("creating procedure", p.creator_proc, f.creator_proc);
  const size_t n = cols ? cols->size() : d.cols.size();
  EXPECT_N("number of columns", p.columns.size(), n);
  for (size_t k = 0; k < n; ++k) {
    const auto &c = d.cols[cols ? (*cols)[k] : k];
    const auto &g = p.columns[k];
    auto at = [&](const char *what, const std::string &got, const std::string &want) { return strf("column #%zu: %s is '%s' (%s) instead of '%s' (%s)", k, what, got.c_str(), hex(got).c_str(), want.c_str(), hex(want).c_str()); };
    if (g.name != c.name)
      return at("name", g.name, c.name);
    if (g.label != c.label)
      return at("label", g.label, c.label);
    if (g.format != c.format)
      return at("format", g.format, c.format);
    if (g.length() != c.width)
      return at("length", std::to_string(g.length()), std::to_string(c.width));
    if (g.type != type_of(c.ty))
      return at("type", std::string(cppsas7bdat::to_string(g.type)), model::ty_name(c.ty)) + " (format '" + c.format + "')";
  }
  return {};
}
void read_all(const std::string &bytes, Log &log) {
  Reader r{MemSource(bytes), RecSink(log)};
  r.read_all();
}
std::string show_rows(const std::vector<RowObs> &rows, size_t max) {
  std::string s;
  for (size_t i = 0; i < rows.size() && i < max; ++i) {
    s += strf("#%zu:", rows[i].index);
    for (size_t k = 0; k < rows[i].cells.size() && k < 4; ++k)
      s += " " + rows[i].cells[k].show();
    s += "; ";
  }
  return s;
}
std::string show_props(const Properties &p) {
  std::string s;
  auto add = [&](const char *k, const std::string &v) { s += std::string(k) + "=" + hex(v, 1000) + "\n"; };
  auto num = [&](const char *k, long long v) { s += std::string(k) + "=" + std::to_string(v) + "\n"; };
  num("format", static_cast<int>(p.format));
  num("endian", static_cast<int>(p.endianness));
  num("platform", static_cast<int>(p.platform));
  num("created", us_of(p.date_created));
  num("modified", us_of(p.date_modified));
  add("dataset_name", p.dataset_name);
  add("encoding", p.encoding);
  add("file_type", p.file_type);
  add("sas_release", p.sas_release);
  add("server", p.sas_server_type);
  add("os_type", p.os_type);
  add("os_name", p.os_name);
  num("header_length", static_cast<long long>(p.header_length));
  num("page_length", static_cast<long long>(p.page_length));
  num("page_count", static_cast<long long>(p.page_count));
  num("compression", static_cast<int>(p.compression));
  add("creator", p.creator);
  add("creator_proc", p.creator_proc);
  num("row_length", static_cast<long long>(p.row_length));
  num("row_count", static_cast<long long>(p.row_count));
  num("column_count", static_cast<long long>(p.column_count));
  num("p1", static_cast<long long>(p.col_count_p1));
  num("p2", static_cast<long long>(p.col_count_p2));
  num("mix", static_cast<long long>(p.mix_page_row_count));
  num("lcs", static_cast<long long>(p.lcs));
  num("lcp", static_cast<long long>(p.lcp));
  for (auto &c : p.columns)
    s += "column " + hex(c.name, 1000) + "|" + hex(c.label, 1000) + "|" + hex(c.format, 1000) + "|" + std::to_string(static_cast<int>(c.type)) + "|" + std::to_string(c.length()) + "\n";
  return s;
}
} // namespace obs
