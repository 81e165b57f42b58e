// C05, C06, C07, C09: header, schema, temporal values, filters
#include "common.hpp"
#include <cppsas7bdat/sink/null.hpp>
#include <cmath>
#include <cstring>
#include <set>

namespace props {
using model::Cell;
using model::Col;
using model::Ty;

static void check_page_count(Ctx &ctx, const Dataset &d, const File &f, const Properties &p) {
  if (p.page_count == f.header_page_count)
    return;
  // recorded defect: the 8-byte count of big-endian 64-bit files is read as its upper half
  if (d.big && d.w64 && p.page_count == f.header_page_count >> 32 && ctx.known("C05-page-count-be64"))
    return;
  throw Fail{strf("page count is %zu instead of %zu", p.page_count, f.header_page_count)};
}

static void c05_header(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 3;
  o.max_rows = 4;
  o.rich_header = true;
  o.wide_names = s.chance(1, 3);
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.canonical = s.chance(1, 3);
  w.scale = s.chance(1, 8);
  if (s.flip())
    w.header_page_count = static_cast<double>(s.skewed(0xffffffffu));
  File f = make(s, ctx, d, w);
  if (ctx.want_sample)
    ctx.sample += " | dataset name '" + d.h.dataset_name + "', release '" + d.h.release + strf("', encoding %u, platform '%c', created %.6f", d.h.encoding, d.h.platform ? d.h.platform : '0', d.h.created);
  Log log;
  Reader r{MemSource(f.bytes), RecSink(log)};
  require(check_header(d, f, r.properties()));
  check_page_count(ctx, d, f, r.properties());
  if (!log.props)
    throw Fail{"the sink was not given the properties"};
  require(check_header(d, f, *log.props));
  const auto before = show_props(r.properties());
  r.read_all();
  if (show_props(r.properties()) != before)
    throw Fail{"the properties changed while reading"};
  Reader r2{std::move(r)};
  if (show_props(r2.properties()) != before)
    throw Fail{"the properties changed when the reader was moved"};
  ctx.nontrivial = true;
  ctx.label(layout_label(d));
  ctx.label(strf("platform:%s", d.h.platform == '1' ? "unix" : d.h.platform == '2' ? "windows" : "unknown"));
  ctx.label_if(d.h.os_name.empty(), "os-name-from-maker");
  ctx.label_if(d.h.dataset_name.size() == 64, "full-dataset-name");
  ctx.label_if(f.header_page_count > 0xffff, "large-page-count");
}
// all 256 encoding codes in every byte order, word size and alignment
static void c05_codes(Src &s, Ctx &ctx) {
  const uint64_t k = eng::case_index();
  Dataset d;
  d.h.encoding = static_cast<unsigned char>(k & 255);
  d.big = k >> 8 & 1;
  d.w64 = k >> 9 & 1;
  d.a1 = k >> 10 & 1;
  d.h.platform = "12\0 "[k >> 11 & 3];
  d.h.dataset_name = strf("N%llu", static_cast<unsigned long long>(k));
  Col c;
  c.name = "x";
  d.cols.push_back(c);
  d.row_length = 8;
  WriteOpts w;
  w.canonical = true;
  File f = make(s, ctx, d, w);
  Reader r{MemSource(f.bytes), cppsas7bdat::datasink::null{}};
  require(check_header(d, f, r.properties()));
  check_page_count(ctx, d, f, r.properties());
  ctx.nontrivial = true;
}

static void c06_schema(Src &s, Ctx &ctx, size_t max_cols, bool wide, bool scale = false) {
  DsOpts o;
  o.max_cols = max_cols;
  o.max_rows = 6;
  o.wide_names = wide || s.flip();
  o.unique_names = s.flip();
  o.allow_zero_cols = true;
  Dataset d = model::gen_dataset(s, o);
  if (max_cols > 100)
    while (d.cols.size() < 40 && s.draw(20)) { // more columns
      Dataset e;
      model::gen_schema(s, e, o);
      if (d.row_length + e.row_length > 20000)
        break;
      for (auto &c : e.cols) {
        c.offset += d.row_length;
        d.cols.push_back(c);
      }
      d.row_length += e.row_length;
      d.rows.clear();
      d.raw_rows.clear();
    }
  WriteOpts w;
  w.scale = scale;
  File f = make(s, ctx, d, w);
  if (scale) {
    std::set<std::string> seen(f.labels.begin(), f.labels.end());
    for (auto &l : seen)
      if (l[0] == 't' || l[0] == 'p')
        ctx.label(l);
  }
  Log log;
  COLUMNS copies;
  std::optional<cppsas7bdat::Columns> groups;
  std::vector<RowObs> via_copies;
  {
    Reader r{MemSource(f.bytes), RecSink(log)};
    require(check_schema(d, f, r.properties()));
    if (!log.props)
      throw Fail{"the sink was not given the properties"};
    require(check_schema(d, f, *log.props));
    copies = COLUMNS(r.properties().columns);
    groups.emplace(r.properties().columns);
    for (size_t i = 0;; ++i) {
      auto p = r.read_row_no_sink();
      if (!p)
        break;
      via_copies.push_back(observe_row(copies, i, p));
    }
  }
  // column descriptions outlive the reader
  Properties kept(*log.props);
  log.props.reset();
  COLUMNS again(copies);
  copies.clear();
  copies.shrink_to_fit();
  require(check_schema(d, f, kept));
  if (!(again == kept.columns))
    throw Fail{"copied columns differ"};
  require(check_rows(d, via_copies));
  // columns by type
  using T = Column::Type;
  const std::pair<T, const COLUMNS *> gs[] = {{T::string, &groups->strings}, {T::number, &groups->numbers}, {T::integer, &groups->integers}, {T::datetime, &groups->datetimes}, {T::date, &groups->dates}, {T::time, &groups->times}};
  for (auto &[t, g] : gs) {
    size_t k = 0;
    for (size_t i = 0; i < d.cols.size(); ++i) {
      if (type_of(d.cols[i].ty) != t)
        continue;
      if (k >= g->size() || (*g)[k].name != d.cols[i].name || (*g)[k].label != d.cols[i].label || (*g)[k].type != t || (*g)[k].length() != d.cols[i].width)
        throw Fail{strf("column #%zu is not where it should be among the %s columns", i, std::string(cppsas7bdat::to_string(t)).c_str())};
      ++k;
    }
    if (k != g->size())
      throw Fail{strf("%zu instead of %zu %s columns", g->size(), k, std::string(cppsas7bdat::to_string(t)).c_str())};
  }
  ctx.nontrivial = d.cols.size() > 1;
  std::set<std::string> seen(f.labels.begin(), f.labels.end());
  for (auto &l : seen)
    if (l.rfind("metadata", 0) == 0)
      ctx.label(l);
  ctx.label(comp_label(d));
  ctx.label(d.cols.size() > 100 ? "columns>100" : d.cols.size() > 20 ? "columns>20" : d.cols.size() > 1 ? "columns>1" : d.cols.size() ? "columns:1" : "columns:0");
  ctx.label_if(!f.creator.empty(), "creator");
  ctx.label_if(!f.creator_proc.empty(), "creator-proc");
}
// every known format and near-miss on every column type
static void c06_formats(Src &s, Ctx &ctx) {
  std::vector<std::string> all;
  for (auto t : {Ty::DateTime, Ty::Date, Ty::Time})
    for (auto &f : model::formats_of(t)) {
      all.push_back(f);
      all.push_back(f + "X");
      all.push_back(f.substr(0, f.size() - 1));
      std::string low = f;
      for (auto &c : low)
        c = static_cast<char>(tolower(c));
      all.push_back(low);
      all.push_back("N" + f);
      all.push_back(f + "9");
      all.push_back(f + "20.");
    }
  for (auto &f : model::formats_of(Ty::Num))
    all.push_back(f);
  const std::string fmt = all[eng::case_index() % all.size()];
  auto has = [&](Ty t) {
    for (auto &f : model::formats_of(t))
      if (f == fmt)
        return true;
    return false;
  };
  const Ty t8 = has(Ty::DateTime) ? Ty::DateTime : has(Ty::Date) ? Ty::Date : has(Ty::Time) ? Ty::Time : Ty::Num;
  Dataset d;
  d.big = s.flip();
  d.w64 = s.flip();
  const std::pair<Ty, size_t> kinds[] = {{t8, 8}, {t8, 3}, {t8, 4}, {t8, 5}, {t8, 6}, {t8, 7}, {Ty::Int1, 1}, {Ty::Int2, 2}, {Ty::Str, 8}, {Ty::Str, 1}};
  size_t off = 0;
  for (auto &[t, w] : kinds) {
    Col c;
    c.ty = t;
    c.width = w;
    c.offset = off;
    off += w;
    c.name = strf("k%zu", d.cols.size());
    c.format = fmt;
    d.cols.push_back(c);
  }
  d.row_length = off;
  DsOpts o;
  model::Row row;
  for (auto &c : d.cols)
    row.push_back(model::gen_cell(s, c, o));
  d.raw_rows.push_back(model::encode_row(d, row, std::string()));
  d.rows.push_back(row);
  File f = make(s, ctx, d);
  Log log;
  read_all(f.bytes, log);
  require(check_schema(d, f, *log.props));
  require(check_rows(d, log.rows));
  ctx.nontrivial = true;
  ctx.label(strf("type:%s", model::ty_name(t8)));
}

// ---------------------------------------------------------------- C07
static double from_bits(uint64_t b) {
  double v;
  memcpy(&v, &b, 8);
  return v;
}
static uint64_t to_bits(double v) {
  uint64_t b;
  memcpy(&b, &v, 8);
  return b;
}
static uint64_t gen_temporal_bits(Src &s, Ty t) {
  const double unit = t == Ty::Date ? 1 : 86400;
  const double lo = static_cast<double>(model::MIN_DAY) * unit, hi = static_cast<double>(model::MAX_DAY + 1) * unit;
  auto sign = [&](double x) { return s.flip() ? -x : x; };
  switch (s.draw(13)) {
  case 0: return to_bits(sign(static_cast<double>(s.draw(200)) * unit));
  case 1: // any day of the calendar, as a date or its midnight
    return to_bits(static_cast<double>(model::MIN_DAY + static_cast<int64_t>(s.draw(static_cast<uint64_t>(model::MAX_DAY - model::MIN_DAY)))) * unit);
  case 2: { // around midnights and day borders
    const double day = static_cast<double>(static_cast<int64_t>(s.draw(60000)) - 30000) * unit;
    static const double eps[] = {1e-6, -1e-6, 0.5e-6, -0.5e-6, 0.25e-6, -0.25e-6, 0.4999, -0.4999, 0.75e-6, -0.75e-6, 1, -1};
    return to_bits(day + eps[s.draw(11)]);
  }
  case 3: // leap days and century borders
  {
    const int y = static_cast<int>(1400 + s.draw(85) * 100 + (s.flip() ? 0 : s.draw(99)));
    const unsigned m = s.flip() ? 2 : 1 + static_cast<unsigned>(s.draw(11));
    return to_bits(static_cast<double>(model::days_from_civil(y, m, 28) + static_cast<int64_t>(s.draw(3))) * unit);
  }
  case 4: return to_bits((s.flip() ? lo : hi) + sign(static_cast<double>(s.draw(4)) * (s.flip() ? unit : s.flip() ? 1 : 1e-6)));
  case 5: return s.bits64();
  case 6: return s.pick(std::vector<uint64_t>{0, 1ull << 63, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull, 0xFFFFD1FFFFFFFFFFull, 0xFFFFD10000000000ull, 0x7FEFFFFFFFFFFFFFull, 0xFFEFFFFFFFFFFFFFull, 1, 0x0010000000000000ull});
  case 7: return (0xFFFFull << 48) | (s.draw(255) << 40);
  case 8: return to_bits(sign(std::ldexp(1.0 + static_cast<double>(s.draw(1023)) / 1024, static_cast<int>(s.draw(80)) - 20)));
  case 9: { // microseconds
    const int64_t us = static_cast<int64_t>(s.draw(4000000000000000ull)) - 2000000000000000ll;
    return to_bits(static_cast<double>(us) / 1e6 / (t == Ty::Date ? 86400 : 1));
  }
  case 10: return to_bits(static_cast<double>(s.draw(86400000000ull)) / 1e6);
  case 11: return to_bits(static_cast<double>(static_cast<int64_t>(s.draw(2000000)) - 1000000) / static_cast<double>(1 + s.draw(999)));
  case 12: return to_bits(sign(std::ldexp(1, static_cast<int>(s.draw(70))) + (s.flip() ? 0.5 : 0)));
  default: return to_bits(sign(static_cast<double>(s.skewed(400000000000ull)) + static_cast<double>(s.draw(999999)) / 1e6));
  }
}
static void c07_temporal(Src &s, Ctx &ctx) {
  Dataset d;
  d.big = s.flip();
  d.w64 = s.flip();
  d.a1 = s.flip();
  d.comp = static_cast<model::Comp>(s.draw(2));
  const size_t ncol = 1 + s.draw(2);
  for (size_t i = 0; i < ncol; ++i) {
    Col c;
    c.ty = s.pick(std::vector<Ty>{Ty::DateTime, Ty::Date, Ty::Time});
    c.width = s.flip() ? 8 : 3 + s.draw(4);
    c.name = strf("t%zu", i);
    c.format = s.pick(model::formats_of(c.ty));
    d.cols.push_back(c);
  }
  model::layout_columns(s, d);
  const size_t n = 1 + s.skewed(60);
  size_t nat = 0, instants = 0;
  for (size_t k = 0; k < n; ++k) {
    model::Row r;
    for (auto &c : d.cols) {
      Cell x;
      x.bits = gen_temporal_bits(s, c.ty);
      if (c.width < 8)
        x.bits &= ~0ull << (8 * (8 - c.width));
      const double v = from_bits(x.bits);
      const bool none = c.ty == Ty::Date ? model::expect_date(v).day == model::NAT : (c.ty == Ty::Time ? model::expect_time(v) : model::expect_datetime(v)).us == model::NAT;
      (none ? nat : instants)++;
      if (none)
        ctx.label(std::isnan(v) ? "missing" : std::isinf(v) ? "infinite" : "out-of-calendar");
      else
        ctx.label(strf("%s%s", model::ty_name(c.ty), v < 0 ? ":before-1960" : v != std::floor(v) ? ":fraction" : ""));
      r.push_back(x);
    }
    std::string raw = model::encode_row(d, r, std::string(d.row_length, '\0'));
    if (d.comp != model::Comp::None && model::looks_like_signature(raw, d.isz())) {
      for (auto &x : r)
        x.bits = 0;
      raw = model::encode_row(d, r, std::string(d.row_length, '\0'));
    }
    d.raw_rows.push_back(raw);
    d.rows.push_back(r);
  }
  WriteOpts w;
  w.canonical = s.flip();
  File f = make(s, ctx, d, w);
  if (ctx.want_sample)
    for (size_t i = 0; i < d.rows.size() && i < 4; ++i)
      ctx.sample += strf(" | row %zu: %.17g", i, from_bits(d.rows[i][0].bits));
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  ctx.nontrivial = instants > 0;
}
// every day of the calendar as a date and as the date-time of a random moment of that day
static void c07_calendar(Src &s, Ctx &ctx) {
  const int64_t per = 400;
  const int64_t first = model::MIN_DAY - 2 + static_cast<int64_t>(eng::case_index()) * per;
  Dataset d;
  d.big = s.flip();
  d.w64 = s.flip();
  for (int i = 0; i < 2; ++i) {
    Col c;
    c.ty = i ? Ty::DateTime : Ty::Date;
    c.width = 8;
    c.offset = static_cast<size_t>(8 * i);
    c.name = i ? "dt" : "d";
    c.format = i ? "DATETIME" : "DATE";
    d.cols.push_back(c);
  }
  d.row_length = 16;
  for (int64_t day = first; day < first + per && day <= model::MAX_DAY + 2; ++day) {
    model::Row r(2);
    r[0].bits = to_bits(static_cast<double>(day));
    r[1].bits = to_bits(static_cast<double>(day) * 86400 + static_cast<double>(s.draw(86399)));
    d.raw_rows.push_back(model::encode_row(d, r, std::string()));
    d.rows.push_back(r);
  }
  WriteOpts w;
  w.canonical = true;
  File f = make(s, ctx, d, w);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  ctx.nontrivial = !d.rows.empty();
}

// ---------------------------------------------------------------- C09
struct UserFilter { // a filter with state of its own
  std::set<size_t> *wanted;
  std::vector<std::string> *asked;
  size_t *n;
  bool accept(const Column &c) const {
    asked->push_back(c.name);
    return wanted->count((*n)++) > 0;
  }
};
static void c09_filter(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 14;
  o.max_rows = 12;
  o.wide_names = s.chance(1, 3);
  o.unique_names = s.draw(3) != 0;
  Dataset d = model::gen_dataset(s, o);
  // names that differ in case, are prefixes of each other, or are equal
  for (size_t i = 1; i < d.cols.size(); ++i)
    if (s.chance(1, 5)) {
      std::string n = d.cols[s.draw(i - 1)].name;
      switch (s.draw(3)) {
      case 0:
        for (auto &c : n)
          c = static_cast<char>(isupper(static_cast<unsigned char>(c)) ? tolower(c) : toupper(c));
        break;
      case 1: n += "x"; break;
      case 2: n = n.size() > 1 ? n.substr(0, n.size() - 1) : n + "_"; break;
      default: break;
      }
      while (!n.empty() && n.back() == ' ')
        n.pop_back();
      if (n.empty())
        n = "q";
      if (o.unique_names) {
        bool dup = false;
        for (auto &c : d.cols)
          dup |= c.name == n;
        if (dup)
          continue;
      }
      d.cols[i].name = n;
    }
  File f = make(s, ctx, d);
  // names to mention: columns, near misses, unknown
  auto names = [&](size_t max) {
    std::set<std::string> r;
    const size_t n = s.draw(max);
    for (size_t i = 0; i < n; ++i) {
      std::string x = d.cols[s.draw(d.cols.size() - 1)].name;
      switch (s.draw(7)) {
      case 0: x = x.substr(0, x.size() - 1); break;
      case 1: x += " "; break;
      case 2: x[0] = static_cast<char>(x[0] ^ 0x20); break;
      case 3: x = ""; break;
      default: break;
      }
      r.insert(x);
    }
    return r;
  };
  const unsigned kind = static_cast<unsigned>(s.draw(4));
  const auto inc = names(d.cols.size()), exc = names(d.cols.size());
  std::vector<size_t> want;
  std::set<size_t> user;
  if (kind == 4)
    for (size_t i = 0; i < d.cols.size(); ++i)
      if (s.flip())
        user.insert(i);
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const auto &n = d.cols[i].name;
    bool in = true;
    if (kind == 1)
      in = inc.count(n);
    else if (kind == 2)
      in = !exc.count(n);
    else if (kind == 3)
      in = !inc.empty() ? inc.count(n) : !exc.count(n);
    else if (kind == 4)
      in = user.count(i);
    if (in)
      want.push_back(i);
  }
  namespace CF = cppsas7bdat::ColumnFilter;
  Log log;
  std::vector<std::string> asked;
  size_t nasked = 0;
  bool lvalue = s.flip();
  auto run = [&](auto filter) {
    if (lvalue) {
      Reader r{MemSource(f.bytes), RecSink(log), filter};
      r.read_all();
      require(check_schema(d, f, r.properties(), &want));
    } else {
      Reader r{MemSource(f.bytes), RecSink(log), std::move(filter)};
      r.read_all();
      require(check_schema(d, f, r.properties(), &want));
    }
  };
  switch (kind) {
  case 0: run(CF::AcceptAll{}); break;
  case 1: run(CF::Include{inc}); break;
  case 2: run(CF::Exclude{exc}); break;
  case 3: {
    CF::IncludeExclude ie;
    ie.included = inc;
    ie.excluded = exc;
    run(ie);
    break;
  }
  default: {
    run(UserFilter{&user, &asked, &nasked});
    std::vector<std::string> all;
    for (auto &c : d.cols)
      all.push_back(c.name);
    if (asked != all)
      throw Fail{"the filter was not asked once for every column, in order"};
  }
  }
  require(check_rows(d, log.rows, &want));
  if (log.n_end != 1)
    throw Fail{"the end was not notified once"};
  static const char *kinds[] = {"all", "include", "exclude", "include-exclude", "user-defined"};
  ctx.label(std::string("filter:") + kinds[kind]);
  if (kind == 3)
    ctx.label(strf("include-exclude:%s%s", inc.empty() ? "-" : "i", exc.empty() ? "-" : "e"));
  ctx.label(want.empty() ? "selects:none" : want.size() == d.cols.size() ? "selects:all" : "selects:some");
  ctx.nontrivial = !want.empty() && want.size() < d.cols.size() && !d.rows.empty();
  if (ctx.want_sample)
    ctx.sample += strf(" | filter %s selects %zu of %zu columns", kinds[kind], want.size(), d.cols.size());
}

static void register_meta() {
  eng::add({"C05", "plain", "header", "random header fields (all alignments, byte orders, word sizes; texts of every length, dates over the whole calendar, random page counts) compared with what was written; non-trivial: all", 250000, 15000000, 20, c05_header});
  eng::add({"C05", "plain", "codes", "all 256 encoding codes x byte order x word size x alignment x platform; non-trivial: all", 8192, 8192, 20, c05_codes, 0, true});
  eng::add({"C05", "asan", "header-asan", "as header, under the sanitizers", 10000, 500000, 60, c05_header});
  eng::add({"C06", "plain", "schema", "random schemas, text pools (several blocks, shared and padded entries, shuffled, split over pages) compared with what was written, also through copied columns after the reader is gone; non-trivial: more than one column", 150000, 8000000, 20, [](Src &s, Ctx &c) { c06_schema(s, c, 14, false); }});
  eng::add({"C06", "plain", "wide", "as schema with up to several hundred columns; non-trivial: more than one column", 8000, 400000, 30, [](Src &s, Ctx &c) { c06_schema(s, c, 400, true); }});
  eng::add({"C06", "plain", "scale", "as schema in files with hundreds of text blocks, text blocks of more than 32 kB, pages and headers of more than 64 kB; non-trivial: more than one column", 8000, 400000, 30, [](Src &s, Ctx &c) { c06_schema(s, c, s.chance(1, 8) ? 60 : 8, false, true); }});
  eng::add({"C06", "plain", "formats", "every documented temporal format and its near misses (case, prefix, suffix, width) on every stored width and type; non-trivial: all", 5000, 100000, 20, c06_formats});
  eng::add({"C06", "asan", "schema-asan", "as schema, under the sanitizers", 10000, 500000, 60, [](Src &s, Ctx &c) { c06_schema(s, c, 14, false); }});
  eng::add({"C07", "plain", "temporal", "bit patterns of dates, date-times and times: calendar days, borders, half microseconds and half days, leap days, calendar limits, missing, infinite, random bits, all widths; non-trivial: at least one value that denotes an instant", 200000, 12000000, 20, c07_temporal});
  eng::add({"C07", "plain", "calendar", "every day of the calendar (1400 to 9999) as a date and as a date-time at a random second; non-trivial: all", 7853, 7853, 20, c07_calendar, 0, true});
  eng::add({"C07", "asan", "temporal-asan", "as temporal, under the sanitizers", 10000, 500000, 60, c07_temporal});
  eng::add({"C09", "plain", "filters", "built-in and user-defined filters naming columns, near misses and unknown names, on schemas with similar or equal names; reported columns and all values compared; non-trivial: some but not all columns selected and at least one row", 250000, 12000000, 20, c09_filter});
  eng::add({"C09", "asan", "filters-asan", "as filters, under the sanitizers", 10000, 500000, 60, c09_filter});
}
static const bool registered = (register_meta(), true);
} // namespace props
