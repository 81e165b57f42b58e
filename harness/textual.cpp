#include "textual.hpp"
#include <cmath>
#include <cstdlib>

namespace props {
Csv parse_csv(const std::string &t) {
  Csv r;
  size_t i = 0;
  while (i < t.size()) {
    std::vector<std::string> rec;
    while (true) {
      std::string f;
      if (i < t.size() && t[i] == '"') {
        ++i;
        while (true) {
          if (i >= t.size()) {
            r.error = "a quoted field does not end";
            return r;
          }
          if (t[i] == '"') {
            if (i + 1 < t.size() && t[i + 1] == '"') {
              f += '"';
              i += 2;
              continue;
            }
            ++i;
            break;
          }
          f += t[i++];
        }
        if (i < t.size() && t[i] != ',' && t[i] != '\n' && t[i] != '\r') {
          r.error = strf("text after the closing quote at %zu", i);
          return r;
        }
      } else
        while (i < t.size() && t[i] != ',' && t[i] != '\n' && t[i] != '\r') {
          if (t[i] == '"') {
            r.error = strf("a quote inside an unquoted field at %zu", i);
            return r;
          }
          f += t[i++];
        }
      rec.push_back(std::move(f));
      if (i >= t.size()) {
        r.error = "the last record does not end";
        return r;
      }
      if (t[i] == ',') {
        ++i;
        continue;
      }
      if (t[i] == '\r') {
        if (i + 1 >= t.size() || t[i + 1] != '\n') {
          r.error = strf("a bare carriage return at %zu", i);
          return r;
        }
        ++i;
      }
      ++i;
      break;
    }
    r.records.push_back(std::move(rec));
  }
  return r;
}

static bool digits(const std::string &t, size_t &i, size_t lo, size_t hi, int64_t &v) {
  size_t n = 0;
  v = 0;
  while (i < t.size() && n < hi && t[i] >= '0' && t[i] <= '9') {
    v = v * 10 + (t[i] - '0');
    ++i;
    ++n;
  }
  return n >= lo;
}
bool parse_instant(const std::string &t, bool date, bool time, int64_t &us) {
  size_t i = 0;
  us = 0;
  if (date) {
    int64_t y, m = 0, d;
    if (!digits(t, i, 4, 4, y) || i >= t.size() || t[i++] != '-')
      return false;
    static const char *months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    for (int k = 0; k < 12; ++k)
      if (t.compare(i, 3, months[k]) == 0)
        m = k + 1;
    if (m)
      i += 3;
    else if (!digits(t, i, 2, 2, m))
      return false;
    if (i >= t.size() || t[i++] != '-' || !digits(t, i, 2, 2, d) || m < 1 || m > 12 || d < 1 || d > 31)
      return false;
    us = model::days_from_civil(static_cast<int>(y), static_cast<unsigned>(m), static_cast<unsigned>(d)) * 86400000000ll;
    if (!time)
      return i == t.size();
    if (i >= t.size() || (t[i] != ' ' && t[i] != 'T'))
      return false;
    ++i;
  }
  int64_t h, mi, se;
  if (!digits(t, i, 2, 2, h) || i >= t.size() || t[i++] != ':' || !digits(t, i, 2, 2, mi) || i >= t.size() || t[i++] != ':' || !digits(t, i, 2, 2, se))
    return false;
  if (h > 23 || mi > 59 || se > 59)
    return false;
  int64_t frac = 0;
  if (i < t.size() && t[i] == '.') {
    ++i;
    const size_t a = i;
    if (!digits(t, i, 1, 9, frac))
      return false;
    for (size_t n = i - a; n < 9; ++n)
      frac *= 10;
    if (frac % 1000)
      return false;
    frac /= 1000;
  }
  us += ((h * 60 + mi) * 60 + se) * 1000000 + frac;
  return i == t.size();
}

std::string trimmed(const std::string &stored) {
  size_t n = stored.size();
  while (n && (stored[n - 1] == 0 || stored[n - 1] == ' ' || (stored[n - 1] >= 9 && stored[n - 1] <= 13)))
    --n;
  return stored.substr(0, n);
}
std::string iso_date(int64_t day) {
  int y;
  unsigned m, d;
  model::civil(day, y, m, d);
  return strf("%04d-%02u-%02u", y, m, d);
}
std::string iso_time(int64_t us) {
  const int64_t s = us / 1000000, f = us % 1000000;
  std::string r = strf("%02d:%02d:%02d", static_cast<int>(s / 3600), static_cast<int>(s / 60 % 60), static_cast<int>(s % 60));
  if (f)
    r += strf(".%06d", static_cast<int>(f));
  return r;
}
static int64_t floor_day(int64_t us) { return us >= 0 ? us / 86400000000ll : -((-us + 86399999999ll) / 86400000000ll); }

std::vector<std::string> cell_texts(const model::Col &c, const model::Cell &cell) {
  using model::Ty;
  double v = 0;
  memcpy(&v, &cell.bits, 8);
  const std::string none = "not-a-date-time";
  auto dt = [&](int64_t us) {
    if (us == model::NAT)
      return none;
    const int64_t day = floor_day(us);
    return iso_date(day) + " " + iso_time(us - day * 86400000000ll);
  };
  switch (c.ty) {
  case Ty::Str: return {trimmed(cell.str)};
  case Ty::Int1:
  case Ty::Int2: return {std::to_string(cell.i)};
  case Ty::Num: {
    if (std::isnan(v))
      return {"nan", "-nan"};
    if (std::isinf(v))
      return {v > 0 ? "inf" : "-inf"};
    char b[400];
    snprintf(b, sizeof b, "%.6f", v);
    return {b};
  }
  case Ty::DateTime: {
    const auto x = model::expect_datetime(v);
    return x.alt == model::NAT && x.us != model::NAT ? std::vector<std::string>{dt(x.us)} : std::vector<std::string>{dt(x.us), dt(x.alt)};
  }
  case Ty::Date: {
    const auto x = model::expect_date(v);
    std::vector<std::string> r{x.day == model::NAT ? none : iso_date(x.day)};
    if (x.alt != model::NAT)
      r.push_back(iso_date(x.alt));
    return r;
  }
  default: {
    const auto x = model::expect_time(v);
    std::vector<std::string> r{x.us == model::NAT ? none : iso_time(x.us)};
    if (x.alt != model::NAT)
      r.push_back(iso_time(x.alt));
    return r;
  }
  }
}

std::string check_csv(const Dataset &d, const std::string &text, const std::vector<size_t> &rows, const std::vector<size_t> *cols) {
  using model::Ty;
  std::vector<size_t> sel;
  if (cols)
    sel = *cols;
  else
    for (size_t i = 0; i < d.cols.size(); ++i)
      sel.push_back(i);
  const Csv csv = parse_csv(text);
  if (!csv.error.empty())
    return "not a CSV text: " + csv.error;
  if (csv.records.size() != rows.size() + 1)
    return strf("%zu records instead of %zu", csv.records.size(), rows.size() + 1);
  for (size_t r = 0; r < csv.records.size(); ++r)
    if (csv.records[r].size() != sel.size())
      return strf("record %zu has %zu fields instead of %zu", r, csv.records[r].size(), sel.size());
  for (size_t k = 0; k < sel.size(); ++k)
    if (csv.records[0][k] != d.cols[sel[k]].name)
      return strf("name %zu is %s instead of %s", k, eng::hex(csv.records[0][k]).c_str(), eng::hex(d.cols[sel[k]].name).c_str());
  for (size_t r = 0; r < rows.size(); ++r)
    for (size_t k = 0; k < sel.size(); ++k) {
      const auto &c = d.cols[sel[k]];
      const auto &cell = d.rows[rows[r]][sel[k]];
      const auto &f = csv.records[r + 1][k];
      auto bad = [&](const std::string &want) { return strf("row %zu column %zu (%s): field %s instead of %s", rows[r], k, model::ty_name(c.ty), eng::hex(f, 80).c_str(), want.c_str()); };
      double v = 0;
      memcpy(&v, &cell.bits, 8);
      auto temporal = [&](int64_t us, int64_t alt, bool date, bool time) {
        int64_t got;
        if (us == model::NAT && (f.empty() || f == "not-a-date-time"))
          return true;
        if (!parse_instant(f, date, time, got))
          return false;
        return (us != model::NAT && got == us) || (alt != model::NAT && got == alt);
      };
      switch (c.ty) {
      case Ty::Str:
        if (f != trimmed(cell.str))
          return bad(eng::hex(trimmed(cell.str), 80));
        break;
      case Ty::Int1:
      case Ty::Int2:
        if (f != std::to_string(cell.i))
          return bad(std::to_string(cell.i));
        break;
      case Ty::Num:
        if (std::isnan(v)) {
          if (!f.empty())
            return bad("nothing (missing)");
        } else {
          char *e = nullptr;
          const double x = strtod(f.c_str(), &e);
          uint64_t xb;
          memcpy(&xb, &x, 8);
          if (f.empty() || *e || xb != cell.bits)
            return bad(strf("%.17g", v));
        }
        break;
      case Ty::DateTime: {
        const auto x = model::expect_datetime(v);
        if (!temporal(x.us, x.alt, true, true))
          return bad(strf("the instant of %.17g seconds", v));
        break;
      }
      case Ty::Date: {
        const auto x = model::expect_date(v);
        if (!temporal(x.day == model::NAT ? model::NAT : x.day * 86400000000ll, x.alt == model::NAT ? model::NAT : x.alt * 86400000000ll, true, false))
          return bad(strf("the day %.17g", v));
        break;
      }
      case Ty::Time: {
        const auto x = model::expect_time(v);
        if (!temporal(x.us, x.alt, false, true))
          return bad(strf("the time of %.17g seconds", v));
        break;
      }
      }
    }
  return "";
}

std::string print_header(const Properties &p) {
  std::string s = "Properties:\n";
  auto line = [&](const char *k, const std::string &v) { s += std::string("  ") + k + ": " + v + "\n"; };
  auto dt = [](const cppsas7bdat::DATETIME &x) {
    if (x.is_special())
      return std::string("not-a-date-time");
    static const char *months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    const int64_t us = us_of(x), day = floor_day(us);
    int y;
    unsigned m, d;
    model::civil(day, y, m, d);
    return strf("%04d-%s-%02u ", y, months[m - 1], d) + iso_time(us - day * 86400000000ll);
  };
  line("format", p.format == cppsas7bdat::Format::bit64 ? "64bits" : "32bits");
  line("endianness", p.endianness == cppsas7bdat::Endian::big ? "big" : "little");
  line("platform", p.platform == cppsas7bdat::Platform::unix ? "unix" : p.platform == cppsas7bdat::Platform::windows ? "windows" : "unknown");
  line("date created", dt(p.date_created));
  line("date modified", dt(p.date_modified));
  line("dataset name", p.dataset_name);
  line("encoding", std::string(p.encoding));
  line("file type", p.file_type);
  line("SAS release", p.sas_release);
  line("SAS server type", p.sas_server_type);
  line("OS type", p.os_type);
  line("OS name", p.os_name);
  line("compression", p.compression == cppsas7bdat::Compression::RLE ? "RLE" : p.compression == cppsas7bdat::Compression::RDC ? "RDC" : "none");
  line("creator", p.creator);
  line("creator proc", p.creator_proc);
  line("row count", std::to_string(p.row_count));
  line("column count", std::to_string(p.column_count));
  s += "Columns:\n";
  static const char *types[] = {"unknown", "string", "number", "integer", "datetime", "date", "time"};
  for (size_t i = 0; i < p.columns.size(); ++i) {
    const auto &c = p.columns[i];
    s += strf("  - column #%zu\n", i) + "    name: " + c.name + "\n    label: " + c.label + "\n    format: " + c.format + "\n    type: " + types[static_cast<int>(c.type)] + "\n";
  }
  s += "Data:\n#";
  for (auto &c : p.columns)
    s += "," + c.name;
  return s + "\n";
}
} // namespace props
