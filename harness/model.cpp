#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <set>

namespace model {
using eng::HarnessError;
using eng::hex;
using eng::strf;

const char *ty_name(Ty t) {
  switch (t) {
  case Ty::Str: return "string";
  case Ty::Num: return "number";
  case Ty::Int1: return "integer1";
  case Ty::Int2: return "integer2";
  case Ty::DateTime: return "datetime";
  case Ty::Date: return "date";
  case Ty::Time: return "time";
  }
  return "?";
}

// ---------------------------------------------------------------- formats
static const std::vector<std::string> F_DT = {"DATETIME", "DTWKDATX", "B8601DN", "B8601DT", "B8601DX", "B8601DZ", "B8601LX", "E8601DN", "E8601DT", "E8601DX", "E8601DZ", "E8601LX", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM"};
static const std::vector<std::string> F_D = {"DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY", "MMYYC", "MMYYD", "MMYYP", "MMYYS", "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR", "NENGO", "WEEKDATE", "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE", "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS", "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC", "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP", "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC", "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS", "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP", "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD", "DDMMYYS", "MINGUO"};
static const std::vector<std::string> F_T = {"TIME"};
static const std::vector<std::string> F_N = {"", "", "", "BEST", "COMMA", "DOLLAR", "Z", "PERCENT", "F", "DATETIM", "DATETIMEX", "XDATE", "DATES", "TIM", "TIMES", "TIMEAMPM_", "HHMM_", "date", "Time", "dateTime", "$CHAR", "NUMX", "MYFMT", "YYMMDDX", "E", "DAT E", "TIME8"};
const std::vector<std::string> &formats_of(Ty t) {
  switch (t) {
  case Ty::DateTime: return F_DT;
  case Ty::Date: return F_D;
  case Ty::Time: return F_T;
  default: return F_N;
  }
}
std::string gen_format(Src &s, Ty ty) {
  if (ty == Ty::Str || ty == Ty::Int1 || ty == Ty::Int2) // any format, also temporal ones, leaves these types alone
    switch (s.draw(5)) {
    case 5: return s.pick(F_DT);
    case 4: return s.pick(F_D);
    case 3: return s.pick(F_T);
    default: return s.pick(F_N);
    }
  return s.pick(formats_of(ty));
}

// ---------------------------------------------------------------- calendar
int64_t days_from_civil(int y, unsigned m, unsigned d) { // since 1960-01-01
  y -= m <= 2;
  const int era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = static_cast<unsigned>(y - era * 400);
  const unsigned doy = (153 * (m + (m > 2 ? -3u : 9u)) + 2) / 5 + d - 1;
  const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return static_cast<int64_t>(era) * 146097 + static_cast<int64_t>(doe) - 719468 + 3653;
}
void civil(int64_t z, int &y, unsigned &m, unsigned &d) {
  z += 719468 - 3653;
  const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = static_cast<unsigned>(z - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  y = static_cast<int>(yoe) + static_cast<int>(era) * 400;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp + (mp < 10 ? 3 : -9u);
  y += m <= 2;
}
const int64_t MIN_DAY = days_from_civil(1400, 1, 1), MAX_DAY = days_from_civil(9999, 12, 31);
constexpr int64_t DAY_US = int64_t(86400) * 1000000;
const int64_t MIN_US = days_from_civil(1400, 1, 1) * DAY_US, MAX_US = (days_from_civil(9999, 12, 31) + 1) * DAY_US - 1;

static void nearest(__float128 v, int64_t &a, int64_t &b) {
  // nearest integer; b is the other neighbour when v is close to the middle
  __float128 f = v;
  int64_t fl = static_cast<int64_t>(f);
  if (static_cast<__float128>(fl) > f)
    --fl;
  const double frac = static_cast<double>(f - static_cast<__float128>(fl));
  a = frac < 0.5 ? fl : fl + 1;
  b = NAT;
  if (frac > 0.499 && frac < 0.501)
    b = frac < 0.5 ? fl + 1 : fl;
}
Instant expect_datetime(double sec) {
  Instant r;
  if (!std::isfinite(sec) || std::fabs(sec) > 1e12)
    return r;
  nearest(static_cast<__float128>(sec) * 1000000, r.us, r.alt);
  auto fix = [](int64_t x) { return x < MIN_US || x > MAX_US ? NAT : x; };
  const bool two = r.alt != NAT;
  r.us = fix(r.us);
  if (two)
    r.alt = fix(r.alt);
  else
    r.alt = r.us;
  return r;
}
Day expect_date(double days) {
  Day r;
  if (!std::isfinite(days) || std::fabs(days) > 1e9)
    return r;
  const double fl = std::floor(days), frac = days - fl;
  auto fix = [](int64_t x) { return x < MIN_DAY || x > MAX_DAY ? NAT : x; };
  const int64_t f = static_cast<int64_t>(fl);
  r.day = r.alt = fix(frac < 0.5 ? f : f + 1);
  if (frac == 0.5) // either neighbour
    r.alt = fix(f);
  return r;
}
Instant expect_time(double sec) {
  Instant r;
  if (!std::isfinite(sec) || std::fabs(sec) > 1e12)
    return r;
  nearest(static_cast<__float128>(sec) * 1000000, r.us, r.alt);
  const bool two = r.alt != NAT;
  auto mod = [](int64_t x) { return ((x % DAY_US) + DAY_US) % DAY_US; };
  auto in = [](int64_t x) { return x >= MIN_US && x <= MAX_US; };
  const bool ok = in(r.us);
  r.us = ok ? mod(r.us) : NAT;
  r.alt = two ? mod(r.alt) : r.us;
  return r;
}

// ---------------------------------------------------------------- generators
static const char *AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";
static const char *ALNUM = "abcABC0123456789_XYZdefghijklmnopqrstuvwDEFGHIJKLMNOPQRSTUVW";
static const char *PRINT = "aAbB01 ,\"'{}%\\/;:.-+*()[]<>|&^$#@!?=~`_zZ";

std::string gen_sas_name(Src &s, size_t) {
  const size_t n = 1 + s.skewed(31);
  std::string r = s.text(1, AL);
  r += s.text(n - 1, ALNUM);
  return r;
}
static std::string rstrip_lstrip(std::string x) {
  while (!x.empty() && x.front() == ' ')
    x.erase(x.begin());
  while (!x.empty() && x.back() == ' ')
    x.pop_back();
  return x;
}
static const char *UTF8[] = {"\xc3\xa9", "\xe2\x82\xac", "\xe4\xb8\xad", "\xc3\xbc", "\xd0\x96", "\xf0\x9f\x98\x80"};
static std::string gen_wide(Src &s, size_t maxn) {
  std::string r;
  const size_t n = 1 + s.skewed(maxn - 1);
  while (r.size() < n) {
    if (s.chance(1, 5))
      r += s.pick(UTF8);
    else
      r += s.text(1, PRINT);
  }
  return rstrip_lstrip(r);
}


static uint64_t dbits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static double bdbl(uint64_t u) {
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static uint64_t width_mask(size_t w) { return w >= 8 ? ~0ull : ~0ull << (8 * (8 - w)); }

static uint64_t gen_missing(Src &s) { // SAS missing values: . ._ .A-.Z are NaNs with the code inverted in byte 2
  const uint64_t code = s.pick(std::vector<uint64_t>{'.', '_', 'A', 'Z', 'M'});
  return (0xFFFFull << 48) | ((~code & 0xFF) << 40);
}

Cell gen_cell(Src &s, const Col &c, const DsOpts &o) {
  Cell r;
  switch (c.ty) {
  case Ty::Str: {
    std::string v;
    const unsigned k = static_cast<unsigned>(s.draw(9));
    if (k == 0)
      v = "";
    else if (k <= 3) // printable text
      v = s.text(s.draw(c.width), PRINT);
    else if (k == 4)
      v = s.text(c.width, "ab ");
    else if (k == 5)
      v = std::string(s.draw(c.width), static_cast<char>("@ xA"[s.draw(3)]));
    else if (k == 6) {
      while (v.size() < c.width && s.draw(7))
        v += s.pick(UTF8);
      v = v.substr(0, c.width);
      if (o.ascii_text)
        v = s.text(v.size(), ALNUM);
    } else if (k == 7)
      v = s.text(s.draw(c.width), ALNUM);
    else if (o.ascii_text)
      v = s.text(s.draw(c.width), PRINT);
    else if (k == 8)
      v = s.bytes(s.draw(c.width));
    else
      v = s.text(s.draw(c.width), std::string("a \t\n\r\v\f\0b", 9));
    if (v.size() > c.width)
      v.resize(c.width);
    r.str = v;
    r.str.resize(c.width, s.draw(7) == 7 ? '\0' : ' ');
    break;
  }
  case Ty::Int1:
    r.i = static_cast<int32_t>(s.draw(255));
    break;
  case Ty::Int2:
    r.i = static_cast<int16_t>(s.flip() ? s.draw(65535) : s.pick(std::vector<uint64_t>{0, 1, 255, 256, 32767, 32768, 65535, 0xFF00}));
    break;
  case Ty::Num: {
    switch (s.draw(7)) {
    case 0: r.bits = dbits(static_cast<double>(s.draw(100))); break;
    case 1: r.bits = dbits(-static_cast<double>(s.skewed(1ull << 53))); break;
    case 2: r.bits = dbits(static_cast<double>(s.skewed(1ull << 53)) / 1000.0); break;
    case 3: r.bits = gen_missing(s); break;
    case 4: r.bits = s.bits64(); break;
    case 5: r.bits = s.pick(std::vector<uint64_t>{0, 1ull << 63, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 1, 0x7FEFFFFFFFFFFFFFull, 0x0010000000000000ull, 0x000FFFFFFFFFFFFFull, 0x3FB999999999999Aull}); break;
    case 6: r.bits = s.draw(255) << (8 * s.draw(7)); break;
    default: r.bits = dbits(static_cast<double>(static_cast<int64_t>(s.draw(2000000)) - 1000000) / 100.0); break;
    }
    r.bits &= width_mask(c.width);
    break;
  }
  case Ty::DateTime:
  case Ty::Date:
  case Ty::Time: {
    if (s.chance(1, 8)) {
      r.bits = gen_missing(s);
    } else if (c.ty == Ty::DateTime) {
      int64_t us;
      switch (s.draw(3)) {
      case 0: us = static_cast<int64_t>(s.draw(4000000000ull)) * 1000000; break;
      case 1: us = MIN_US + static_cast<int64_t>(s.draw(static_cast<uint64_t>(MAX_US - MIN_US))); break;
      case 2: us = -static_cast<int64_t>(s.skewed(static_cast<uint64_t>(-MIN_US))); break;
      default: us = static_cast<int64_t>(s.skewed(static_cast<uint64_t>(MAX_US))); break;
      }
      double v = static_cast<double>(us) / 1e6;
      r.bits = dbits(v) & width_mask(c.width);
      const auto e = expect_datetime(bdbl(r.bits));
      if (e.us != e.alt || e.us == NAT)
        r.bits = dbits(std::trunc(v / 2)) & width_mask(c.width);
    } else if (c.ty == Ty::Date) {
      int64_t day;
      if (s.flip())
        day = static_cast<int64_t>(s.draw(30000));
      else
        day = MIN_DAY + static_cast<int64_t>(s.draw(static_cast<uint64_t>(MAX_DAY - MIN_DAY)));
      r.bits = dbits(static_cast<double>(day)) & width_mask(c.width);
    } else {
      const int64_t us = s.flip() ? static_cast<int64_t>(s.draw(86399)) * 1000000 : static_cast<int64_t>(s.draw(static_cast<uint64_t>(DAY_US - 1)));
      r.bits = dbits(static_cast<double>(us) / 1e6) & width_mask(c.width);
      const auto e = expect_time(bdbl(r.bits));
      if (e.us != e.alt)
        r.bits = dbits(std::trunc(static_cast<double>(us) / 1e6)) & width_mask(c.width);
    }
    break;
  }
  }
  return r;
}

void layout_columns(Src &s, Dataset &d) {
  std::vector<size_t> order(d.cols.size());
  for (size_t i = 0; i < order.size(); ++i)
    order[i] = i;
  const uint64_t style = s.draw(2);
  if (style == 1)
    std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return d.cols[a].numeric() && !d.cols[b].numeric(); });
  else if (style == 2)
    for (size_t i = order.size(); i > 1; --i)
      std::swap(order[i - 1], order[s.draw(i - 1)]);
  const bool gaps = s.flip();
  size_t off = 0;
  for (size_t i : order) {
    if (gaps)
      off += s.draw(7);
    d.cols[i].offset = off;
    off += d.cols[i].width;
  }
  if (gaps)
    off += s.draw(9);
  d.row_length = std::max<size_t>(off, 1);
}

void gen_schema(Src &s, Dataset &d, const DsOpts &o) {
  const size_t n = o.allow_zero_cols && s.chance(1, 30) ? 0 : 1 + s.skewed(o.max_cols - 1);
  std::set<std::string> used;
  for (size_t i = 0; i < n; ++i) {
    Col c;
    c.ty = o.long_text && s.flip() ? Ty::Str : static_cast<Ty>(s.draw(6));
    if (c.ty == Ty::Str)
      c.width = o.long_text && s.chance(1, 2) ? s.range(256, o.max_str) : 1 + s.skewed(s.chance(1, 12) ? 700 : o.max_str - 1);
    else if (c.ty == Ty::Int1)
      c.width = 1;
    else if (c.ty == Ty::Int2)
      c.width = 2;
    else
      c.width = s.flip() ? 8 : 3 + s.draw(5);
    c.name = o.wide_names && s.chance(1, 2) ? gen_wide(s, 32) : gen_sas_name(s, i);
    if (c.name.empty())
      c.name = "v";
    if (o.unique_names)
      while (!used.insert(c.name).second)
        c.name += std::to_string(i);
    if (s.flip())
      c.label = o.wide_names ? gen_wide(s, s.chance(1, 8) ? 256 : 40) : rstrip_lstrip(s.text(s.skewed(40), PRINT));
      if (s.chance(1, 50)) // the markers of a compressed file mean nothing outside the first text block
        c.label = s.pick(std::vector<std::string>{"SASYZCRL", "SASYZCR2", "see SASYZCR2 and SASYZCRL"});
    c.format = gen_format(s, c.ty);
    d.cols.push_back(std::move(c));
  }
  layout_columns(s, d);
}

static double gen_header_date(Src &s) {
  const int64_t us = s.flip() ? static_cast<int64_t>(s.draw(2500000000ull)) * 1000000 + static_cast<int64_t>(s.draw(999999)) : MIN_US + static_cast<int64_t>(s.draw(static_cast<uint64_t>(MAX_US - MIN_US)));
  double v = static_cast<double>(us) / 1e6;
  const auto e = expect_datetime(v);
  if (e.us != e.alt || e.us == NAT)
    v = std::trunc(v / 2);
  return v;
}
void gen_header(Src &s, HeaderModel &h, bool wide) {
  auto cut = [](std::string x, size_t n) { return x.size() > n ? rstrip_lstrip(x.substr(0, n)) : x; };
  auto txt = [&](size_t max) { return rstrip_lstrip(s.text(s.flip() ? s.draw(max) : max, s.flip() ? ALNUM : PRINT)); };
  h.platform = s.pick("12 3\0"); // others: unknown
  h.encoding = static_cast<unsigned char>(s.draw(255));
  h.dataset_name = wide && s.flip() ? cut(gen_wide(s, 60), 64) : txt(64);
  h.file_type = txt(8);
  h.release = txt(8);
  h.server_type = txt(16);
  h.os_type = txt(16);
  h.os_maker = txt(16);
  h.os_name = s.chance(1, 3) ? "" : txt(16);
  h.created = gen_header_date(s);
  h.modified = gen_header_date(s);
}

static void put_le(std::string &b, size_t off, uint64_t v, size_t n, bool big) {
  for (size_t i = 0; i < n; ++i)
    b[off + (big ? n - 1 - i : i)] = static_cast<char>(v >> (8 * i));
}

std::string encode_row(const Dataset &d, const Row &r, const std::string &filler) {
  std::string b = filler;
  b.resize(d.row_length, '\0');
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const Col &c = d.cols[i];
    switch (c.ty) {
    case Ty::Str:
      b.replace(c.offset, c.width, r[i].str);
      break;
    case Ty::Int1:
      b[c.offset] = static_cast<char>(r[i].i);
      break;
    case Ty::Int2:
      put_le(b, c.offset, static_cast<uint16_t>(r[i].i), 2, d.big);
      break;
    default: { // the most significant `width` bytes of the double
      for (size_t k = 0; k < c.width; ++k) {
        const auto byte = static_cast<char>(r[i].bits >> (8 * (7 - k)));
        b[c.offset + (d.big ? k : c.width - 1 - k)] = byte;
      }
    }
    }
  }
  return b;
}

// cheap filler derived from one choice
static std::string filler(uint64_t seed, size_t n) {
  std::string r(n, '\0');
  if (seed == 0)
    return r;
  if (seed < 256)
    return std::string(n, static_cast<char>(seed));
  uint64_t x = seed * 0x9e3779b97f4a7c15ull | 1;
  for (size_t i = 0; i < n; ++i) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    r[i] = static_cast<char>(x >> 56);
  }
  return r;
}
static uint64_t gen_filler_seed(Src &s) {
  switch (s.draw(3)) {
  case 0: return 0;
  case 1: return s.pick(std::vector<uint64_t>{0x20, 0xFF, 0x41, 0x01});
  default: return 256 + s.draw(1u << 30);
  }
}

bool looks_like_signature(const std::string &b, size_t is_) {
  static const std::vector<std::string> s32 = {"\xF7\xF7\xF7\xF7", "\xF6\xF6\xF6\xF6", std::string("\0\xFC\xFF\xFF", 4), std::string("\xFF\xFF\xFC\0", 4), "\xFD\xFF\xFF\xFF", "\xFF\xFF\xFF\xFD", "\xFF\xFF\xFF\xFF", "\xFC\xFF\xFF\xFF", "\xFF\xFF\xFF\xFC", "\xFE\xFB\xFF\xFF", "\xFF\xFF\xFB\xFE", "\xFE\xFF\xFF\xFF", "\xFF\xFF\xFF\xFE"};
  if (is_ == 4) {
    for (auto &x : s32)
      if (b.compare(0, 4, x) == 0)
        return true;
    return false;
  }
  const std::string h = b.substr(0, 8);
  if (h == std::string("\0\0\0\0\xF7\xF7\xF7\xF7", 8) || h == std::string("\xF7\xF7\xF7\xF7\0\0\0\0", 8) || h == std::string("\0\0\0\0\xF6\xF6\xF6\xF6", 8) || h == std::string("\xF6\xF6\xF6\xF6\0\0\0\0", 8))
    return true;
  size_t ff = 0;
  for (unsigned char c : h)
    ff += c == 0xFF;
  return ff >= 6;
}

Dataset gen_dataset(Src &s, const DsOpts &o) {
  Dataset d;
  d.big = s.flip();
  d.w64 = s.flip();
  d.a1 = s.flip();
  if (o.force_comp >= 0)
    d.comp = static_cast<Comp>(o.force_comp);
  else if (o.with_comp)
    d.comp = static_cast<Comp>(s.draw(2));
  if (o.rich_header || s.chance(1, 4))
    gen_header(s, d.h, o.wide_names);
  gen_schema(s, d, o);
  const size_t n = s.skewed(o.max_rows);
  const uint64_t fs = gen_filler_seed(s);
  for (size_t i = 0; i < n; ++i) {
    Row r;
    if (i && s.chance(1, 6))
      r = d.rows[s.draw(i - 1)];
    else
      for (auto &c : d.cols)
        r.push_back(gen_cell(s, c, o));
    std::string raw = encode_row(d, r, filler(fs ? fs + i * (fs > 255) : 0, d.row_length));
    if (d.comp != Comp::None && looks_like_signature(raw, d.isz())) {
      // a row stored raw that starts like a metadata block cannot be told from one: not a dataset SAS would write
      for (size_t k = 0; k < r.size(); ++k) {
        r[k].bits = 0;
        r[k].i = 0;
        r[k].str.assign(r[k].str.size(), ' ');
      }
      raw = encode_row(d, r, std::string());
    }
    d.raw_rows.push_back(std::move(raw));
    d.rows.push_back(std::move(r));
  }
  return d;
}

std::string describe(const Dataset &d) {
  std::string r = strf("%s-endian %s a1=%d compression=%d row_length=%zu rows=%zu cols=%zu [", d.big ? "big" : "little", d.w64 ? "64-bit" : "32-bit", d.a1, static_cast<int>(d.comp), d.row_length, d.rows.size(), d.cols.size());
  for (size_t i = 0; i < d.cols.size() && i < 8; ++i)
    r += strf("%s%s:%zu@%zu '%s' fmt='%s'", i ? ", " : "", ty_name(d.cols[i].ty), d.cols[i].width, d.cols[i].offset, d.cols[i].name.c_str(), d.cols[i].format.c_str());
  r += "]";
  for (size_t i = 0; i < d.rows.size() && i < 2; ++i)
    r += " row" + std::to_string(i) + "=" + hex(d.raw_rows[i], 24);
  return r;
}

// ---------------------------------------------------------------- compression
static void put_run(Src &s, std::string &o, unsigned char b, size_t &pos, size_t avail) {
  // an insert command of 2..avail copies of b (3.. for arbitrary bytes)
  const bool at = b == '@', sp = b == ' ', z = b == 0;
  if ((at || sp || z) && s.draw(3)) {
    const unsigned c17 = at ? 5 : sp ? 6 : 7, c2 = at ? 13 : sp ? 14 : 15;
    if (avail >= 17 && s.draw(3)) {
      const size_t n = 17 + (s.flip() ? s.draw(std::min<size_t>(avail, 4112) - 17) : std::min<size_t>(avail, 4112) - 17);
      o.push_back(static_cast<char>((c17 << 4) | ((n - 17) >> 8)));
      o.push_back(static_cast<char>((n - 17) & 0xFF));
      pos += n;
    } else {
      const size_t m = std::min<size_t>(avail, 17);
      const size_t n = s.flip() ? m : 2 + s.draw(m - 2);
      o.push_back(static_cast<char>((c2 << 4) | (n - 2)));
      pos += n;
    }
    return;
  }
  if (avail >= 18 && s.draw(3)) {
    const size_t n = 18 + (s.flip() ? s.draw(std::min<size_t>(avail, 513) - 18) : std::min<size_t>(avail, 513) - 18);
    size_t hi = (n - 18) / 16, lo;
    if (hi > 15)
      hi = 15;
    hi = s.range(n - 18 > 255 ? (n - 18 - 255 + 15) / 16 : 0, hi);
    lo = n - 18 - hi * 16;
    o.push_back(static_cast<char>((4 << 4) | hi));
    o.push_back(static_cast<char>(lo));
    o.push_back(static_cast<char>(b));
    pos += n;
  } else {
    const size_t m = std::min<size_t>(avail, 18);
    const size_t n = s.flip() ? m : 3 + s.draw(m - 3);
    o.push_back(static_cast<char>((12 << 4) | (n - 3)));
    o.push_back(static_cast<char>(b));
    pos += n;
  }
}
static void put_copy(Src &s, std::string &o, const std::string &lit) { // 1..4159 literal bytes
  const size_t n = lit.size();
  (void)s;
  if (n >= 64) {
    o.push_back(static_cast<char>((n - 64) >> 8));
    o.push_back(static_cast<char>((n - 64) & 0xFF));
  } else if (n >= 49)
    o.push_back(static_cast<char>(0xB0 | (n - 49)));
  else if (n >= 33)
    o.push_back(static_cast<char>(0xA0 | (n - 33)));
  else if (n >= 17)
    o.push_back(static_cast<char>(0x90 | (n - 17)));
  else
    o.push_back(static_cast<char>(0x80 | (n - 1)));
  o += lit;
}
std::string rle_encode(Src &s, const std::string &row) {
  std::string o;
  size_t end = row.size();
  if (s.chance(1, 4)) // bytes after the end of the commands read as zero
    while (end && row[end - 1] == 0)
      --end;
  size_t i = 0;
  while (i < end) {
    size_t r = 1;
    while (i + r < end && row[i + r] == row[i])
      ++r;
    const auto b = static_cast<unsigned char>(row[i]);
    const bool special = b == '@' || b == ' ' || b == 0;
    if (r >= 3 || (special && r >= 2)) {
      if (r == 2) {
        o.push_back(static_cast<char>((b == '@' ? 0xD0 : b == ' ' ? 0xE0 : 0xF0)));
        i += 2;
      } else
        put_run(s, o, b, i, r);
    } else {
      size_t n = 1;
      while (i + n < end && n < 4159) {
        size_t q = 1;
        while (i + n + q < end && q < 3 && row[i + n + q] == row[i + n])
          ++q;
        if (q >= 3 && s.draw(3))
          break;
        ++n;
      }
      if (s.chance(1, 8))
        n = 1 + s.draw(n - 1);
      put_copy(s, o, row.substr(i, n));
      i += n;
    }
  }
  return o;
}

namespace {
struct RdcOut { // packs items behind 16-bit control words
  std::string o;
  size_t ctrl{0};
  unsigned n{0};
  void item(bool flag, const std::string &bytes) {
    if (n % 16 == 0) {
      ctrl = o.size();
      o.append(2, '\0');
    }
    if (flag) {
      const unsigned bit = 15 - n % 16;
      if (bit >= 8)
        o[ctrl] = static_cast<char>(o[ctrl] | (1 << (bit - 8)));
      else
        o[ctrl + 1] = static_cast<char>(o[ctrl + 1] | (1 << bit));
    }
    ++n;
    o += bytes;
  }
  void run(Src &s, unsigned char b, size_t n_) {
    if (n_ >= 19 || (n_ > 18)) {
      const size_t v = n_ - 19;
      item(true, std::string{static_cast<char>(0x10 | (v & 15)), static_cast<char>(v >> 4), static_cast<char>(b)});
    } else
      item(true, std::string{static_cast<char>(n_ - 3), static_cast<char>(b)});
    (void)s;
  }
  void pattern(size_t ofs, size_t n_) {
    const size_t v = ofs - 3;
    if (n_ >= 16)
      item(true, std::string{static_cast<char>(0x20 | (v & 15)), static_cast<char>(v >> 4), static_cast<char>(n_ - 16)});
    else
      item(true, std::string{static_cast<char>((n_ << 4) | (v & 15)), static_cast<char>(v >> 4)});
  }
};
} // namespace
std::string rdc_encode(Src &s, const std::string &row) {
  RdcOut o;
  size_t end = row.size();
  if (s.chance(1, 4))
    while (end && row[end - 1] == 0)
      --end;
  size_t i = 0;
  while (i < end) {
    size_t r = 1;
    while (i + r < end && row[i + r] == row[i] && r < 4114)
      ++r;
    size_t best = 0, bofs = 0;
    if (i >= 3 && row.size() < 2000)
      for (size_t ofs = 3; ofs <= std::min<size_t>(i, 4098); ++ofs) {
        size_t m = 0;
        while (m < 271 && i + m < end && row[i + m] == row[i + m - ofs])
          ++m;
        if (m > best) {
          best = m;
          bofs = ofs;
        }
      }
    if (best >= 3 && (best > r || (best == r && s.flip()))) {
      const size_t n = s.draw(3) ? best : 3 + s.draw(best - 3);
      o.pattern(bofs, n);
      i += n;
    } else if (r >= 3) {
      const size_t n = s.draw(3) ? r : 3 + s.draw(r - 3);
      o.run(s, static_cast<unsigned char>(row[i]), n);
      i += n;
    } else {
      o.item(false, std::string(1, row[i]));
      ++i;
    }
  }
  // Two trailing zero bytes: a reader that takes them for items finds literal zeros of the rest of the row, or a full
  // row.  Without them the recorded defect C04-rdc-tail would show in every property.
  if (end < row.size() && o.n % 16 == 0)
    o.item(false, std::string(1, '\0'));
  o.o.append(2, '\0');
  return o.o;
}

// What the library yields for a stream given the recorded defect C04-rdc-tail: items are not looked at any more when
// less than three bytes remain.
std::string rdc_pinned(const std::string &st, size_t L) {
  std::string out;
  size_t i = 0;
  unsigned ctrl = 0, left = 0;
  auto at = [&](size_t k) { return static_cast<unsigned char>(k < st.size() ? st[k] : 0); };
  while (st.size() - std::min(i, st.size()) >= 3 && out.size() < L) {
    if (!left) {
      ctrl = static_cast<unsigned>(at(i) << 8 | at(i + 1));
      i += 2;
      left = 16;
    }
    --left;
    if (!(ctrl >> left & 1)) {
      out.push_back(static_cast<char>(at(i++)));
      continue;
    }
    const unsigned v = at(i++), cmd = v >> 4, lo = v & 15;
    if (cmd == 0) {
      out.append(lo + 3, static_cast<char>(at(i++)));
    } else if (cmd == 1) {
      const size_t n = lo + (static_cast<size_t>(at(i)) << 4) + 19;
      out.append(n, static_cast<char>(at(i + 1)));
      i += 2;
    } else {
      const size_t ofs = lo + 3 + (static_cast<size_t>(at(i++)) << 4);
      const size_t n = cmd == 2 ? at(i++) + 16u : cmd;
      for (size_t k = 0; k < n && ofs <= out.size(); ++k)
        out.push_back(out[out.size() - ofs]);
    }
  }
  out.resize(L, '\0');
  return out;
}

Stream rle_stream(Src &s, size_t L) {
  Stream r;
  size_t pos = 0;
  auto lit = [&](size_t n) {
    std::string x = filler(gen_filler_seed(s), n);
    return x;
  };
  // starts like a metadata block signature: such a row is a row all the same
  if (s.chance(1, 12)) {
    static const std::vector<std::string> sig = {"\xF7\xF7\xF7\xF7", "\xF6\xF6\xF6\xF6", "\xFD\xFF\xFF\xFF", "\xFF\xFF\xFF\xFF", "\xFC\xFF\xFF\xFF", "\xFE\xFB\xFF\xFF", "\xFE\xFF\xFF\xFF",
                                                 "\xFF\xFF\xFF\xFD", "\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", "\xFD\xFF\xFF\xFF\xFF\xFF\xFF\xFF", "\xFF\xFF\xFB\xFE"};
    for (unsigned char c : s.pick(sig)) {
      const size_t n = (c & 15) + 2u;
      if (pos + n > L)
        break;
      r.stream.push_back(static_cast<char>(c));
      r.expansion.append(n, c >> 4 == 15 ? '\0' : ' ');
      r.ops.push_back("signature-like");
      pos += n;
    }
  }
  const bool full = s.draw(3) != 0;
  while (pos < L) {
    if (!full && s.chance(1, 4))
      break;
    const size_t left = L - pos;
    const unsigned op = static_cast<unsigned>(s.draw(12));
    const size_t before = r.stream.size();
    auto len = [&](size_t lo, size_t hi) {
      hi = std::min(hi, left);
      switch (s.draw(3)) {
      case 0: return hi;
      case 1: return lo;
      default: return lo + s.draw(hi - lo);
      }
    };
    auto one = [&](unsigned cmd, unsigned lo4) { r.stream.push_back(static_cast<char>((cmd << 4) | lo4)); };
    std::string exp;
    const char *nm = "";
    if (op == 0 && left >= 64) {
      const size_t n = len(64, 4159);
      one(0, static_cast<unsigned>((n - 64) >> 8));
      r.stream.push_back(static_cast<char>((n - 64) & 255));
      exp = lit(n);
      r.stream += exp;
      nm = "COPY64";
    } else if (op == 1 && left >= 18) {
      const size_t n = len(18, 513);
      const size_t v = n - 18;
      const size_t hi = s.range(v > 255 ? (v - 255 + 15) / 16 : 0, std::min<size_t>(15, v / 16));
      one(4, static_cast<unsigned>(hi));
      r.stream.push_back(static_cast<char>(v - hi * 16));
      const char b = static_cast<char>(s.draw(255));
      r.stream.push_back(b);
      exp.assign(n, b);
      nm = "BYTE18";
    } else if (op >= 2 && op <= 4 && left >= 17) {
      const size_t n = len(17, 4112);
      one(3 + op, static_cast<unsigned>((n - 17) >> 8));
      r.stream.push_back(static_cast<char>((n - 17) & 255));
      exp.assign(n, "@ \0"[op - 2]);
      nm = "INSERT17";
    } else if (op >= 5 && op <= 8 && left >= (op == 5 ? 1u : 16u * (op - 5) + 1)) {
      const size_t lo = op == 5 ? 1 : 16 * (op - 5) + 1;
      const size_t n = len(lo, lo + 15);
      one(3 + op, static_cast<unsigned>(n - lo));
      exp = lit(n);
      r.stream += exp;
      nm = "COPY1-49";
    } else if (op == 9 && left >= 3) {
      const size_t n = len(3, 18);
      one(12, static_cast<unsigned>(n - 3));
      const char b = static_cast<char>(s.draw(255));
      r.stream.push_back(b);
      exp.assign(n, b);
      nm = "BYTE3";
    } else if (op >= 10 && left >= 2) {
      const size_t n = len(2, 17);
      one(3 + op, static_cast<unsigned>(n - 2));
      exp.assign(n, "@ \0"[op - 10]);
      nm = "INSERT2";
    } else {
      const size_t n = std::min<size_t>(left, 16);
      one(8, static_cast<unsigned>(n - 1));
      exp = lit(n);
      r.stream += exp;
      nm = "COPY1";
    }
    r.expansion += exp;
    pos += exp.size();
    r.ops.push_back(nm);
    r.one_byte_tail = r.stream.size() - before == 1;
  }
  if (pos < L) {
    r.padded = true;
    r.expansion.resize(L, '\0');
  }
  return r;
}

Stream rdc_stream(Src &s, size_t L) {
  Stream r;
  RdcOut o;
  // starts like a metadata block signature (00 FC FF FF..., the one a stream can start with): such a row is a row all the same
  const bool sig = L >= 28 && s.chance(1, 8);
  if (sig) {
    for (int i = 0; i < 8; ++i) {
      const char b = i < 2 || s.flip() ? '\xff' : static_cast<char>(s.draw(255));
      o.item(false, std::string(1, b));
      r.expansion.push_back(b);
    }
    for (int i = 0; i < 6; ++i)
      if (s.flip()) {
        const auto b = static_cast<unsigned char>(s.draw(255));
        o.run(s, b, 3);
        r.expansion.append(3, static_cast<char>(b));
      } else {
        o.pattern(3, 3);
        r.expansion += r.expansion.substr(r.expansion.size() - 3);
      }
    r.ops.push_back("signature-like");
  }
  const bool full = s.draw(3) != 0;
  while (r.expansion.size() < L) {
    if (!full && s.chance(1, 4))
      break;
    const size_t pos = r.expansion.size(), left = L - pos;
    const bool literal = sig && o.n < 16; // the last two items of that control word
    auto len = [&](size_t lo, size_t hi) {
      hi = std::min(hi, left);
      switch (s.draw(3)) {
      case 0: return hi;
      case 1: return lo;
      default: return lo + s.draw(hi - lo);
      }
    };
    auto ofs = [&] {
      const size_t hi = std::min<size_t>(pos, 4098);
      switch (s.draw(3)) {
      case 0: return size_t(3);
      case 1: return hi;
      case 2: return 3 + s.draw(std::min<size_t>(hi - 3, 12));
      default: return 3 + s.draw(hi - 3);
      }
    };
    const unsigned op = literal ? 0 : static_cast<unsigned>(s.draw(5));
    if (op == 1 && left >= 3) {
      const size_t n = len(3, 18);
      const auto b = static_cast<unsigned char>(s.draw(255));
      o.run(s, b, n);
      r.expansion.append(n, static_cast<char>(b));
      r.ops.push_back("short-run");
    } else if (op == 2 && left >= 19) {
      const size_t n = len(19, 4114);
      const auto b = static_cast<unsigned char>(s.draw(255));
      o.run(s, b, n);
      r.expansion.append(n, static_cast<char>(b));
      r.ops.push_back("long-run");
    } else if ((op == 3 && left >= 3 && pos >= 3) || (op == 4 && left >= 16 && pos >= 3)) {
      const size_t n = op == 3 ? len(3, 15) : len(16, 271);
      const size_t f = ofs();
      o.pattern(f, n);
      for (size_t k = 0; k < n; ++k)
        r.expansion.push_back(r.expansion[r.expansion.size() - f]);
      r.overlap |= f < n;
      r.ops.push_back(op == 3 ? "short-pattern" : "long-pattern");
    } else {
      const char b = static_cast<char>(s.draw(255));
      o.item(false, std::string(1, b));
      r.expansion.push_back(b);
      r.ops.push_back("literal");
    }
  }
  if (s.draw(3)) { // harmless trailing bytes, see rdc_encode
    if (r.expansion.size() < L && o.n % 16 == 0) {
      o.item(false, std::string(1, '\0'));
      r.expansion.push_back('\0');
    }
    o.o.append(2, '\0');
  }
  r.stream = o.o;
  if (r.expansion.size() < L) {
    r.padded = true;
    r.expansion.resize(L, '\0');
  }
  r.pinned = rdc_pinned(r.stream, L);
  return r;
}

// ---------------------------------------------------------------- writer
namespace {
struct Block {
  std::string body;
  unsigned char type{0}; // pointer type byte
  char kind{'?'};
};
struct Ptr {
  std::string body; // empty: zero-length or truncated pointer
  unsigned char comp{0}, type{0};
  bool truncated{false};
  uint64_t t_off{0}, t_len{0};
};
struct Writer {
  const Dataset &d;
  Src &s;
  const WriteOpts &o;
  File f;
  const size_t is, bit, ptr_sz;
  uint64_t fill_seed{0};
  bool vary; // physical variations on

  Writer(const Dataset &d_, Src &s_, const WriteOpts &o_) : d(d_), s(s_), o(o_), is(d_.isz()), bit(d_.w64 ? 32 : 16), ptr_sz(3 * d_.isz()), vary(!o_.canonical) {}

  void put(std::string &b, size_t off, uint64_t v, size_t n) {
    if (off + n > b.size())
      throw HarnessError{"writer: put out of range"};
    put_le(b, off, v, n, d.big);
  }
  void put_int(std::string &b, size_t off, uint64_t v) { put(b, off, v, is); }
  std::string fill(size_t n) { return filler(fill_seed ? fill_seed++ : 0, n); }
  std::string sig64_or_32(uint32_t v32, uint64_t v64) {
    std::string b(is, '\0');
    put_int(b, 0, d.w64 ? v64 : v32);
    return b;
  }
  std::string sig(char k) { // values as integers of the file's width and byte order
    switch (k) {
    case 'R': return d.w64 ? (d.big ? std::string("\0\0\0\0\xF7\xF7\xF7\xF7", 8) : std::string("\xF7\xF7\xF7\xF7\0\0\0\0", 8)) : std::string("\xF7\xF7\xF7\xF7", 4);
    case 'C': return d.w64 ? (d.big ? std::string("\0\0\0\0\xF6\xF6\xF6\xF6", 8) : std::string("\xF6\xF6\xF6\xF6\0\0\0\0", 8)) : std::string("\xF6\xF6\xF6\xF6", 4);
    case 'K': return d.w64 ? (d.big ? std::string("\xFF\xFF\xFF\xFF\xFF\xFF\xFC\x00", 8) : std::string("\x00\xFC\xFF\xFF\xFF\xFF\xFF\xFF", 8)) : (d.big ? std::string("\xFF\xFF\xFC\x00", 4) : std::string("\x00\xFC\xFF\xFF", 4));
    case 'T': return sig64_or_32(0xFFFFFFFDu, 0xFFFFFFFFFFFFFFFDull);
    case 'N': return sig64_or_32(0xFFFFFFFFu, ~0ull);
    case 'A': return sig64_or_32(0xFFFFFFFCu, 0xFFFFFFFFFFFFFFFCull);
    case 'F': return sig64_or_32(0xFFFFFBFEu, 0xFFFFFFFFFFFFFBFEull);
    default: return sig64_or_32(0xFFFFFFFEu, 0xFFFFFFFFFFFFFFFEull);
    }
  }
  struct TextRef {
    size_t idx{0}, off{0}, len{0};
  };
  std::vector<std::string> texts; // text pool blocks, without signature: starts with the 2-byte length
  size_t text_cap{30000};

  TextRef place(const std::string &str) {
    TextRef t;
    if (str.empty()) {
      if (vary) {
        t.idx = s.draw(texts.size() - 1);
        t.off = s.draw(80);
      }
      return t;
    }
    const bool marker = str.find("SASYZCR") != std::string::npos;
    // reuse an occurrence of the same text
    if (!vary || s.flip())
      for (size_t i = marker ? 1 : 0; i < texts.size(); ++i) {
        const auto p = texts[i].find(str, i == 0 ? pre0 : 8);
        if (p != std::string::npos && p < 65000) {
          t.idx = i;
          t.off = p;
          t.len = str.size();
          return t;
        }
      }
    std::string stored = str;
    if (vary && s.chance(1, 4)) { // surrounding blanks are not part of the text
      stored = std::string(s.draw(2), ' ') + stored + std::string(s.draw(3), ' ');
    }
    if (texts.back().size() + stored.size() + 8 > text_cap || (vary && s.chance(1, 40)))
      texts.push_back(std::string(8, '\0'));
    size_t i = texts.size() - 1;
    if (vary && texts.size() > 1 && s.chance(1, 4)) {
      const size_t k = s.draw(texts.size() - 1);
      if (texts[k].size() + stored.size() + 8 <= text_cap)
        i = k;
    }
    if (marker && i == 0) { // the first text block tells the compression
      if (texts.size() == 1)
        texts.push_back(std::string(8, '\0'));
      i = 1;
    }
    auto &tx = texts[i];
    while (tx.size() % 4)
      tx.push_back(vary ? static_cast<char>(s.pick(std::vector<uint64_t>{0, ' ', 'x'})) : '\0');
    if (vary && s.chance(1, 10))
      tx += "junk";
    t.idx = i;
    t.off = tx.size();
    t.len = stored.size();
    tx += stored;
    return t;
  }
  size_t pre0{64};

  std::vector<Block> blocks;
  size_t row_size_block{0};

  void build_metadata() {
    // creator, creating procedure
    f.lcs = f.lcp = 0;
    std::string pre(12, '\0');
    for (size_t i = 8; i < 12; ++i)
      pre[i] = vary ? static_cast<char>(s.draw(255)) : 0;
    std::string proc = vary && s.flip() ? rstrip_lstrip(s.text(s.draw(16), AL)) : "DATASTEP";
    std::string stored_lcs_text;
    size_t st_lcs = 0, st_lcp = proc.size();
    if (vary && s.chance(1, 4))
      st_lcp += s.draw(3); // padded with blanks
    std::string ptxt = proc;
    ptxt.resize(st_lcp, ' ');
    if (d.comp == Comp::RLE) {
      pre += "SASYZCRL";
      pre += std::string(16, vary && s.flip() ? ' ' : '\0');
      pre += ptxt;
      if (vary)
        st_lcs = s.draw(8);
      f.lcs = st_lcs;
      f.lcp = st_lcp;
      f.creator_proc = proc;
    } else if (d.comp == Comp::RDC) {
      pre += "SASYZCR2";
      pre += std::string(16, ' ');
      pre += ptxt;
      f.lcs = 0;
      f.lcp = st_lcp;
    } else if (vary && s.chance(1, 3)) { // a creator
      std::string cr = rstrip_lstrip(s.text(1, AL) + s.text(s.draw(30), PRINT));
      st_lcs = cr.size();
      cr.resize(std::max<size_t>(8, cr.size()), ' ');
      if (s.chance(1, 4))
        st_lcs += s.draw(2);
      std::string c2 = cr;
      c2.resize(std::max(c2.size(), st_lcs), ' ');
      pre += c2;
      f.creator = rstrip_lstrip(c2.substr(0, st_lcs));
      f.lcs = st_lcs;
      f.lcp = 0;
    } else {
      pre += std::string(8, vary && s.flip() ? '\0' : ' ');
      pre += std::string(8, vary && s.flip() ? '\0' : ' ');
      pre += ptxt;
      if (vary)
        st_lcs = s.draw(8);
      f.lcs = 0;
      f.lcp = st_lcp;
      f.creator_proc = proc;
    }
    while (pre.size() < 64 || pre.size() % 4)
      pre.push_back(' ');
    pre0 = pre.size();
    texts = {pre};
    if (vary)
      text_cap = s.pick(std::vector<size_t>{30000, 4000, 400, 150, 60000});
    if (vary && o.scale) {
      if (s.chance(1, 3)) { // many text blocks
        const size_t k = 1 + s.skewed(400);
        for (size_t i = 0; i < k; ++i)
          texts.push_back(std::string(8, '\0') + "qq");
        f.labels.push_back(texts.size() > 256 ? "text-blocks:>256" : "text-blocks:many");
      }
      if (s.chance(1, 3)) { // long text blocks
        texts.back() += std::string(8000 + s.draw(46000), 'q');
        text_cap = 60000;
        f.labels.push_back(texts.back().size() > 32768 ? "text-block:>32768" : "text-block:long");
      }
    }

    const size_t n = d.cols.size();
    std::vector<TextRef> nm(n), lb(n), fm(n);
    const uint64_t order = vary ? s.draw(2) : 0;
    if (order == 0)
      for (size_t i = 0; i < n; ++i) {
        nm[i] = place(d.cols[i].name);
        fm[i] = place(d.cols[i].format);
        lb[i] = place(d.cols[i].label);
      }
    else {
      for (size_t i = n; i-- > 0;)
        lb[i] = place(d.cols[i].label);
      for (size_t i = 0; i < n; ++i)
        fm[i] = place(d.cols[i].format);
      for (size_t k = 0; k < n; ++k)
        nm[order == 1 ? k : n - 1 - k] = place(d.cols[order == 1 ? k : n - 1 - k].name);
    }
    if (vary && s.chance(1, 10))
      texts.push_back(std::string(8, '\0')); // an empty text block

    std::vector<Block> text_b, name_b, attr_b, fmt_b;
    for (auto &t : texts) {
      Block b;
      b.kind = 'T';
      b.type = 1;
      std::string body = t;
      const size_t len = body.size();
      if (len > 65535)
        throw HarnessError{"writer: text block too long"};
      put(body, 0, len, 2);
      b.body = sig('T') + body;
      while (b.body.size() % 4)
        b.body.push_back(0);
      if (vary && s.chance(1, 4))
        b.body += fill(s.draw(12));
      text_b.push_back(b);
    }
    // names, attributes: possibly several blocks
    auto chunks = [&](size_t max_entries) {
      std::vector<size_t> c;
      size_t left = n;
      do {
        size_t k = std::min(left, max_entries);
        if (vary && left > 1 && s.chance(1, 8))
          k = std::min(k, 1 + s.draw(left - 1));
        c.push_back(k);
        left -= k;
      } while (left);
      return c;
    };
    size_t icol = 0;
    for (size_t k : chunks(1500)) {
      Block b;
      b.kind = 'N';
      b.type = 1;
      std::string body = sig('N') + fill(8);
      put(body, is, 8 * k + 20, 2);
      for (size_t j = 0; j < k; ++j, ++icol) {
        std::string e = fill(8);
        put(e, 0, nm[icol].idx, 2);
        put(e, 2, nm[icol].off, 2);
        put(e, 4, nm[icol].len, 2);
        body += e;
      }
      body += fill(8 * k + 12 + 2 * is - body.size());
      b.body = body;
      name_b.push_back(b);
    }
    icol = 0;
    for (size_t k : chunks(1000)) {
      Block b;
      b.kind = 'A';
      b.type = 1;
      std::string body = sig('A') + fill(8);
      for (size_t j = 0; j < k; ++j, ++icol) {
        std::string e = fill(is + 8);
        put_int(e, 0, d.cols[icol].offset);
        put(e, is, d.cols[icol].width, 4);
        put(e, is + 4, s.draw(0) ? 4 : 4, 2);
        e[is + 6] = d.cols[icol].numeric() ? 1 : 2;
        body += e;
      }
      const size_t total = (is + 8) * k + 12 + 2 * is;
      body += fill(total - body.size());
      b.body = body;
      attr_b.push_back(b);
    }
    for (size_t i = 0; i < n; ++i) {
      Block b;
      b.kind = 'F';
      b.type = 1;
      const size_t total = vary && s.flip() ? 3 * is + 34 : (d.w64 ? 64 : 52);
      std::string body = sig('F');
      body += fill(total - body.size());
      const size_t q = 3 * is;
      put(body, q + 22, fm[i].idx, 2);
      put(body, q + 24, fm[i].off, 2);
      put(body, q + 26, fm[i].len, 2);
      put(body, q + 28, lb[i].idx, 2);
      put(body, q + 30, lb[i].off, 2);
      put(body, q + 32, lb[i].len, 2);
      b.body = body;
      fmt_b.push_back(b);
    }
    Block rs, cs;
    rs.kind = 'R';
    {
      const size_t total = vary && s.flip() ? (d.w64 ? 710 : 382) + s.draw(40) : (d.w64 ? 808 : 480);
      std::string body = sig('R');
      body += fill(total - body.size());
      f.col_count_p1 = vary && s.flip() ? s.draw(n) : n;
      f.col_count_p2 = n - f.col_count_p1;
      put_int(body, 5 * is, d.row_length);
      put_int(body, 6 * is, d.rows.size());
      put_int(body, 9 * is, f.col_count_p1);
      put_int(body, 10 * is, f.col_count_p2);
      put_int(body, 15 * is, 0); // later
      put(body, d.w64 ? 682 : 354, st_lcs, 2);
      put(body, d.w64 ? 706 : 378, st_lcp, 2);
      rs.body = body;
    }
    cs.kind = 'C';
    cs.body = sig('C') + std::string(is, '\0') + fill(is);
    put_int(cs.body, is, n);
    // order: row size before the texts, texts before what refers to them; the rest is free
    std::vector<Block> extra;
    auto opaque = [&](char k, size_t len) {
      Block b;
      b.kind = k;
      b.type = k == 'L' ? 1 : 0;
      b.body = sig(k) + fill(len);
      return b;
    };
    if (!vary || s.flip())
      extra.push_back(opaque('K', d.w64 ? 592 : 312));
    if (vary && s.flip())
      extra.push_back(opaque('L', 20 + 4 * n));
    blocks.clear();
    if (!vary || s.flip()) { // the order SAS uses
      blocks.push_back(rs);
      blocks.push_back(cs);
      for (auto &b : extra)
        if (b.kind == 'K')
          blocks.push_back(b);
      for (auto *v : {&text_b, &name_b, &attr_b, &fmt_b})
        for (auto &b : *v)
          blocks.push_back(b);
      for (auto &b : extra)
        if (b.kind == 'L')
          blocks.push_back(b);
    } else {
      // random merge respecting: R < T0 < T1 ... ; all T < N, F ; N, A, F in their own order
      std::vector<std::vector<Block>> q(6);
      q[0].push_back(rs);
      for (auto &b : text_b)
        q[0].push_back(b);
      q[1].push_back(cs);
      q[2] = name_b;
      q[3] = attr_b;
      q[4] = fmt_b;
      q[5] = extra;
      std::vector<size_t> at(6, 0);
      for (;;) {
        std::vector<size_t> c;
        for (size_t k = 0; k < 6; ++k)
          if (at[k] < q[k].size() && !((k == 2 || k == 4) && at[0] < q[0].size()))
            c.push_back(k);
        if (c.empty())
          break;
        const size_t k = c[s.draw(c.size() - 1)];
        blocks.push_back(q[k][at[k]++]);
      }
      f.labels.push_back("metadata:shuffled");
    }
    for (size_t i = 0; i < blocks.size(); ++i)
      if (blocks[i].kind == 'R')
        row_size_block = i;
    if (texts.size() > 1)
      f.labels.push_back("metadata:several-text-blocks");
    if (name_b.size() > 1 || attr_b.size() > 1)
      f.labels.push_back("metadata:continuation-blocks");
  }

  // required bytes of a page holding these bodies
  size_t need(const std::vector<Ptr> &p) const {
    size_t n = bit + 8 + p.size() * ptr_sz + 8;
    for (auto &x : p)
      n += x.body.size() + 7;
    return n;
  }

  std::string page_base(uint16_t type, uint16_t blocks_, uint16_t subs) {
    std::string p = fill(f.page_length);
    put(p, bit, type, 2);
    put(p, bit + 2, blocks_, 2);
    put(p, bit + 4, subs, 2);
    return p;
  }
  // writes pointers and bodies; rows (if any) occupy [row_begin,row_end)
  void put_ptrs(std::string &p, const std::vector<Ptr> &v, size_t reserved_end) {
    // bodies: from the end of the page backwards, or forwards after the reserved part
    size_t lo = reserved_end, hi = p.size();
    size_t total = 0;
    for (auto &x : v)
      total += x.body.size();
    size_t slack = hi - lo - total;
    const bool back = !vary || s.flip();
    for (size_t i = 0; i < v.size(); ++i) {
      const size_t at = bit + 8 + i * ptr_sz;
      const Ptr &x = v[i];
      uint64_t off, len;
      if (x.body.empty()) {
        off = x.t_off;
        len = x.t_len;
      } else {
        size_t g = vary && slack && s.chance(1, 3) ? s.draw(std::min<size_t>(slack, 16)) : 0;
        slack -= g;
        len = x.body.size();
        if (back) {
          hi -= g + len;
          off = hi;
        } else {
          off = lo + g;
          lo += g + len;
        }
        p.replace(off, len, x.body);
      }
      put_int(p, at, off);
      put_int(p, at + is, len);
      p[at + 2 * is] = static_cast<char>(x.comp);
      p[at + 2 * is + 1] = static_cast<char>(x.type);
    }
  }
  void add_page(const std::string &p, size_t rows, bool meta, const std::string &kind) {
    PageInfo i;
    i.begin = f.bytes.size();
    f.bytes += p;
    i.end = f.bytes.size();
    i.rows_before = done;
    i.rows = rows;
    i.metadata = meta;
    i.kind = kind;
    done += rows;
    if (meta)
      f.metadata_end = i.end;
    if (rows && !f.first_data_page_end)
      f.first_data_page_end = i.end;
    f.pages.push_back(i);
  }
  size_t done{0};

  void noise_ptr(std::vector<Ptr> &v) {
    Ptr q;
    if (s.flip()) { // zero length: no data
      q.t_off = s.draw(f.page_length ? f.page_length : 0);
      q.t_len = 0;
      q.comp = static_cast<unsigned char>(s.pick(std::vector<uint64_t>{0, 1, 4}));
      q.type = static_cast<unsigned char>(s.draw(1));
    } else { // truncated: not to be read
      q.truncated = true;
      q.comp = 1;
      q.type = static_cast<unsigned char>(s.draw(1));
      q.t_len = 1 + s.draw(15);
      q.t_off = bit + s.draw(32);
    }
    v.insert(v.begin() + static_cast<long>(s.draw(v.size())), q);
  }
  void skip_page(bool data_phase) {
    if (!vary)
      return;
    const unsigned k = static_cast<unsigned>(s.draw(data_phase ? 4 : 1));
    switch (k) {
    case 0: add_page(page_base(16384, static_cast<uint16_t>(s.draw(9)), static_cast<uint16_t>(s.draw(9))), 0, false, "METC"); break;
    case 1: add_page(page_base(0x9000, static_cast<uint16_t>(s.draw(9)), static_cast<uint16_t>(s.draw(9))), 0, false, "COMP"); break;
    case 2: add_page(page_base(1024, 0, 0), 0, false, "AMD-empty"); break;
    case 3: {
      std::vector<Ptr> v;
      const size_t n = s.draw(2);
      for (size_t i = 0; i < n && bit + 8 + (i + 1) * ptr_sz + 40 < f.page_length; ++i)
        noise_ptr(v);
      auto p = page_base(0, static_cast<uint16_t>(v.size()), static_cast<uint16_t>(v.size()));
      put_ptrs(p, v, bit + 8 + v.size() * ptr_sz);
      add_page(p, 0, false, "META-empty");
      break;
    }
    default: add_page(page_base(256, 0, 0), 0, false, "DATA-empty"); break;
    }
    f.labels.push_back("page:" + f.pages.back().kind);
  }

  Ptr row_ptr(size_t irow, bool metadata_phase, bool &ambiguous) {
    Ptr q;
    q.type = 1;
    ambiguous = false;
    std::string st;
    if (o.streams)
      st = (*o.streams)[irow];
    else if (o.force_compressed_rows || s.draw(4))
      st = d.comp == Comp::RLE ? rle_encode(s, d.raw_rows[irow]) : rdc_encode(s, d.raw_rows[irow]);
    if (!st.empty() && st.size() < d.row_length) {
      q.comp = 4;
      q.body = st;
    } else {
      q.comp = 0;
      q.body = d.raw_rows[irow];
      ambiguous = metadata_phase && looks_like_signature(q.body, is);
    }
    return q;
  }

  File run() {
    fill_seed = vary ? gen_filler_seed(s) : 0;
    build_metadata();
    const size_t nrows = d.rows.size();
    // partition the metadata over pages
    std::vector<std::vector<Ptr>> mp(1);
    std::vector<std::pair<size_t, size_t>> rs_at; // where the row size block went
    const bool split = vary && s.chance(1, 3);
    for (size_t i = 0; i < blocks.size(); ++i) {
      if (split && !mp.back().empty() && s.chance(1, blocks.size() > 20 ? 20 : 4))
        mp.emplace_back();
      Ptr q;
      q.body = blocks[i].body;
      q.type = blocks[i].type;
      mp.back().push_back(q);
    }
    if (split && mp.size() > 1)
      f.labels.push_back("metadata:several-pages");
    // page length
    size_t pl = bit + 8 + d.row_length;
    if (d.comp != Comp::None)
      pl = std::max(pl, bit + 8 + ptr_sz + d.row_length + 8);
    for (auto &v : mp)
      pl = std::max(pl, need(v) + (vary ? 2 * ptr_sz : 0));
    if (!vary)
      pl = (pl + d.row_length * 4 + 1023) / 1024 * 1024;
    else
      switch (s.draw(3)) {
      case 0: break; // tight
      case 1: pl += s.draw(3 * d.row_length + 16); break;
      case 2: pl = (pl + 511) / 512 * 512; break;
      default: pl = (pl + s.skewed(40 * d.row_length) + 1023) / 1024 * 1024; break;
      }
    if (vary && o.scale && s.flip()) {
      pl = std::max(pl, s.pick(std::vector<size_t>{32760, 32768, 40000, 65528, 65532, 65536, 65544, 70000, 131072, 200000, 262144}));
      f.labels.push_back(pl > 65535 ? "page-length:>65535" : "page-length:large");
    }
    f.page_length = pl;
    if (vary)
      for (auto &v : mp)
        while (s.chance(1, 6) && need(v) + ptr_sz + 16 <= pl)
          noise_ptr(v);

    // header
    const size_t ta = (d.a1 ? 4u : 0u) + (d.w64 ? 4u : 0u), a1 = d.a1 ? 4 : 0;
    f.header_length = o.force_header_length ? o.force_header_length : !vary ? 1024 : s.pick(std::vector<size_t>{1024, 8192, 288 + ta, 300, 512, 1001, 296});
    if (vary && o.scale && s.chance(1, 3))
      f.header_length = s.pick(std::vector<size_t>{32768, 40000, 65535, 65536, 65824, 70000, 131072, 100003});
    std::string h = fill(f.header_length);
    static const unsigned char magic[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 0x08, 0, 0x09, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
    h.replace(0, 32, reinterpret_cast<const char *>(magic), 32);
    auto flag = [&](size_t at, bool on, char v) {
      if (on)
        h[at] = v;
      else if (h[at] == v || !vary)
        h[at] = 0x22;
    };
    flag(32, d.w64, '3');
    flag(35, d.a1, '3');
    h[37] = d.big ? (vary && s.flip() ? static_cast<char>(s.pick(std::vector<uint64_t>{0, 2, '1', 0xFF})) : 0) : 1;
    h[39] = d.h.platform;
    h[70] = static_cast<char>(d.h.encoding);
    const char padc = vary && s.flip() ? '\0' : ' ';
    auto str = [&](size_t at, size_t n, const std::string &v) {
      std::string x = v;
      if (vary && x.size() + 2 < n && s.chance(1, 10))
        x = " " + x;
      x.resize(n, padc);
      h.replace(at, n, x);
    };
    str(92, 64, d.h.dataset_name);
    str(156, 8, d.h.file_type);
    uint64_t u = dbits(d.h.created);
    put(h, 164 + a1, u, 8);
    u = dbits(d.h.modified);
    put(h, 172 + a1, u, 8);
    put(h, 196 + a1, f.header_length, 4);
    put(h, 200 + a1, f.page_length, 4);
    str(216 + ta, 8, d.h.release);
    str(224 + ta, 16, d.h.server_type);
    str(240 + ta, 16, d.h.os_type);
    str(256 + ta, 16, d.h.os_maker);
    if (d.h.os_name.empty())
      h.replace(272 + ta, 16, std::string(1, '\0') + fill(15));
    else {
      std::string x = d.h.os_name;
      if (x.size() < 16 && vary && s.chance(1, 8)) // blanks are no part of it
        x = std::string(1 + s.draw(15 - x.size()), ' ') + x;
      x.resize(16, padc);
      h.replace(272 + ta, 16, x);
    }
    f.bytes = h;

    // style of the first rows
    enum { MIX, META_THEN } style = META_THEN;
    if (d.comp == Comp::None && (!vary || s.draw(2)))
      style = MIX;
    size_t next = 0; // next row to store
    bool first_data_pending = true;
    for (size_t i = 0; i < mp.size(); ++i) {
      const bool last = i + 1 == mp.size();
      if (vary && i && s.chance(1, 6))
        skip_page(false);
      auto v = mp[i];
      if (last && style == MIX) {
        size_t bodies = 0;
        for (auto &q : v)
          bodies += q.body.size();
        const size_t start0 = bit + 8 + v.size() * ptr_sz, start = start0 + start0 % 8;
        const size_t avail = pl > start + bodies ? (pl - start - bodies) / d.row_length : 0;
        size_t m = std::min({avail, nrows, size_t(65000) - v.size()});
        if (vary && m && s.flip())
          m = s.draw(m);
        f.mix_page_row_count = m < nrows ? m : m + (vary ? s.draw(50) : 0);
        auto p = page_base(vary && s.flip() ? 640 : 512, static_cast<uint16_t>(m + v.size()), static_cast<uint16_t>(v.size()));
        put_ptrs(p, v, start + m * d.row_length);
        for (size_t k = 0; k < m; ++k)
          p.replace(start + k * d.row_length, d.row_length, d.raw_rows[next + k]);
        next += m;
        add_page(p, m, true, "MIX");
        first_data_pending = false;
        f.labels.push_back("page:MIX");
      } else {
        if (last && d.comp != Comp::None && (!vary || s.flip())) {
          size_t used = need(v);
          while (next < nrows && used + ptr_sz + 8 < pl) {
            bool amb = false;
            Ptr q = row_ptr(next, true, amb);
            if (amb || used + ptr_sz + q.body.size() + 8 > pl)
              break;
            if (vary && s.chance(1, 20))
              break;
            used += ptr_sz + q.body.size() + 8;
            v.push_back(q);
            ++next;
            if (vary && s.chance(1, 12) && used + ptr_sz + 16 < pl) {
              Ptr t;
              t.truncated = true;
              t.comp = 1;
              t.type = 1;
              t.t_len = 1;
              t.t_off = bit + 8;
              v.push_back(t);
              used += ptr_sz + 8;
            }
          }
        }
        const size_t rows_here = next - done;
        // rows on an AMD page are not looked for when reading data, only META may hold them
        const uint16_t type = vary && rows_here == 0 && s.chance(1, 6) ? 1024 : 0;
        auto p = page_base(type, static_cast<uint16_t>(v.size()), static_cast<uint16_t>(v.size()));
        put_ptrs(p, v, bit + 8 + v.size() * ptr_sz);
        if (rows_here)
          first_data_pending = false;
        add_page(p, rows_here, true, type ? "AMD" : "META");
        f.labels.push_back(rows_here ? "page:META+rows" : type ? "page:AMD" : "page:META");
      }
    }
    if (style == MIX)
      patch_row_size(); // the row size block may be on an earlier page
    // data pages
    size_t empty_left = std::min<size_t>(o.empty_pages, (size_t(24) << 20) / pl);
    const size_t burst = 1 + empty_left / 5;
    while (next < nrows) {
      if (vary && s.chance(1, 8))
        skip_page(true);
      if (empty_left && s.chance(1, 4))
        for (size_t k = std::min(empty_left, burst); k; --k, --empty_left)
          switch (k % 4) {
          case 0: add_page(page_base(0, 0, 0), 0, false, "META-empty"); break;
          case 1: add_page(page_base(1024, 0, 0), 0, false, "AMD-empty"); break;
          default: add_page(page_base(256, 0, 0), 0, false, "DATA-empty"); break;
          }
      if (d.comp == Comp::None) {
        const size_t cap = std::min<size_t>((pl - bit - 8) / d.row_length, 65000);
        size_t k = std::min(cap, nrows - next);
        if (vary && k > 1 && (s.chance(1, 3) || o.small_pages))
          k = 1 + s.draw(k - 1);
        size_t bc = k;
        if (next + k == nrows && vary && k < cap && s.chance(1, 4)) // garbage rows after the last one
          bc = k + s.draw(cap - k);
        auto p = page_base(256, static_cast<uint16_t>(bc), vary && s.chance(1, 6) ? static_cast<uint16_t>(s.draw(5)) : uint16_t(0));
        for (size_t i = 0; i < k; ++i)
          p.replace(bit + 8 + i * d.row_length, d.row_length, d.raw_rows[next + i]);
        next += k;
        add_page(p, k, false, "DATA");
        f.labels.push_back("page:DATA");
      } else {
        std::vector<Ptr> v;
        size_t used = bit + 8 + 8;
        const bool few = vary && (s.chance(1, 3) || o.small_pages);
        const size_t before = next;
        while (next < nrows) {
          bool amb = false;
          Ptr q = row_ptr(next, first_data_pending, amb);
          if (amb) {
            if (v.empty())
              throw HarnessError{"writer: ambiguous raw row"};
            break; // the next page is no longer ambiguous
          }
          if (used + ptr_sz + q.body.size() > pl)
            break;
          used += ptr_sz + q.body.size();
          v.push_back(q);
          ++next;
          if (vary && s.chance(1, 12) && used + ptr_sz < pl) {
            Ptr t;
            t.truncated = true;
            t.comp = 1;
            t.type = 1;
            t.t_len = s.draw(1);
            t.t_off = bit + 8;
            v.push_back(t);
            used += ptr_sz;
          }
          if (few && s.chance(1, 3))
            break;
          if (v.size() > 60000)
            break;
        }
        auto p = page_base(0, static_cast<uint16_t>(v.size()), static_cast<uint16_t>(v.size()));
        size_t tot = 0;
        for (auto &q : v)
          tot += q.body.size();
        put_ptrs(p, v, bit + 8 + v.size() * ptr_sz);
        first_data_pending = false;
        add_page(p, next - before, false, "META-rows");
        f.labels.push_back("page:META-rows");
      }
    }
    if (vary && !o.no_tail && o.early_stop) {
      if (s.chance(1, 5)) {
        const size_t n = 1 + s.draw(1);
        for (size_t i = 0; i < n; ++i) {
          if (nrows && s.flip()) { // a page of garbage rows after the last stored row
            auto p = page_base(256, static_cast<uint16_t>(std::min<size_t>((pl - bit - 8) / d.row_length, 65000)), 0);
            add_page(p, 0, false, "tail");
          } else
            skip_page(true);
        }
        f.labels.push_back("tail:pages");
      }
      if (s.chance(1, 6)) {
        f.bytes += fill(1 + s.draw(pl - 2));
        f.labels.push_back("tail:partial-page");
      }
    }
    f.page_count = f.pages.size();
    f.header_page_count = o.header_page_count >= 0 ? static_cast<size_t>(o.header_page_count) : f.page_count;
    put(f.bytes, 204 + a1, f.header_page_count, d.w64 ? 8 : 4);
    return std::move(f);
  }
  void patch_row_size() {
    // locate the row size block in the file by its pointer and set the per-page row count
    for (auto &pg : f.pages) {
      if (!pg.metadata)
        continue;
      const size_t b = pg.begin;
      const size_t n = get(b + bit + 4, 2);
      for (size_t i = 0; i < n; ++i) {
        const size_t at = b + bit + 8 + i * ptr_sz;
        const size_t off = get(at, is), len = get(at + is, is);
        const auto comp = static_cast<unsigned char>(f.bytes[at + 2 * is]), type = static_cast<unsigned char>(f.bytes[at + 2 * is + 1]);
        if (len >= 300 && comp == 0 && type == 0 && f.bytes.compare(b + off, is, sig('R')) == 0)
          put(f.bytes, b + off + 15 * is, f.mix_page_row_count, is);
      }
    }
  }
  size_t get(size_t off, size_t n) {
    size_t v = 0;
    for (size_t i = 0; i < n; ++i)
      v |= static_cast<size_t>(static_cast<unsigned char>(f.bytes[off + (d.big ? n - 1 - i : i)])) << (8 * i);
    return v;
  }
};
} // namespace

std::vector<std::string> multiply_rows(Src &s, Dataset &d, size_t n) {
  const size_t m = d.rows.size();
  if (!m)
    return {};
  std::vector<std::string> base;
  for (auto &r : d.raw_rows) {
    std::string st;
    if (d.comp != Comp::None)
      st = d.comp == Comp::RLE ? rle_encode(s, r) : rdc_encode(s, r);
    if (st.size() >= d.row_length)
      st.clear();
    base.push_back(st);
  }
  uint64_t x = s.draw(0xffffffff);
  std::vector<Row> rows;
  std::vector<std::string> raw, streams;
  for (size_t i = 0; i < n; ++i) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    const size_t k = i < m ? i : (x >> 33) % m;
    rows.push_back(d.rows[k]);
    raw.push_back(d.raw_rows[k]);
    streams.push_back(base[k]);
  }
  d.rows.swap(rows);
  d.raw_rows.swap(raw);
  return streams;
}

File write_file(const Dataset &d, Src &s, const WriteOpts &o) {
  Writer w(d, s, o);
  return w.run();
}

} // namespace model
