// C03, C04: expansion of compressed rows
#include "common.hpp"

namespace props {
using model::Cell;
using model::Col;
using model::Ty;

// ------------------------------------------------ reference decoders, written from the format description
// nullopt: the commands are not valid for a row of L bytes
static std::optional<std::string> rle_ref(const std::string &st, size_t L) {
  std::string out;
  size_t i = 0;
  const auto n = st.size();
  auto byte = [&](size_t k) { return static_cast<unsigned char>(st[k]); };
  while (i < n && out.size() < L) {
    const unsigned c = byte(i) >> 4, lo = byte(i) & 15;
    ++i;
    size_t len = 0;
    int value = -1; // -1: copy
    switch (c) {
    case 0: // copy 64.. with a count byte
      if (i >= n)
        return {};
      len = 64 + lo * 256 + byte(i++);
      break;
    case 4: // repeat a byte 18.. times
      if (i + 1 >= n)
        return {};
      len = 18 + lo * 16 + byte(i);
      value = byte(i + 1);
      i += 2;
      break;
    case 5:
    case 6:
    case 7: // 17.. times '@', ' ', zero
      if (i >= n)
        return {};
      len = 17 + lo * 256 + byte(i++);
      value = c == 5 ? '@' : c == 6 ? ' ' : 0;
      break;
    case 8:
    case 9:
    case 10:
    case 11: // copy 1.. 17.. 33.. 49..
      len = 1 + 16 * (c - 8) + lo;
      break;
    case 12: // repeat a byte 3.. times
      if (i >= n)
        return {};
      len = 3 + lo;
      value = byte(i++);
      break;
    case 13:
    case 14:
    case 15: // 2.. times '@', ' ', zero
      len = 2 + lo;
      value = c == 13 ? '@' : c == 14 ? ' ' : 0;
      break;
    default: return {};
    }
    if (value < 0) {
      const size_t have = std::min(len, n - i); // a copy at the end of the data delivers what there is
      if (out.size() + have > L)
        return {};
      out.append(st, i, have);
      i += have;
    } else {
      if (out.size() + len > L)
        return {};
      out.append(len, static_cast<char>(value));
    }
  }
  out.resize(L, '\0');
  return out;
}
// pinned: as the recorded defect C04-rdc-tail makes it (nothing is looked at when less than 3 bytes remain)
static std::optional<std::string> rdc_ref(const std::string &st, size_t L, bool pinned) {
  std::string out;
  size_t i = 0;
  const auto n = st.size();
  unsigned ctrl = 0, left = 0;
  auto byte = [&](size_t k) { return static_cast<unsigned>(static_cast<unsigned char>(st[k])); };
  while (out.size() < L && i < n) {
    if (pinned && n - i < 3)
      break;
    if (!left) {
      if (n - i < 3) // a trailing control word without items
        break;
      ctrl = byte(i) << 8 | byte(i + 1);
      i += 2;
      left = 16;
    }
    --left;
    if (!(ctrl >> left & 1)) {
      out.push_back(st[i++]);
      continue;
    }
    const unsigned cmd = byte(i) >> 4, lo = byte(i) & 15;
    const size_t need = cmd == 0 ? 2 : cmd == 1 ? 3 : cmd == 2 ? 3 : 2;
    if (n - i < need)
      return {};
    if (cmd <= 1) {
      const size_t len = cmd == 0 ? lo + 3 : lo + byte(i + 1) * 16 + 19;
      if (out.size() + len > L)
        return {};
      out.append(len, st[i + need - 1]);
    } else {
      const size_t ofs = lo + byte(i + 1) * 16 + 3;
      const size_t len = cmd == 2 ? byte(i + 2) + 16 : cmd;
      if (out.size() + len > L || ofs > out.size())
        return {};
      for (size_t k = 0; k < len; ++k)
        out.push_back(out[out.size() - ofs]);
    }
    i += need;
  }
  out.resize(L, '\0');
  return out;
}

// columns that cover every byte of a row exactly: 8-byte numbers and 1-byte integers
static void cover(Dataset &d, size_t L, size_t text = 0) {
  size_t off = 0;
  auto add = [&](Ty t, size_t w) {
    Col c;
    c.name = strf("c%zu", d.cols.size());
    c.ty = t;
    c.width = w;
    c.offset = off;
    off += w;
    d.cols.push_back(c);
  };
  while (text && L - off >= text + 40) { // mostly text columns: few columns for a long row
    add(Ty::Str, text);
    for (int i = 0; i < 3; ++i)
      add(Ty::Num, 8);
  }
  while (L - off >= 16 || (L - off >= 8 && L > 40))
    add(Ty::Num, 8);
  while (off < L)
    add(Ty::Int1, 1);
  d.row_length = L;
}
static void set_row(Dataset &d, const std::string &bytes) {
  model::Row r;
  for (auto &c : d.cols) {
    Cell x;
    if (c.ty == Ty::Str)
      x.str = bytes.substr(c.offset, c.width);
    else if (c.ty == Ty::Num) {
      for (size_t k = 0; k < 8; ++k)
        x.bits |= static_cast<uint64_t>(static_cast<unsigned char>(bytes[c.offset + k])) << (8 * (d.big ? 7 - k : k));
    } else
      x.i = static_cast<unsigned char>(bytes[c.offset]);
    r.push_back(x);
  }
  d.raw_rows.push_back(bytes);
  d.rows.push_back(std::move(r));
}

struct Line {
  std::string stream;
  std::optional<std::string> want;   // nullopt: must be rejected
  std::optional<std::string> pinned; // RDC: what the recorded defect makes of it
};

// Reads the file row by row.  A row to be rejected ends the case.
static void run_lines(Ctx &ctx, Src &s, Dataset &d, const std::vector<Line> &lines, bool canonical, bool rdc) {
  std::vector<std::string> streams;
  for (auto &l : lines) {
    streams.push_back(l.stream);
    set_row(d, l.want ? *l.want : l.pinned ? *l.pinned : std::string(d.row_length, '?'));
  }
  WriteOpts w;
  w.canonical = canonical;
  w.streams = &streams;
  File f = make(s, ctx, d, w);
  if (ctx.want_sample)
    for (size_t i = 0; i < lines.size() && i < 3; ++i)
      ctx.sample += strf(" | row %zu: commands ", i) + eng::hex(lines[i].stream, 48) + (lines[i].want ? " -> " + eng::hex(*lines[i].want, 48) : " -> rejected");
  Log log;
  Reader r{MemSource(f.bytes), RecSink(log)};
  for (size_t i = 0; i < lines.size(); ++i) {
    const auto &l = lines[i];
    bool thrown = false, got = false;
    std::string what;
    try {
      got = r.read_row();
    } catch (const std::exception &e) {
      thrown = true;
      what = e.what();
    }
    std::string bad;
    if (!l.want) {
      if (!thrown)
        bad = strf("row %zu: the invalid commands ", i) + eng::hex(l.stream, 200) + strf(" (row length %zu) were not rejected", d.row_length);
    } else if (thrown)
      bad = strf("row %zu: the valid commands ", i) + eng::hex(l.stream, 200) + strf(" (row length %zu) were rejected: ", d.row_length) + what;
    else if (!got || log.rows.size() != i + 1)
      bad = strf("row %zu was not delivered", i);
    else
      bad = check_row(d, i, log.rows[i]);
    if (!bad.empty()) {
      // the recorded defect, exactly: the items after the point where less than 3 bytes remain are dropped
      const bool differs = rdc && l.pinned != l.want;
      if (differs) {
        std::string m;
        if (!l.pinned)
          m = thrown ? "" : "not rejected";
        else if (thrown || !got || log.rows.size() != i + 1)
          m = "no row";
        else if (l.want) { // compare with the other row
          Dataset alt = d;
          alt.rows.clear();
          alt.raw_rows.clear();
          set_row(alt, *l.pinned);
          m = check_row(alt, 0, log.rows[i]);
        } else
          m = check_row(d, i, log.rows[i]);
        if (m.empty() && ctx.known("C04-rdc-tail")) {
          if (thrown)
            return;
          continue;
        }
      }
      throw Fail{bad};
    }
    if (thrown)
      return;
  }
  if (r.read_row())
    throw Fail{"a row more than the file holds was delivered"};
}

static size_t gen_row_length(Src &s) {
  switch (s.draw(5)) {
  case 0: return 2 + s.draw(12);
  case 1: return 4 + s.draw(40);
  case 2: return 17 + s.draw(120);
  case 3: return 60 + s.draw(300);
  case 4: return 100 + s.draw(1200);
  default: return 2 + s.skewed(9000);
  }
}
static void mutate(Src &s, std::string &st) {
  for (size_t k = 1 + s.draw(2); k-- && !st.empty();)
    switch (s.draw(3)) {
    case 0: st[s.draw(st.size() - 1)] = static_cast<char>(s.draw(255)); break;
    case 1: st.erase(s.draw(st.size() - 1), 1 + s.draw(2)); break;
    case 2: st.insert(s.draw(st.size()), 1, static_cast<char>(s.draw(255))); break;
    default: st.resize(s.draw(st.size() - 1)); break;
    }
}

static void decomp(Src &s, Ctx &ctx, bool rdc, bool hostile) {
  Dataset d;
  d.big = s.flip();
  d.w64 = s.flip();
  d.a1 = s.flip();
  d.comp = rdc ? model::Comp::RDC : model::Comp::RLE;
  const size_t L = gen_row_length(s);
  cover(d, L);
  const size_t n = 1 + s.skewed(L > 1000 ? 3 : 9);
  std::vector<Line> lines;
  for (size_t i = 0; i < n; ++i) {
    Line l;
    const bool last = i + 1 == n;
    if (hostile && last && s.chance(1, 4)) {
      l.stream = s.bytes(1 + s.draw(std::min<size_t>(L - 1, 60) - 1));
      ctx.label("random-bytes");
    } else {
      auto st = rdc ? model::rdc_stream(s, L) : model::rle_stream(s, L);
      l.stream = st.stream;
      if (hostile && last)
        mutate(s, l.stream);
      else if (l.stream.size() < L) {
        const auto ref = rdc ? rdc_ref(l.stream, L, false) : rle_ref(l.stream, L);
        if (ref != st.expansion)
          throw HarnessError{"the generator of command streams and the reference decoder disagree"};
        for (auto &o : st.ops)
          ctx.label("cmd:" + o);
        ctx.label_if(st.one_byte_tail, "one-byte-command-last");
        ctx.label_if(st.padded, "row-longer-than-commands");
        ctx.label_if(st.overlap, "overlapping-pattern");
        if (!st.padded && s.chance(1, 10)) { // what follows a full row is not looked at
          l.stream += s.bytes(1 + s.draw(3));
          ctx.label("trailing-bytes");
        }
      }
    }
    if (l.stream.empty() || l.stream.size() >= L) { // stored as it is
      l.stream.clear();
      l.want = s.bytes(L);
      ctx.label("row:raw");
    } else {
      l.want = rdc ? rdc_ref(l.stream, L, false) : rle_ref(l.stream, L);
      if (rdc)
        l.pinned = rdc_ref(l.stream, L, true);
      ctx.label(l.want ? "row:expanded" : "row:rejected");
      ctx.nontrivial |= !hostile || last;
    }
    const bool stop = !l.want;
    lines.push_back(std::move(l));
    if (stop)
      break;
  }
  run_lines(ctx, s, d, lines, s.flip(), rdc);
}

// rows whose commands take up to 100 kB: mostly literals, between them every kind of command
static std::string long_stream(uint64_t seed, size_t target, size_t L, bool rdc) {
  auto rnd = [&](size_t n) { // 0..n
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<size_t>(seed >> 33) % (n + 1);
  };
  std::string st;
  size_t pos = 0;
  if (!rdc) {
    auto put = [&](size_t c) { st.push_back(static_cast<char>(c)); };
    auto copy = [&](size_t n) {
      for (size_t k = 0; k < n; ++k)
        put(rnd(255));
      pos += n;
    };
    while (pos < L) {
      const size_t left = L - pos;
      const bool dense = st.size() < target;
      const size_t op = dense ? rnd(11) : 5 + rnd(2);
      if (left < 64 || op == 1) {
        const size_t n = std::min<size_t>(left, 1 + rnd(63));
        put(0x80 + (n - 1));
        copy(n);
      } else if (op == 2 && left >= 273) {
        const size_t n = 18 + rnd(255);
        put(0x40);
        put(n - 18);
        put(rnd(255));
        pos += n;
      } else if (op == 3 && left >= 18) {
        const size_t n = 3 + rnd(15);
        put(0xc0 + (n - 3));
        put(rnd(255));
        pos += n;
      } else if (op == 4 && left >= 17) {
        put(0xd0 + 16 * rnd(2) + 15);
        pos += 17;
      } else if (op >= 5 && op <= 7 && left >= 17) {
        const size_t n = std::min<size_t>(left, 17 + rnd(dense && rnd(15) ? 300 : 4095)) - 17;
        put(0x10 * op + n / 256);
        put(n % 256);
        pos += 17 + n;
      } else {
        const size_t n = std::min<size_t>(left, 64 + rnd(4095));
        put((n - 64) / 256);
        put((n - 64) % 256);
        copy(n);
      }
    }
    return st;
  }
  std::string items;
  unsigned ctrl = 0, n = 0;
  auto flush = [&] {
    st.push_back(static_cast<char>(ctrl >> 8));
    st.push_back(static_cast<char>(ctrl));
    st += items;
    items.clear();
    ctrl = n = 0;
  };
  auto item = [&](bool cmd, std::initializer_list<size_t> bs) {
    if (n == 16)
      flush();
    ctrl |= static_cast<unsigned>(cmd) << (15 - n++);
    for (auto b : bs)
      items.push_back(static_cast<char>(b));
  };
  while (pos < L) {
    const size_t left = L - pos;
    const bool dense = st.size() + items.size() < target;
    const size_t op = dense || left < 19 ? rnd(120) : 2;
    const size_t far = 3 + rnd(std::min<size_t>(pos, 4098) < 3 ? 0 : std::min<size_t>(pos, 4098) - 3);
    if (op == 1 && left >= 18) {
      const size_t k = 3 + rnd(15);
      item(true, {k - 3, rnd(255)});
      pos += k;
    } else if (op == 2 && left >= 19) {
      const size_t k = std::min(left, 19 + rnd(dense && rnd(63) ? 60 : 4095));
      item(true, {0x10 | ((k - 19) & 15), (k - 19) >> 4, rnd(255)});
      pos += k;
    } else if (op == 3 && left >= 15 && pos >= 3) {
      const size_t k = 3 + rnd(12);
      item(true, {k << 4 | ((far - 3) & 15), (far - 3) >> 4});
      pos += k;
    } else if (op == 4 && left >= 271 && pos >= 3) {
      const size_t k = 16 + rnd(rnd(7) ? 30 : 255);
      item(true, {0x20 | ((far - 3) & 15), (far - 3) >> 4, k - 16});
      pos += k;
    } else {
      item(false, {rnd(255)});
      ++pos;
    }
  }
  if (n)
    flush();
  st.append(2, '\0'); // see rdc_encode
  return st;
}
static void decomp_long(Src &s, Ctx &ctx, bool rdc) {
  Dataset d;
  d.big = s.flip();
  d.w64 = s.flip();
  d.a1 = s.flip();
  d.comp = rdc ? model::Comp::RDC : model::Comp::RLE;
  const size_t L = 20000 + s.draw(160000);
  cover(d, L, 600 + s.draw(4000));
  const size_t n = 1 + s.draw(2);
  std::vector<Line> lines;
  for (size_t i = 0; i < n; ++i) {
    Line l;
    const size_t target = L / 8 + s.draw(L * 3 / 4 - L / 8);
    l.stream = long_stream(s.draw(0xffffffff), target, L, rdc);
    if (l.stream.size() >= L) {
      l.stream.clear();
      l.want = std::string(L, 'x');
      ctx.label("row:raw");
    } else {
      ctx.nontrivial = true;
      ctx.label(l.stream.size() > 65535 ? "commands>64kB" : l.stream.size() > 32767 ? "commands>32kB" : "commands<32kB");
      l.want = rdc ? rdc_ref(l.stream, L, false) : rle_ref(l.stream, L);
      if (rdc)
        l.pinned = rdc_ref(l.stream, L, true);
      if (!l.want)
        throw HarnessError{"long_stream: invalid commands"};
    }
    lines.push_back(std::move(l));
  }
  run_lines(ctx, s, d, lines, d.cols.size() > 80 || s.flip(), rdc); // a random layout of many columns would take hundreds of MB
}

// every command byte with chosen operands, the row ending before, at and after the end of the command
static void rle_enum(Src &s, Ctx &ctx) {
  uint64_t k = eng::case_index();
  const unsigned cmd = k % 256;
  k /= 256;
  static const unsigned cnts[] = {0, 1, 2, 127, 128, 255};
  const unsigned cnt = cnts[k % 6];
  k /= 6;
  static const int deltas[] = {-1, 0, 1, 9};
  const int delta = deltas[k % 4];
  k /= 4;
  Dataset d;
  d.big = k & 1;
  d.w64 = k & 2;
  d.comp = model::Comp::RLE;
  // a prefix of zeros makes room, so that the stored form is shorter than the row
  std::string st("\x70\x40", 2); // 17 + 64 zeros
  size_t len = 81;
  st.push_back(static_cast<char>(cmd));
  const unsigned c = cmd >> 4, lo = cmd & 15;
  size_t n = 0;
  bool copy = false;
  if (c == 0) {
    n = 64 + lo * 256 + cnt;
    st.push_back(static_cast<char>(cnt));
    copy = true;
  } else if (c == 4) {
    n = 18 + lo * 16 + cnt;
    st.push_back(static_cast<char>(cnt));
    st.push_back('\x5a');
  } else if (c >= 5 && c <= 7) {
    n = 17 + lo * 256 + cnt;
    st.push_back(static_cast<char>(cnt));
  } else if (c >= 8 && c <= 11) {
    n = 1 + 16 * (c - 8) + lo;
    copy = true;
  } else if (c == 12) {
    n = 3 + lo;
    st.push_back(static_cast<char>(cnt));
  } else if (c >= 13)
    n = 2 + lo;
  if (copy)
    for (size_t i = 0; i < n; ++i)
      st.push_back(static_cast<char>(i * 7 + cnt + 1));
  len += n;
  const size_t L = static_cast<size_t>(static_cast<long>(len) + delta);
  cover(d, L);
  Line full; // a row of other bytes first: its bytes must not show in the next one
  full.stream = std::string("\x40", 1);
  {
    size_t left = L;
    std::string q;
    while (left >= 18) {
      const size_t m = std::min<size_t>(left, 18 + 255);
      q.push_back('\x40');
      q.push_back(static_cast<char>(m - 18));
      q.push_back('\xee');
      left -= m;
    }
    if (left) {
      q.push_back(static_cast<char>(0x80 + left - 1));
      q.append(left, '\x77');
    }
    full.stream = q;
    full.want = rle_ref(q, L);
  }
  Line l;
  l.stream = st;
  l.want = rle_ref(st, L);
  if (l.stream.size() >= L)
    throw HarnessError{"rle_enum: stream too long"};
  ctx.nontrivial = true;
  ctx.label(l.want ? "row:expanded" : "row:rejected");
  run_lines(ctx, s, d, {full, l}, true, false);
}
static void rdc_enum(Src &s, Ctx &ctx) {
  uint64_t k = eng::case_index();
  const unsigned cmd = k % 256;
  k /= 256;
  static const unsigned ops[] = {0, 1, 2, 15, 255};
  const unsigned op1 = ops[k % 5];
  k /= 5;
  static const unsigned ops2[] = {0, 1, 255};
  const unsigned op2 = ops2[k % 3];
  k /= 3;
  static const int deltas[] = {-1, 0, 1};
  const int delta = deltas[k % 3];
  k /= 3;
  static const size_t prefixes[] = {3, 18, 90};
  const size_t pre = prefixes[k % 3];
  k /= 3;
  Dataset d;
  d.big = k & 1;
  d.w64 = k & 1;
  d.comp = model::Comp::RDC;
  // the prefix: 0x40 literals-like varied bytes by runs of three, then the item under test, then two literals
  std::string items;
  unsigned nitems = 0;
  uint32_t ctrl = 0;
  std::string out;
  auto flag = [&](bool b) {
    ctrl |= static_cast<uint32_t>(b) << (15 - nitems);
    ++nitems;
  };
  while (out.size() < pre) {
    if (pre - out.size() >= 3 && nitems < 12) {
      const size_t n = std::min<size_t>(pre - out.size(), 18);
      flag(true);
      items.push_back(static_cast<char>(n - 3));
      items.push_back(static_cast<char>('a' + nitems));
      out.append(n, static_cast<char>('a' + nitems));
    } else {
      flag(false);
      items.push_back('L');
      out.push_back('L');
    }
  }
  flag(true);
  items.push_back(static_cast<char>(cmd));
  items.push_back(static_cast<char>(op1));
  const unsigned c = cmd >> 4, lo = cmd & 15;
  size_t len;
  if (c == 0)
    len = lo + 3;
  else if (c == 1) {
    len = lo + op1 * 16 + 19;
    items.push_back(static_cast<char>(op2));
  } else if (c == 2) {
    len = op2 + 16;
    items.push_back(static_cast<char>(op2));
  } else
    len = c;
  std::string st;
  st.push_back(static_cast<char>(ctrl >> 8));
  st.push_back(static_cast<char>(ctrl & 255));
  st += items;
  st.append(2, '\0');
  const size_t L = std::max<size_t>(st.size() + 1, static_cast<size_t>(static_cast<long>(pre + len) + delta));
  cover(d, L);
  Line full;
  {
    std::string q;
    size_t left = L;
    while (left >= 19) {
      q += std::string("\xff\xff", 2);
      for (int i = 0; i < 16; ++i) {
        if (left >= 19) {
          const size_t m = std::min<size_t>(left, 19 + 4095);
          q.push_back(static_cast<char>(0x10 | ((m - 19) & 15)));
          q.push_back(static_cast<char>((m - 19) >> 4));
          q.push_back('\xee');
          left -= m;
        }
      }
    }
    full.stream = q.size() < L && left == 0 ? q : "";
    full.want = full.stream.empty() ? std::string(L, '\xee') : *rdc_ref(q, L, false);
    full.pinned = full.want;
  }
  Line l;
  l.stream = st;
  l.want = rdc_ref(st, L, false);
  l.pinned = rdc_ref(st, L, true);
  ctx.nontrivial = true;
  ctx.label(l.want ? "row:expanded" : "row:rejected");
  run_lines(ctx, s, d, {full, l}, true, true);
}

static void register_decomp() {
  using namespace std::placeholders;
  const char *what = "rows made from random command sequences (all commands, lengths at both ends of their range, rows shorter than, equal to and longer than the commands, several rows per file), written in random layouts and compared with a reference decoder; non-trivial: at least one compressed row";
  const char *host = "as stream, but the last row's commands are mutated, cut or random bytes: the row must equal the reference decoder's or be rejected; non-trivial: that row is compressed";
  eng::add({"C03", "plain", "stream", what, 120000, 8000000, 20, [](Src &s, Ctx &c) { decomp(s, c, false, false); }});
  eng::add({"C03", "plain", "hostile", host, 120000, 8000000, 20, [](Src &s, Ctx &c) { decomp(s, c, false, true); }});
  eng::add({"C03", "plain", "commands", "every command byte x 6 operand values x 4 row lengths around the end of the command x 4 layouts, after a row full of other bytes; non-trivial: all", 256 * 6 * 4 * 4, 256 * 6 * 4 * 4, 20, rle_enum, 0, true});
  eng::add({"C03", "plain", "long", "rows of 20000 to 180000 bytes whose commands take up to 135 kB, mostly literals; non-trivial: at least one compressed row", 300, 20000, 60, [](Src &s, Ctx &c) { decomp_long(s, c, false); }});
  eng::add({"C03", "asan", "hostile-asan", host, 12000, 600000, 60, [](Src &s, Ctx &c) { decomp(s, c, false, true); }});
  eng::add({"C04", "plain", "stream", what, 120000, 8000000, 20, [](Src &s, Ctx &c) { decomp(s, c, true, false); }});
  eng::add({"C04", "plain", "hostile", host, 120000, 8000000, 20, [](Src &s, Ctx &c) { decomp(s, c, true, true); }});
  eng::add({"C04", "plain", "items", "every item byte x 5 x 3 operand values x 3 row lengths around the end of the item x 3 positions x 2 layouts, after a row full of other bytes; non-trivial: all", 256 * 5 * 3 * 3 * 3 * 2, 256 * 5 * 3 * 3 * 3 * 2, 20, rdc_enum, 0, true});
  eng::add({"C04", "plain", "long", "rows of 20000 to 180000 bytes whose commands take up to 135 kB, mostly literals; non-trivial: at least one compressed row", 300, 20000, 60, [](Src &s, Ctx &c) { decomp_long(s, c, true); }});
  eng::add({"C04", "asan", "hostile-asan", host, 12000, 600000, 60, [](Src &s, Ctx &c) { decomp(s, c, true, true); }});
}
static const bool registered = (register_decomp(), true);
} // namespace props
