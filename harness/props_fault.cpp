// C11, C12, C13, C20: truncation, data sources, damaged files, resources
#include "damage.hpp"
#include <algorithm>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <filesystem>
#include <fstream>
#include <unistd.h>

namespace props {
namespace {
namespace fs = std::filesystem;

struct TempFile {
  std::string path;
  TempFile(const std::string &bytes, const char *what) : path(strf("%s/%s.%d.sas7bdat", eng::scratch_dir().c_str(), what, static_cast<int>(getpid()))) {
    std::ofstream os(path, std::ios::binary | std::ios::trunc);
    os.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
    if (!os)
      throw HarnessError{"cannot write " + path};
  }
  ~TempFile() { ::unlink(path.c_str()); }
};

void open_on(std::optional<Reader> &r, const std::string &bytes, const std::optional<TempFile> &t, Log &log) {
  if (t)
    r.emplace(cppsas7bdat::datasource::ifstream(t->path.c_str()), RecSink(log));
  else
    r.emplace(MemSource(bytes), RecSink(log));
}

// ---------------------------------------------------------------- C11
void c11_cut(Src &s, Ctx &ctx, bool file) {
  DsOpts o;
  o.max_cols = 6;
  o.max_rows = 50;
  o.max_str = 12;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.small_pages = s.draw(3) != 0;
  File f = make(s, ctx, d, w);
  Log full;
  std::string props;
  {
    Reader r{MemSource(f.bytes), RecSink(full)};
    props = show_props(r.properties());
  }
  const size_t n = file ? 3 : 6;
  for (size_t k = 0; k < n; ++k) {
    size_t cut;
    const size_t np = f.pages.size();
    const auto &pg = f.pages[s.draw(np - 1)];
    switch (s.draw(6)) {
    case 0: cut = s.draw(f.bytes.size()); break;
    case 1: cut = pg.end - std::min<size_t>(pg.end, s.draw(3)); break;
    case 2: cut = pg.begin + s.draw(4); break;
    case 3: cut = pg.begin + s.draw(64); break;
    case 4: cut = s.draw(f.header_length); break;
    case 5: cut = pg.begin + s.draw(pg.end - pg.begin); break;
    default: cut = f.pages[np - 1].end - s.draw(40); break;
    }
    cut = std::min(cut, f.bytes.size());
    const std::string part = f.bytes.substr(0, cut);
    ctx.artifacts["cut.sas7bdat"] = part;
    ctx.mix(cut);
    size_t lo = 0, hi = 0;
    for (auto &p : f.pages) {
      if (p.end <= cut)
        lo = p.rows_before + p.rows;
      if (p.begin < cut)
        hi = p.rows_before + p.rows;
    }
    const std::string where = strf("cut at %zu of %zu (page %zu..%zu): ", cut, f.bytes.size(), pg.begin, pg.end);
    Log log;
    std::optional<Reader> r;
    std::optional<TempFile> tmp;
    if (file)
      tmp.emplace(part, "cut");
    const size_t need = std::max(f.metadata_end, f.first_data_page_end ? f.first_data_page_end : f.pages.back().end);
    try {
      open_on(r, part, tmp, log);
    } catch (const std::exception &e) {
      if (cut >= need)
        throw Fail{where + "opening fails although the metadata and the first rows are there: " + e.what()};
      ctx.label("open:rejected");
      continue;
    }
    if (show_props(r->properties()) != props)
      throw Fail{where + "the properties differ from those of the complete file"};
    const unsigned how = static_cast<unsigned>(s.draw(3));
    try {
      if (how == 0)
        r->read_all();
      else if (how == 1)
        while (r->read_row())
          ;
      else if (how == 2)
        while (r->read_rows(1 + s.draw(6)))
          ;
      else {
        RecSink pull(log);
        pull.columns = COLUMNS(r->properties().columns);
        for (size_t i = 0;; ++i) {
          auto p = r->read_row_no_sink();
          if (!p)
            break;
          pull.push_row(i, p);
        }
      }
      ctx.label("read:ends");
    } catch (const std::exception &) {
      ctx.label("read:throws");
    }
    // insisting yields nothing more
    for (int i = 0; i < 3; ++i)
      try {
        if (r->read_row() && log.rows.size() > hi)
          throw Fail{where + "rows are made up after the end"};
      } catch (const std::exception &) {
      }
    if (log.rows.size() > hi)
      throw Fail{where + strf("%zu rows although only the first %zu start in the file", log.rows.size(), hi)};
    if (log.rows.size() < lo && cut >= need)
      throw Fail{where + strf("%zu rows although the first %zu are on complete pages", log.rows.size(), lo)};
    for (size_t i = 0; i < log.rows.size(); ++i) {
      if (log.rows[i].index != i)
        throw Fail{where + strf("row %zu has the number %zu", i, log.rows[i].index)};
      const auto m = check_row(d, i, log.rows[i]);
      if (!m.empty())
        throw Fail{where + m};
    }
    if (cut < f.bytes.size() && cut > f.header_length && !d.rows.empty())
      ctx.nontrivial = true;
    ctx.label(hi > lo ? "cut:in-a-data-page" : "cut:elsewhere");
    ctx.label_if(lo > 0 && lo < d.rows.size(), "rows:some");
  }
}

// ---------------------------------------------------------------- C12
struct Odd {
  int code;
};
struct Feed { // shared with the source, which the reader owns
  const std::string *bytes{nullptr};
  size_t pos{0};
  bool at_end{false};
  bool eager{false};          // eof() is known as soon as the last byte was read
  long calls{0};
  long fail_call{-1};         // this call fails
  unsigned mode{0};
  bool transient{false}, advance{false}, failed{false}, fresh{false}, last_failed{false};
  uint64_t junk{0};
  std::vector<std::pair<size_t, size_t>> reads; // position, length
  bool eof_asked{false};
};
struct FeedSource {
  Feed *f;
  bool eof() {
    if (f->last_failed)
      return false;
    return f->at_end || (f->eager && f->pos >= f->bytes->size());
  }
  bool read_bytes(void *p, const size_t n) {
    const long c = f->calls++;
    const bool fail = c == f->fail_call || (f->failed && !f->transient);
    f->last_failed = fail;
    if (fail) {
      f->failed = f->fresh = true;
      const size_t m = f->mode == 1 ? std::min(n / 2, f->bytes->size() - f->pos) : 0;
      if (m)
        memcpy(p, f->bytes->data() + f->pos, m);
      if (f->mode == 2) // leaves junk in the buffer
        memset(p, static_cast<int>(f->junk), n);
      if (f->advance)
        f->pos = std::min(f->bytes->size(), f->pos + (m ? m : n));
      if (f->mode == 3)
        throw Odd{7};
      if (f->mode == 4)
        throw std::runtime_error("the disk is gone");
      return false;
    }
    if (n)
      f->reads.emplace_back(f->pos, n);
    const size_t k = std::min(n, f->bytes->size() - f->pos);
    if (k)
      memcpy(p, f->bytes->data() + f->pos, k);
    f->pos += k;
    if (k < n) {
      f->at_end = true;
      return false;
    }
    return true;
  }
};

void c12_faults(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 5;
  o.max_rows = 50;
  o.max_str = 10;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.small_pages = s.draw(3) != 0;
  File f = make(s, ctx, d, w);
  Feed dry; // how many calls are there
  dry.bytes = &f.bytes;
  {
    Log log;
    Reader r{FeedSource{&dry}, RecSink(log)};
    r.read_all();
  }
  Feed feed;
  feed.bytes = &f.bytes;
  feed.fail_call = static_cast<long>(s.draw(static_cast<uint64_t>(dry.calls)));
  feed.mode = static_cast<unsigned>(s.draw(4));
  feed.transient = s.flip();
  feed.advance = s.flip();
  feed.junk = s.draw(255);
  feed.eager = s.flip();
  ctx.mix(static_cast<uint64_t>(feed.fail_call) * 64 + feed.mode);
  const std::string where = strf("call %ld of %ld fails (mode %u, %s, %s): ", feed.fail_call, dry.calls, feed.mode, feed.transient ? "once" : "for good", feed.advance ? "advancing" : "in place");
  if (ctx.want_sample)
    ctx.sample += " | " + where;
  Log log;
  std::optional<Reader> r;
  bool surfaced = false;
  size_t rows_at_failure = 0;
  auto call = [&](const char *what, auto &&fn) {
    feed.fresh = false;
    bool thrown = false;
    try {
      fn();
    } catch (const std::exception &) {
      thrown = true;
    } catch (const Odd &x) {
      thrown = true;
      if (feed.mode != 3 || x.code != 7)
        throw Fail{where + "another exception came out"};
    }
    if (thrown && !feed.failed)
      throw Fail{where + what + " throws before the source fails"};
    if (thrown) {
      if (!surfaced)
        rows_at_failure = log.rows.size();
      surfaced = true;
    } else if (feed.fresh && !surfaced)
      throw Fail{where + "the failure of the source in " + what + " does not surface as an exception"};
    return !thrown;
  };
  const bool opened = call("opening", [&]() { r.emplace(FeedSource{&feed}, RecSink(log)); });
  if (!opened) {
    if (r)
      throw Fail{where + "half a reader"};
    ctx.label("fails:open");
  } else {
    size_t after = 0;
    for (size_t i = 0; i < d.rows.size() + 6 && after < 6; ++i) {
      bool more = true;
      const size_t k = 1 + s.draw(4);
      switch (s.draw(3)) {
      case 0: call("read_row", [&]() { more = r->read_row(); }); break;
      case 1: call("read_rows", [&]() { more = r->read_rows(k); }); break;
      case 2:
        call("read_row_no_sink", [&]() {
          const size_t at = r->current_row_index();
          auto p = r->read_row_no_sink();
          more = p != nullptr;
          if (p) {
            RecSink pull(log);
            pull.columns = COLUMNS(r->properties().columns);
            pull.push_row(at, p);
          }
        });
        break;
      default: call("skip", [&]() { more = r->skip(k); }); break;
      }
      if (surfaced || !more)
        ++after;
    }
    ctx.label(surfaced ? "fails:reading" : "fails:not-reached");
  }
  if (feed.failed && !surfaced)
    throw Fail{where + "the failure never surfaced"};
  size_t prev = 0;
  for (size_t i = 0; i < log.rows.size(); ++i) {
    if (log.rows[i].index >= d.rows.size())
      throw Fail{where + strf("row number %zu of %zu rows", log.rows[i].index, d.rows.size())};
    if (i && log.rows[i].index <= prev)
      throw Fail{where + "a row came twice"};
    prev = log.rows[i].index;
    const auto m = check_row(d, log.rows[i].index, log.rows[i]);
    if (!m.empty())
      throw Fail{where + (i >= rows_at_failure && surfaced ? "after the failure: " : "before the failure: ") + m};
  }
  if (!feed.transient && surfaced && log.rows.size() > rows_at_failure && feed.mode != 99) {
    // a source that is dead supplies nothing: what comes later must already have been read
    size_t have = 0;
    for (auto &p : f.pages)
      if (p.end <= feed.pos)
        have = p.rows_before + p.rows;
    if (!feed.advance && prev >= have && have < d.rows.size() && feed.mode != 1)
      throw Fail{where + "rows from pages that were never supplied"};
  }
  ctx.nontrivial = surfaced && !d.rows.empty();
  ctx.label(strf("mode:%u", feed.mode));
}

void c12_sequential(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 5;
  o.max_rows = 60;
  o.max_str = 10;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.small_pages = s.draw(3) != 0;
  File f = make(s, ctx, d, w);
  Feed feed;
  feed.bytes = &f.bytes;
  feed.eager = s.flip();
  Log log;
  Reader r{FeedSource{&feed}, RecSink(log)};
  auto page_of = [&](size_t row) {
    for (auto &p : f.pages)
      if (row < p.rows_before + p.rows)
        return p.end;
    return f.pages.back().end;
  };
  const size_t need_open = std::max(f.metadata_end, f.first_data_page_end ? f.first_data_page_end : f.bytes.size());
  if (feed.pos > need_open)
    throw Fail{strf("opening consumed %zu bytes; the metadata and the first rows end at %zu", feed.pos, need_open)};
  while (true) {
    const size_t before = r.current_row_index();
    const unsigned how = static_cast<unsigned>(s.draw(2));
    bool more;
    size_t last; // last row touched
    if (how == 0) {
      more = r.read_row();
      last = before;
    } else if (how == 1) {
      const size_t k = 1 + s.draw(4);
      more = r.skip(k);
      last = before + k - 1;
    } else {
      more = r.read_row_no_sink() != nullptr;
      last = before;
    }
    if (more) {
      const size_t limit = std::max(need_open, page_of(last));
      if (feed.pos > limit)
        throw Fail{strf("after row %zu, which ends in a page ending at %zu, %zu bytes were consumed", last, limit, feed.pos)};
    } else
      break;
  }
  // header, then whole pages
  size_t i = 0, at = 0;
  while (at < f.header_length && i < feed.reads.size()) {
    if (feed.reads[i].first != at)
      throw Fail{"the header is not read sequentially"};
    at += feed.reads[i].second;
    ++i;
  }
  if (at != f.header_length)
    throw Fail{strf("header reads end at %zu, the header at %zu", at, f.header_length)};
  size_t asked = 0;
  for (; i < feed.reads.size(); ++i) { // a page may be read in pieces
    const size_t left = f.page_length - (at - f.header_length) % f.page_length;
    if (feed.reads[i].first != at || feed.reads[i].second > left)
      throw Fail{strf("read of %zu bytes at %zu instead of a page of %zu bytes, %zu of them left, at %zu", feed.reads[i].second, feed.reads[i].first, f.page_length, left, at)};
    at += feed.reads[i].second;
    asked += feed.reads[i].second == left;
  }
  if ((at - f.header_length) % f.page_length && at <= f.bytes.size())
    throw Fail{strf("the reads end at %zu, within a page", at)};
  for (auto &x : log.rows) {
    const auto m = check_row(d, x.index, x);
    if (!m.empty())
      throw Fail{m};
  }
  ctx.nontrivial = asked > 1 && !d.rows.empty();
  ctx.label(feed.eager ? "eof:eager" : "eof:late");
  ctx.label(strf("pages:%zu", std::min<size_t>(asked, 9)));
}

// user-defined sources (with late and eager eof) and the file source agree
void c12_sources(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 6;
  o.max_rows = 60;
  o.max_str = 14;
  Dataset d = model::gen_dataset(s, o);
  File f = make(s, ctx, d);
  if (s.chance(1, 3)) {
    f.bytes.resize(s.draw(f.bytes.size()));
    ctx.label("cut");
  } else if (s.chance(1, 3)) {
    model::mutate(s, f.bytes);
    ctx.label("damaged");
  }
  TempFile tmp(f.bytes, "src");
  std::string seen[3];
  std::vector<size_t> amounts;
  for (size_t i = 0; i < 5; ++i)
    amounts.push_back(s.draw(30));
  for (int k = 0; k < 3; ++k) {
    Log log;
    Feed feed;
    feed.bytes = &f.bytes;
    feed.eager = k == 2;
    try {
      Reader r = k == 0 ? Reader{cppsas7bdat::datasource::ifstream(tmp.path.c_str()), RecSink(log)} : Reader{FeedSource{&feed}, RecSink(log)};
      seen[k] += show_props(r.properties());
      for (auto a : amounts)
        try {
          seen[k] += r.read_rows(a) ? "t" : "f";
        } catch (const std::exception &) { // a huge page may be out of memory here and past the end there
          seen[k] += "e";
        }
      seen[k] += std::to_string(r.current_row_index());
    } catch (const std::exception &) {
      seen[k] += "open: rejected";
      ctx.label("rejected");
    }
    for (auto &x : log.rows) {
      seen[k] += "\n" + std::to_string(x.index);
      for (auto &c : x.cells)
        seen[k] += " " + c.show();
    }
    seen[k] += strf("\nend %d", log.n_end);
  }
  if (seen[0] != seen[1])
    throw Fail{"a user-defined source and the file source give different results:\n" + seen[0].substr(0, 1500) + "\n---\n" + seen[1].substr(0, 1500)};
  if (seen[1] != seen[2])
    throw Fail{"a source that knows its end early gives another result:\n" + seen[1].substr(0, 1500) + "\n---\n" + seen[2].substr(0, 1500)};
  ctx.nontrivial = f.bytes.size() > f.header_length;
}

void c12_paths(Src &s, Ctx &ctx) {
  const std::string base = strf("%s/paths.%d", eng::scratch_dir().c_str(), static_cast<int>(getpid()));
  fs::create_directories(base);
  std::string p;
  const unsigned k = static_cast<unsigned>(s.draw(4));
  static const char *what[] = {"missing", "directory", "empty", "missing-directory", "dangling-link"};
  switch (k) {
  case 0: p = base + "/none" + std::to_string(s.draw(1000)); break;
  case 1: p = base; break;
  case 2:
    p = base + "/empty";
    std::ofstream(p).flush();
    break;
  case 3: p = base + "/none/none.sas7bdat"; break;
  default:
    p = base + "/link";
    ::unlink(p.c_str());
    if (symlink("nowhere", p.c_str()))
      throw HarnessError{"symlink"};
  }
  bool ok = false;
  try {
    Log log;
    Reader r{cppsas7bdat::datasource::ifstream(p.c_str()), RecSink(log)};
    ok = true;
  } catch (const std::exception &) {
  }
  std::error_code ec;
  fs::remove_all(base, ec);
  if (ok)
    throw Fail{std::string("a path that is ") + what[k] + " was opened"};
  ctx.label(what[k]);
  ctx.mix(k);
  ctx.nontrivial = true;
}

// ---------------------------------------------------------------- C13
const std::vector<std::string> &corpus() {
  static std::vector<std::string> c;
  static bool done = false;
  if (!done) {
    done = true;
    std::vector<std::string> names;
    std::error_code ec;
    for (fs::directory_iterator it(eng::repo_dir() + "/test", ec), end; !ec && it != end; it.increment(ec))
      if (it->is_directory())
        for (fs::directory_iterator jt(it->path(), ec), e2; !ec && jt != e2; jt.increment(ec))
          if (jt->path().extension() == ".sas7bdat" && jt->file_size() <= 160 * 1024)
            names.push_back(jt->path());
    std::sort(names.begin(), names.end());
    for (auto &n : names) {
      std::ifstream is(n, std::ios::binary);
      c.emplace_back(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
    }
  }
  return c;
}

std::string damaged_file(Src &s, Ctx &ctx, bool use_corpus, std::vector<std::string> &what) {
  std::string bytes;
  if (use_corpus && !corpus().empty()) {
    bytes = s.pick(corpus());
    ctx.label("base:corpus");
  } else {
    DsOpts o;
    o.max_cols = 7;
    o.max_rows = 30;
    o.max_str = 14;
    o.allow_zero_cols = true;
    o.temporal_nice = false;
    Dataset d = model::gen_dataset(s, o);
    bytes = model::write_file(d, s).bytes;
    ctx.label("base:generated");
  }
  what = model::mutate(s, bytes);
  ctx.artifacts["sas7bdat"] = bytes;
  ctx.mix(bytes);
  return bytes;
}

void c13_note(Ctx &ctx, const Seen &seen, const std::vector<std::string> &what, const std::string &bytes) {
  ctx.nontrivial = !what.empty();
  ctx.label(seen.rejected ? "open:rejected" : seen.errors ? "read:throws" : "read:without-error");
  ctx.label_if(seen.rows > 0, "rows-delivered");
  for (auto &m : what)
    ctx.label("damage:" + m.substr(0, m.find_first_of("0123456789")));
  if (ctx.want_sample) {
    ctx.sample = strf("%zu bytes, damage: ", bytes.size());
    for (auto &m : what)
      ctx.sample += m + "; ";
    ctx.sample += strf("| %s, %zu rows, %zu errors: ", seen.rejected ? "rejected" : "opened", seen.rows, seen.errors) + seen.text.substr(0, 200);
  }
}

void c13_damage(Src &s, Ctx &ctx, bool use_corpus) {
  std::vector<std::string> what;
  const auto bytes = damaged_file(s, ctx, use_corpus, what);
  const auto plan = gen_plan(s);
  memctl::limit = size_t(32) << 20;
  memctl::fill = 0x00;
  const Seen a = use_file(bytes, plan);
  memctl::fill = 0xa5;
  const Seen b = use_file(bytes, plan);
  memctl::fill = -1;
  if (a.text != b.text) {
    size_t i = 0;
    while (i < a.text.size() && i < b.text.size() && a.text[i] == b.text[i])
      ++i;
    const size_t from = i > 200 ? i - 200 : 0;
    throw Fail{"what is seen depends on the content of fresh memory: ..." + a.text.substr(from, 500) + "\n--- with other fresh memory ---\n" + b.text.substr(from, 500)};
  }
  c13_note(ctx, a, what, bytes);
}
void c13_asan(Src &s, Ctx &ctx, bool use_corpus) {
  std::vector<std::string> what;
  const auto bytes = damaged_file(s, ctx, use_corpus, what);
  const auto plan = gen_plan(s);
  memctl::limit = size_t(32) << 20;
  c13_note(ctx, use_file(bytes, plan), what, bytes);
}
void c13_random(Src &s, Ctx &ctx) { // no valid file at all, or only its first bytes
  std::string bytes = s.bytes(s.skewed(2000));
  if (s.flip() && bytes.size() >= 32) {
    static const unsigned char magic[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 8, 0, 9, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
    memcpy(bytes.data(), magic, 32);
    ctx.label("magic");
  }
  ctx.artifacts["sas7bdat"] = bytes;
  ctx.mix(bytes);
  memctl::limit = size_t(32) << 20;
  const auto plan = gen_plan(s);
  const Seen a = use_file(bytes, plan);
  if (a.opened && (bytes.size() < 288 || bytes.compare(12, 4, "\xc2\xea\x81\x60")))
    throw Fail{"something that is not a data set was opened"};
  ctx.nontrivial = bytes.size() >= 32;
  ctx.label(a.rejected ? "rejected" : "opened");
}

// ---------------------------------------------------------------- C20
struct Alive {
  static thread_local int n;
  Alive() { ++n; }
  Alive(const Alive &) { ++n; }
  Alive(Alive &&) noexcept { ++n; }
  Alive &operator=(const Alive &) = default;
  ~Alive() { --n; }
};
thread_local int Alive::n = 0;
struct LeanSource : Alive {
  MemSource m;
  long fail_call;
  long calls{0};
  LeanSource(const std::string &b, long k) : m(b), fail_call(k) {}
  bool eof() { return m.eof(); }
  bool read_bytes(void *p, const size_t n) {
    if (calls++ == fail_call)
      throw Odd{1};
    return m.read_bytes(p, n);
  }
};
struct Tally {
  size_t rows{0}, ends{0};
  uint64_t hash{0};
  long fail_row{-1};
};
struct Nowhere : std::streambuf { // takes everything, keeps nothing
  int overflow(int c) override { return traits_type::not_eof(c); }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
struct LeanSink : Alive {
  Tally *t;
  COLUMNS columns;
  std::unique_ptr<AnySink> also; // a sink of the library
  explicit LeanSink(Tally &t_, std::unique_ptr<AnySink> a = nullptr) : t(&t_), also(std::move(a)) {}
  LeanSink(LeanSink &&) = default;
  void set_properties(const Properties &p) {
    columns = COLUMNS(p.columns);
    const cppsas7bdat::Columns groups(p.columns);
    const Properties copy(p);
    t->hash += groups.strings.size() + 3 * groups.numbers.size() + copy.columns.size();
    if (also)
      also->set_properties(p);
  }
  void push_row(size_t i, Column::PBUF p) {
    if (static_cast<long>(i) == t->fail_row)
      throw Odd{2};
    ++t->rows;
    if (also)
      also->push_row(i, p);
    for (auto &c : columns) {
      t->hash = (t->hash ^ static_cast<uint64_t>(c.to_string(p).size())) * 1099511628211ull;
      const auto v = c.get_string(p);
      for (char x : v)
        t->hash = (t->hash ^ static_cast<unsigned char>(x)) * 1099511628211ull;
    }
  }
  void end_of_data() {
    ++t->ends;
    if (also)
      also->end_of_data();
  }
};
struct LeanFilter : Alive {
  bool odd;
  mutable int k{0};
  explicit LeanFilter(bool o) : odd(o) {}
  bool accept(const Column &) const { return !odd || (k++ & 1); }
};

struct Life {
  std::vector<Op> ops;
  bool odd_filter{false};
  long src_fail{-1}, row_fail{-1};
  int sink{-1}; // of the library
};
enum class Res { done, bad_alloc, std_exc, odd };
struct LifeOut {
  Res open{Res::done}, reading{Res::done};
  Tally t;
  long n_allocs{0}, live{0}, live_bytes{0};
  int alive{0};
  size_t reached{0};
};
template <typename F> Res res_of(F &&f) {
  try {
    f();
  } catch (const std::bad_alloc &) {
    return Res::bad_alloc;
  } catch (const std::exception &) {
    return Res::std_exc;
  } catch (const Odd &) {
    return Res::odd;
  }
  return Res::done;
}
LifeOut live_once(const std::string &bytes, const Life &l, long fail_at) {
  LifeOut o;
  o.t.fail_row = l.row_fail;
  memctl::reset();
  memctl::fail_at = fail_at;
  Alive::n = 0;
  Nowhere nowhere;
  std::ostream os(&nowhere);
  {
    memctl::Scope count;
    std::optional<Reader> r;
    o.open = res_of([&]() { r.emplace(LeanSource(bytes, l.src_fail), LeanSink(o.t, l.sink < 0 ? nullptr : library_sink(static_cast<unsigned>(l.sink), os)), LeanFilter(l.odd_filter)); });
    if (o.open == Res::done)
      for (auto &op : l.ops) {
        const Res x = res_of([&]() {
          switch (op.kind) {
          case 0: r->read_row(); break;
          case 1: r->read_rows(op.amount); break;
          case 2: r->read_row_no_sink(); break;
          case 3: r->skip(op.amount); break;
          case 4: r->end_of_data(); break;
          case 5: {
            Reader q{std::move(*r)};
            *r = std::move(q);
            break;
          }
          default: r->read_rows(400); break;
          }
        });
        if (x != Res::done) {
          o.reading = x;
          if (memctl::fail_at > 0 && memctl::n_allocs >= memctl::fail_at)
            break;
        }
      }
    if (r && o.open != Res::done)
      throw Fail{"a reader exists although its constructor threw"};
    o.reached = r ? r->current_row_index() : 0;
  }
  o.n_allocs = memctl::n_allocs;
  o.live = memctl::live;
  o.live_bytes = memctl::live_bytes;
  o.alive = Alive::n;
  memctl::reset();
  return o;
}
Life gen_life(Src &s, size_t rows) {
  Life l;
  const auto p = gen_plan(s);
  l.ops = p.ops;
  if (s.flip())
    l.ops.push_back({6, 0});
  l.odd_filter = s.chance(1, 4);
  if (s.chance(1, 4))
    l.src_fail = static_cast<long>(s.draw(6));
  if (s.chance(1, 4))
    l.row_fail = static_cast<long>(s.draw(rows));
  if (s.chance(1, 3))
    l.sink = static_cast<int>(s.draw(2));
  return l;
}
void balanced(const LifeOut &o, const std::string &where) {
  if (o.live)
    throw Fail{where + strf("%ld blocks (%ld bytes) are still allocated after the reader is gone", o.live, o.live_bytes)};
  if (o.alive)
    throw Fail{where + strf("%d sources, sinks or filters are still alive", o.alive)};
}

void c20_balance(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 7;
  o.max_rows = 40;
  o.max_str = 12;
  Dataset d = model::gen_dataset(s, o);
  File f = make(s, ctx, d);
  std::string bytes = f.bytes;
  const unsigned kind = static_cast<unsigned>(s.draw(3));
  if (kind == 1)
    bytes.resize(s.draw(bytes.size()));
  else if (kind == 2)
    model::mutate(s, bytes);
  ctx.artifacts["sas7bdat"] = bytes;
  ctx.mix(bytes);
  const Life l = gen_life(s, d.rows.size());
  memctl::limit = size_t(32) << 20;
  LifeOut r = live_once(bytes, l, 0);
  if (r.live || r.alive) // the first use may have set up something lasting
    r = live_once(bytes, l, 0);
  balanced(r, "");
  ctx.nontrivial = r.n_allocs > 0;
  ctx.label(kind == 1 ? "cut" : kind == 2 ? "damaged" : "sound");
  ctx.label(r.open != Res::done ? "open:throws" : r.reading != Res::done ? "read:throws" : "no-exception");
  ctx.label_if(r.open == Res::done && r.reached > 0 && r.reached < d.rows.size(), "abandoned");
  ctx.label(l.sink < 0 ? "sink:own" : l.sink == 0 ? "sink:csv" : l.sink == 1 ? "sink:print" : "sink:null");
  if (ctx.want_sample)
    ctx.sample += strf(" | %ld allocations, all released", r.n_allocs);
}

void c20_oom(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 5;
  o.max_rows = 20;
  o.max_str = 30;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.small_pages = s.flip();
  File f = make(s, ctx, d, w);
  Life l = gen_life(s, d.rows.size());
  l.src_fail = l.row_fail = -1;
  l.sink = -1; // boost's stream output of dates, which the sinks use, leaks its facets when memory runs out
  live_once(f.bytes, l, 0);
  const LifeOut base = live_once(f.bytes, l, 0);
  balanced(base, "");
  const long n = base.n_allocs;
  std::vector<long> at;
  if (n <= 120)
    for (long k = 1; k <= n; ++k)
      at.push_back(k);
  else
    for (int k = 0; k < 60; ++k)
      at.push_back(1 + static_cast<long>(s.draw(static_cast<uint64_t>(n - 1))));
  size_t in_reading = 0;
  for (long k : at) {
    LifeOut r = live_once(f.bytes, l, k);
    const std::string where = strf("allocation %ld of %ld fails: ", k, n);
    if (r.live || r.alive) {
      const LifeOut again = live_once(f.bytes, l, k);
      if (again.live || again.alive)
        balanced(again, where);
    }
    const Res got = r.open != Res::done ? r.open : r.reading;
    if (got == Res::done) { // nothing surfaced: then nothing may be missing
      if (r.t.rows != base.t.rows || r.t.hash != base.t.hash || r.reached != base.reached)
        throw Fail{where + "no exception, but the rows differ"};
      ctx.label("oom:survived");
    } else if (got != Res::bad_alloc)
      throw Fail{where + "it surfaces as another exception than std::bad_alloc"};
    else
      ctx.label(r.open != Res::done ? "oom:open" : "oom:reading");
    in_reading += r.open == Res::done && got != Res::done;
  }
  ctx.mix(at.size());
  ctx.nontrivial = at.size() > 10;
  if (ctx.want_sample)
    ctx.sample += strf(" | %zu of %ld allocations made to fail, %zu of them while reading rows", at.size(), n, in_reading);
}

void c20_growth(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 4;
  o.max_rows = 6;
  o.max_str = 8;
  Dataset d = model::gen_dataset(s, o);
  if (d.rows.empty())
    return;
  const bool empties = s.chance(1, 3);
  const size_t n0 = d.rows.size(), want = empties ? 400 + s.draw(400) : 3000 + s.draw(5000);
  d.rows.reserve(want);
  d.raw_rows.reserve(want);
  while (d.rows.size() < want) {
    d.rows.push_back(d.rows[d.rows.size() % n0]);
    d.raw_rows.push_back(d.raw_rows[d.raw_rows.size() % n0]);
  }
  WriteOpts w;
  w.small_pages = true;
  if (empties)
    w.empty_pages = 3000 + s.draw(3000);
  File f = make(s, ctx, d, w);
  Tally t;
  memctl::reset();
  long base = 0, worst = 0;
  size_t worst_row = 0;
  size_t page_rows = 1;
  for (auto &p : f.pages)
    page_rows = std::max(page_rows, p.rows);
  {
    memctl::Scope count;
    Reader r{LeanSource(f.bytes, -1), LeanSink(t)};
    r.read_rows(std::min<size_t>(d.rows.size() / 10, 300));
    base = memctl::live_bytes;
    while (true) {
      const unsigned how = static_cast<unsigned>(s.draw(2));
      const size_t k = 1 + s.draw(400);
      bool more;
      if (how == 0)
        more = r.read_rows(k);
      else if (how == 1)
        more = r.skip(k);
      else
        more = r.read_row_no_sink() != nullptr;
      if (memctl::live_bytes > worst) {
        worst = memctl::live_bytes;
        worst_row = r.current_row_index();
      }
      if (!more)
        break;
    }
  }
  const long slack = static_cast<long>(8192 + 4 * f.page_length + 8 * d.row_length + 64 * page_rows);
  if (worst > base + slack)
    throw Fail{strf("memory grows with the rows read: %ld bytes early on, %ld bytes at row %zu (page %zu bytes, row %zu bytes)", base, worst, worst_row, f.page_length, d.row_length)};
  if (memctl::live || Alive::n)
    if (memctl::live > 16)
      throw Fail{strf("%ld blocks are still allocated after the reader is gone", memctl::live)};
  memctl::reset();
  ctx.nontrivial = f.pages.size() > 20;
  ctx.label(comp_label(d));
  ctx.label_if(empties, "thousands-of-empty-pages");
  ctx.label(f.pages.size() > 100 ? "pages:>100" : f.pages.size() > 20 ? "pages:>20" : "pages:few");
  if (ctx.want_sample)
    ctx.sample += strf(" | memory %ld -> at most %ld bytes over %zu rows", base, worst, d.rows.size());
}

void register_fault() {
  const char *cut = "a random file cut at 6 offsets (any byte, page borders and page headers, the header) and read in four ways: rejected, or the same properties and a prefix of the rows, at least those on complete pages, at most those that start in the file; non-trivial: a cut after the header of a file with rows";
  eng::add({"C11", "plain", "cut", cut, 120000, 6000000, 20, [](Src &s, Ctx &c) { c11_cut(s, c, false); }});
  eng::add({"C11", "plain", "cut-file", "as cut, through files on disk and the file source", 20000, 800000, 30, [](Src &s, Ctx &c) { c11_cut(s, c, true); }});
  eng::add({"C11", "asan", "cut-asan", "as cut, under the sanitizers", 6000, 300000, 60, [](Src &s, Ctx &c) { c11_cut(s, c, false); }});
  eng::add({"C12", "plain", "faults", "a source that fails at a random call (nothing, part or junk supplied, or an exception; once or for good; advancing or not), random calls before and after; non-trivial: the failure is reached and the file has rows", 200000, 10000000, 20, c12_faults});
  eng::add({"C12", "plain", "sequential", "a monitored source: header, then whole pages, in sequence, no page before it is needed; non-trivial: several pages", 150000, 8000000, 20, c12_sequential});
  eng::add({"C12", "plain", "sources", "file source, user-defined source with late and with early end-of-file compared on sound, cut and damaged files; non-trivial: more than a header", 20000, 800000, 30, c12_sources});
  eng::add({"C12", "plain", "paths", "missing, empty, directory and dangling paths are rejected; non-trivial: all", 500, 5000, 20, c12_paths});
  eng::add({"C12", "asan", "faults-asan", "as faults, under the sanitizers", 8000, 400000, 60, c12_faults});
  eng::add({"C13", "plain", "damage", "random files with 1 to 6 structured damages (bytes, bits, header fields, page types and counts, subheader pointers and fields, cuts, fills, copies, pages moved) used by random calls, filters and sinks, twice, with different fresh memory; non-trivial: at least one damage", 150000, 8000000, 20, [](Src &s, Ctx &c) { c13_damage(s, c, false); }});
  eng::add({"C13", "plain", "damage-corpus", "as damage, from the repository's own files of up to 160 kB", 4000, 250000, 30, [](Src &s, Ctx &c) { c13_damage(s, c, true); }});
  eng::add({"C13", "plain", "random", "random bytes, half of them after the magic number; non-trivial: 32 bytes or more", 40000, 1000000, 20, c13_random});
  eng::add({"C13", "asan", "damage-asan", "as damage, under the sanitizers", 40000, 2500000, 60, [](Src &s, Ctx &c) { c13_asan(s, c, false); }});
  eng::add({"C13", "asan", "corpus-asan", "as damage-corpus, under the sanitizers", 1500, 100000, 60, [](Src &s, Ctx &c) { c13_asan(s, c, true); }});
  eng::add({"C20", "plain", "balance", "random call histories on sound, cut and damaged files with failing sources and sinks: allocations, sources, sinks and filters balance; non-trivial: something was allocated", 150000, 8000000, 20, c20_balance});
  eng::add({"C20", "plain", "out-of-memory", "every allocation of a random history (60 random ones when there are more than 120) made to fail: std::bad_alloc surfaces or nothing is missing, and everything is released; non-trivial: more than 10 failure points", 12000, 250000, 60, c20_oom});
  eng::add({"C20", "plain", "growth", "thousands of rows over many pages: memory in use does not grow; non-trivial: more than 20 pages", 600, 30000, 60, c20_growth});
  eng::add({"C20", "asan", "out-of-memory-asan", "as out-of-memory, under the sanitizers", 300, 15000, 90, c20_oom});
}
const bool registered = (register_fault(), true);
} // namespace
} // namespace props
