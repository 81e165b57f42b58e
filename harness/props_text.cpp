// C14, C15: CSV and text output
#include "textual.hpp"
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <atomic>
#include <fstream>
#include <sstream>
#include <thread>
#include <unistd.h>

namespace props {
namespace {

DsOpts text_opts() {
  DsOpts o;
  o.max_cols = 8;
  o.max_rows = 25;
  o.max_str = 24;
  o.wide_names = true;
  return o;
}

void drive(Src &s, Reader &r, size_t n, std::vector<size_t> &pushed) {
  size_t pos = 0;
  auto rows = [&](size_t k) {
    for (; k && pos < n; --k)
      pushed.push_back(pos++);
  };
  const size_t steps = s.draw(4);
  for (size_t i = 0; i < steps; ++i)
    switch (s.draw(3)) {
    case 0: {
      const size_t k = s.draw(8);
      rows(k);
      r.read_rows(k);
      break;
    }
    case 1:
      rows(1);
      r.read_row();
      break;
    case 2: {
      const size_t k = s.draw(3);
      pos = std::min(n, pos + k);
      r.skip(k);
      break;
    }
    default:
      if (r.read_row_no_sink())
        ++pos;
    }
  if (s.draw(5)) {
    rows(n);
    r.read_all();
  }
}

// quotes, separators and line breaks in texts
void spice(Src &s, Dataset &d) {
  static const char *bits[] = {"\"", ",", "\n", "\r\n", "\"\"", "\",\"", ";", "\t", "'", "\\", "\xc3\xa9", "{}", "%s", "a", "\"a\"", ",\n\"", "1234567890123456789", "00012.50", "-0.0e+5", "=1+2", "  ", "NA"};
  for (size_t i = 0; i < d.rows.size(); ++i) {
    bool changed = false;
    for (size_t c = 0; c < d.cols.size(); ++c)
      if (d.cols[c].ty == model::Ty::Str && s.flip()) {
        std::string t;
        const size_t n = s.draw(5);
        for (size_t k = 0; k < n; ++k)
          t += s.pick(bits);
        t.resize(d.cols[c].width, ' ');
        d.rows[i][c].str = t;
        changed = true;
      }
    if (changed)
      d.raw_rows[i] = model::encode_row(d, d.rows[i], d.raw_rows[i]);
  }
}

// A filter on some of the columns, and the dataset as it is seen through it
static cppsas7bdat::ColumnFilter::IncludeExclude gen_filter(Src &s, Ctx &ctx, Dataset &d) {
  cppsas7bdat::ColumnFilter::IncludeExclude f;
  if (!s.chance(1, 4))
    return f;
  ctx.label("filtered");
  const bool inc = s.flip();
  auto &names = inc ? f.included : f.excluded;
  for (auto &c : d.cols)
    if (s.flip())
      names.emplace(c.name);
  if (inc && names.empty())
    return f; // everything
  size_t kept = 0;
  for (auto &c : d.cols)
    kept += (names.count(c.name) > 0) == inc;
  if (!kept) { // a record of no fields cannot be told from one of one empty field
    names.clear();
    return f;
  }
  for (size_t i = d.cols.size(); i--;)
    if ((names.count(d.cols[i].name) > 0) != inc) {
      d.cols.erase(d.cols.begin() + static_cast<long>(i));
      for (auto &r : d.rows)
        r.erase(r.begin() + static_cast<long>(i));
    }
  return f;
}

void c14_csv(Src &s, Ctx &ctx, bool named) {
  Dataset d = model::gen_dataset(s, text_opts());
  spice(s, d);
  File f = make(s, ctx, d);
  const auto filter = gen_filter(s, ctx, d);
  std::string out;
  std::vector<size_t> pushed;
  if (!named) {
    std::ostringstream os;
    {
      auto sink = cppsas7bdat::datasink::csv(os);
      auto sink2 = std::move(sink);
      const bool lv = s.flip();
      Reader r = lv ? Reader{MemSource(f.bytes), sink2, filter} : Reader{MemSource(f.bytes), std::move(sink2), filter};
      Reader r2;
      const bool mv = s.flip();
      if (mv)
        r2 = std::move(r);
      drive(s, mv ? r2 : r, d.rows.size(), pushed);
    }
    out = os.str();
  } else {
    const std::string path = strf("%s/out.%d.csv", eng::scratch_dir().c_str(), static_cast<int>(getpid()));
    if (s.flip()) { // what an earlier file of that name held is gone
      std::ofstream old(path, std::ios::binary);
      const std::string line(1 + s.draw(200), 'q');
      for (size_t i = s.draw(60); i; --i)
        old << line << '\n';
      ctx.label("overwrites");
    }
    {
      std::optional<Reader> r;
      switch (s.draw(2)) {
      case 0: r.emplace(MemSource(f.bytes), cppsas7bdat::datasink::csv(path.c_str()), filter); break;
      case 1: {
        auto sink = cppsas7bdat::datasink::csv(path.c_str());
        r.emplace(MemSource(f.bytes), std::move(sink), filter);
        break;
      }
      default: {
        auto sink = std::make_unique<cppsas7bdat::datasink::detail::csv_ofstream>(cppsas7bdat::datasink::csv(path.c_str()));
        cppsas7bdat::datasink::detail::csv_ofstream other(std::move(*sink));
        sink.reset();
        r.emplace(MemSource(f.bytes), std::move(other), filter);
      }
      }
      drive(s, *r, d.rows.size(), pushed);
    }
    std::ifstream is(path, std::ios::binary);
    out.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
    ::unlink(path.c_str());
  }
  ctx.artifacts["csv"] = out;
  require(check_csv(d, out, pushed));
  bool special = false;
  for (char c : out)
    special |= c == '"';
  ctx.nontrivial = !pushed.empty();
  ctx.label(named ? "to:file" : "to:stream");
  ctx.label_if(pushed.size() < d.rows.size(), "part-of-the-rows");
  for (auto &c : d.cols) {
    ctx.label(std::string("column:") + model::ty_name(c.ty));
    ctx.label_if(c.name.find_first_of("\",\n") != std::string::npos, "name-with-separator");
  }
}

// a sink that also keeps the text of every cell
struct Both {
  cppsas7bdat::datasink::print *p;
  COLUMNS *columns;
  std::vector<std::pair<size_t, std::vector<std::string>>> *rows;
  void set_properties(const Properties &x) {
    p->set_properties(x);
    *columns = COLUMNS(x.columns);
  }
  void push_row(size_t i, Column::PBUF b) {
    p->push_row(i, b);
    std::vector<std::string> v;
    for (auto &c : *columns)
      v.push_back(c.to_string(b));
    rows->emplace_back(i, std::move(v));
  }
  void end_of_data() { p->end_of_data(); }
};

void c15_print(Src &s, Ctx &ctx) {
  DsOpts o = text_opts();
  o.temporal_nice = s.flip();
  o.rich_header = s.flip();
  Dataset d = model::gen_dataset(s, o);
  if (s.flip())
    spice(s, d);
  File f = make(s, ctx, d);
  std::ostringstream os;
  cppsas7bdat::datasink::print print(os);
  COLUMNS columns;
  std::vector<std::pair<size_t, std::vector<std::string>>> rows;
  std::vector<size_t> pushed;
  std::string want;
  {
    const auto filter = gen_filter(s, ctx, d);
    Reader r{MemSource(f.bytes), Both{&print, &columns, &rows}, filter};
    want = print_header(r.properties());
    drive(s, r, d.rows.size(), pushed);
  }
  if (rows.size() != pushed.size())
    throw Fail{strf("%zu rows instead of %zu", rows.size(), pushed.size())};
  size_t missing = 0;
  for (size_t i = 0; i < rows.size(); ++i) {
    if (rows[i].first != pushed[i])
      throw Fail{strf("row number %zu instead of %zu", rows[i].first, pushed[i])};
    want += std::to_string(rows[i].first);
    for (size_t c = 0; c < d.cols.size(); ++c) {
      const auto &cell = d.rows[pushed[i]][c];
      const auto cand = cell_texts(d.cols[c], cell);
      const auto &got = rows[i].second[c];
      if (std::find(cand.begin(), cand.end(), got) == cand.end())
        throw Fail{strf("row %zu column %zu (%s): the text is %s instead of %s", pushed[i], c, model::ty_name(d.cols[c].ty), eng::hex(got, 100).c_str(), eng::hex(cand[0], 100).c_str())};
      missing += got == "not-a-date-time";
      want += "," + got;
    }
    want += "\n";
  }
  const auto got = os.str();
  ctx.artifacts["txt"] = got;
  if (got != want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i])
      ++i;
    const size_t from = i > 60 ? i - 60 : 0;
    throw Fail{strf("the printed text differs at %zu: ", i) + eng::hex(got.substr(from, 160), 160) + " instead of " + eng::hex(want.substr(from, 160), 160)};
  }
  ctx.nontrivial = !pushed.empty();
  ctx.label_if(missing > 0, "missing-temporals");
  for (auto &c : d.cols) {
    ctx.label(std::string("column:") + model::ty_name(c.ty));
    ctx.label_if(c.name.find('{') != std::string::npos || c.label.find('{') != std::string::npos, "braces-in-names");
  }
}

// One sink used in place by several readers, one after the other: what each of them writes alone, one after the other
void text_reuse(Src &s, Ctx &ctx, bool csv) {
  DsOpts o = text_opts();
  o.max_cols = 5;
  o.max_rows = 6;
  const size_t n = 2 + s.draw(2);
  std::ostringstream all, alone;
  auto run = [&](auto &sink, auto make_sink) {
    Dataset same;
    for (size_t i = 0; i < n; ++i) {
      const bool again = i && s.chance(1, 3);
      Dataset d = again ? same : model::gen_dataset(s, o);
      if (!again)
        spice(s, d);
      same = d;
      File f = make(s, ctx, d);
      ctx.artifacts[strf("%zu.sas7bdat", i)] = f.bytes;
      const auto filter = gen_filter(s, ctx, d);
      const size_t rows = s.flip() ? d.rows.size() + 1 : s.draw(d.rows.size());
      const bool end = s.flip();
      auto go = [&](Reader &r) {
        if (rows)
          r.read_rows(rows);
        if (end)
          r.end_of_data();
      };
      {
        Reader r{MemSource(f.bytes), sink, filter};
        go(r);
      }
      Reader r{MemSource(f.bytes), make_sink(), filter};
      go(r);
      ctx.nontrivial |= i && rows && !d.rows.empty();
    }
  };
  if (csv) {
    auto sink = cppsas7bdat::datasink::csv(all);
    run(sink, [&] { return cppsas7bdat::datasink::csv(alone); });
  } else {
    cppsas7bdat::datasink::print sink(all);
    run(sink, [&] { return cppsas7bdat::datasink::print(alone); });
  }
  if (all.str() != alone.str())
    throw Fail{"what several readers wrote through one sink is not what they wrote through sinks of their own: " + eng::hex(all.str(), 400) + " instead of " + eng::hex(alone.str(), 400)};
}

// Text conversions of several threads: what each writes is what a single thread writes
void c19_text(Src &s, Ctx &ctx) {
  DsOpts o = text_opts();
  o.max_cols = 6;
  o.max_rows = 15;
  o.temporal_nice = s.flip();
  const size_t nfiles = 1 + s.draw(2), nt = 2 + s.draw(2);
  std::vector<File> fs;
  std::vector<Dataset> ds;
  for (size_t i = 0; i < nfiles; ++i) {
    Dataset d = model::gen_dataset(s, o);
    spice(s, d);
    fs.push_back(make(s, ctx, d));
    ds.push_back(d);
    ctx.artifacts[strf("%zu.sas7bdat", i)] = fs.back().bytes;
  }
  struct Job {
    size_t file, kind;
    bool exclude{false};
    std::vector<std::string> names;
    std::string got, want, error;
  };
  std::vector<Job> jobs(nt);
  auto work = [&](const Job &j) {
    std::ostringstream os;
    const auto &bytes = fs[j.file].bytes;
    if (j.kind == 0) {
      Reader r{MemSource(bytes), cppsas7bdat::datasink::csv(os)};
      r.read_all();
    } else if (j.kind == 1) {
      Reader r{MemSource(bytes), cppsas7bdat::datasink::print(os)};
      r.read_all();
    } else if (j.kind == 3) { // some of the columns
      cppsas7bdat::ColumnFilter::IncludeExclude f;
      for (auto &n : j.names)
        (j.exclude ? f.excluded : f.included).emplace(n);
      Reader r{MemSource(bytes), cppsas7bdat::datasink::csv(os), f};
      r.read_all();
    } else { // cells and properties
      Reader r{MemSource(bytes), cppsas7bdat::datasink::null()};
      os << show_props(r.properties());
      while (auto p = r.read_row_no_sink())
        for (auto &c : r.properties().columns)
          os << c.to_string(p) << '|' << observe(c, p).show() << '\n';
    }
    return os.str();
  };
  for (auto &j : jobs) {
    j.file = s.draw(nfiles - 1);
    j.kind = s.draw(3);
    if (j.kind == 3) {
      j.exclude = s.flip();
      for (auto &d : ds)
        for (auto &c : d.cols)
          if (s.flip())
            j.names.push_back(c.name);
    }
  }
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t i = 0; i < nt; ++i)
    th.emplace_back([&, i] {
      ++ready;
      while (ready < nt)
        std::this_thread::yield();
      try {
        jobs[i].got = work(jobs[i]);
      } catch (const std::exception &e) {
        jobs[i].error = e.what();
      }
    });
  for (auto &t : th)
    t.join();
  for (size_t i = 0; i < nt; ++i) {
    if (!jobs[i].error.empty())
      throw Fail{strf("thread %zu of %zu: unexpected exception: ", i, nt) + jobs[i].error};
    jobs[i].want = work(jobs[i]);
    if (jobs[i].got != jobs[i].want)
      throw Fail{strf("the text of kind %zu written in thread %zu of %zu differs from that of a single thread", jobs[i].kind, i, nt)};
  }
  ctx.nontrivial = true;
  static const char *kinds[] = {"csv", "print", "cells", "filtered"};
  for (auto &j : jobs)
    ctx.label(std::string("kind:") + kinds[j.kind]);
}

// Text sinks used alternately: each writes what it writes alone
void c19_text_turns(Src &s, Ctx &ctx) {
  DsOpts o = text_opts();
  o.max_cols = 5;
  o.max_rows = 8;
  const size_t nfiles = 1 + s.draw(2), nr = 2 + s.draw(3);
  std::vector<File> fs;
  for (size_t i = 0; i < nfiles; ++i) {
    Dataset d = model::gen_dataset(s, o);
    spice(s, d);
    fs.push_back(make(s, ctx, d));
    ctx.artifacts[strf("%zu.sas7bdat", i)] = fs.back().bytes;
  }
  struct Job {
    size_t file;
    bool csv;
    std::ostringstream os, alone;
    std::optional<Reader> r;
  };
  std::vector<Job> jobs(nr);
  auto open = [&](Job &j, std::ostringstream &os) {
    if (j.csv)
      j.r.emplace(MemSource(fs[j.file].bytes), cppsas7bdat::datasink::csv(os));
    else
      j.r.emplace(MemSource(fs[j.file].bytes), cppsas7bdat::datasink::print(os));
  };
  for (auto &j : jobs) {
    j.file = s.draw(nfiles - 1);
    j.csv = s.flip();
  }
  std::vector<size_t> open_jobs(nr);
  for (size_t i = 0; i < nr; ++i)
    open_jobs[i] = i;
  size_t last = nr, switches = 0;
  while (!open_jobs.empty()) {
    const size_t at = s.draw(open_jobs.size() - 1), k = open_jobs[at];
    auto &j = jobs[k];
    switches += k != last;
    last = k;
    bool more = true;
    if (!j.r)
      open(j, j.os);
    else if (s.chance(1, 6)) {
      j.r->read_all();
      more = false;
    } else
      more = j.r->read_rows(1 + s.draw(2));
    if (!more)
      open_jobs.erase(open_jobs.begin() + static_cast<long>(at));
  }
  for (size_t i = 0; i < nr; ++i) {
    auto &j = jobs[i];
    j.r.reset();
    open(j, j.alone);
    j.r->read_all();
    if (j.os.str() != j.alone.str())
      throw Fail{strf("the %s of reader %zu of %zu used alternately differs from what it writes alone", j.csv ? "CSV" : "text", i, nr)};
  }
  ctx.nontrivial = switches > 2;
  ctx.label(strf("readers:%zu", nr));
}

void register_text() {
  eng::add({"C19", "plain", "interleaved-text", "2 to 5 readers whose CSV and text sinks are used alternately: each writes what it writes alone; non-trivial: more than two switches", 20000, 1000000, 30, c19_text_turns});
  eng::add({"C19", "tsan", "threads-text", "2 to 4 threads that write the same and different files as CSV, whole or some columns only, as text and cell by cell, each into a stream of its own, under ThreadSanitizer: each gets what a single thread gets; non-trivial: all", 2500, 100000, 90, c19_text});
  eng::add({"C19", "plain", "threads-text-plain", "as threads-text, without ThreadSanitizer; non-trivial: all", 30000, 900000, 40, c19_text, 4});
  const char *csv = "random datasets with quotes, separators and line breaks in texts and names, written through the CSV sink by random calls and parsed back by an independent RFC 4180 parser; non-trivial: at least one row";
  eng::add({"C14", "plain", "stream", csv, 150000, 8000000, 20, [](Src &s, Ctx &c) { c14_csv(s, c, false); }});
  eng::add({"C14", "plain", "file", "as stream, to a named file (new or overwritten) through moved sinks", 30000, 1000000, 30, [](Src &s, Ctx &c) { c14_csv(s, c, true); }});
  const char *reuse = "one sink used by 2 to 4 readers one after the other (the same or other data, filters, all or some of the rows): what each writes alone; non-trivial: a second reader wrote a row";
  eng::add({"C14", "plain", "reuse", reuse, 10000, 400000, 30, [](Src &s, Ctx &c) { text_reuse(s, c, true); }});
  eng::add({"C15", "plain", "reuse", reuse, 10000, 400000, 30, [](Src &s, Ctx &c) { text_reuse(s, c, false); }});
  eng::add({"C14", "asan", "stream-asan", "as stream, under the sanitizers", 6000, 300000, 60, [](Src &s, Ctx &c) { c14_csv(s, c, false); }});
  eng::add({"C14", "asan", "file-asan", "as file, under the sanitizers", 3000, 150000, 60, [](Src &s, Ctx &c) { c14_csv(s, c, true); }});
  eng::add({"C15", "plain", "print", "random datasets, names, labels and values (also missing, infinite and out of the calendar) through the print sink: the whole text, and the text of every cell, compared with a reference; non-trivial: at least one row", 150000, 8000000, 20, c15_print});
  eng::add({"C15", "asan", "print-asan", "as print, under the sanitizers", 6000, 300000, 60, c15_print});
}
const bool registered = (register_text(), true);
} // namespace
} // namespace props
