// C08, C10, C19: call histories, notifications, independence of readers
#include "common.hpp"
#include <atomic>
#include <cppsas7bdat/sink/null.hpp>
#include <functional>
#include <thread>

namespace props {
namespace {

// The specification of a reader: a cursor over the rows, and the notifications of its sink
struct Cursor {
  const Dataset *d;
  size_t pos{0};
  std::vector<std::string> events{"P"};
  size_t n() const { return d->rows.size(); }
  bool row() {
    if (pos < n()) {
      events.push_back("R" + std::to_string(pos++));
      return true;
    }
    events.push_back("E");
    return false;
  }
  bool rows(size_t k) {
    while (k && row())
      --k;
    return k == 0;
  }
  void all() {
    while (row())
      ;
  }
  bool skip(size_t k) {
    if (k <= n() - pos) {
      pos += k;
      return true;
    }
    pos = n();
    events.push_back("E");
    return false;
  }
};

std::string show_events(const std::vector<std::string> &v) {
  std::string r;
  for (size_t i = v.size() > 30 ? v.size() - 30 : 0; i < v.size(); ++i)
    r += (r.empty() ? "" : " ") + v[i];
  return r;
}

// One reader with its model
struct Runner {
  // records, and lets others act while a row is being pushed; the row has to stay as it is meanwhile
  struct HookSink {
    RecSink rec;
    std::function<void()> *hook;
    void set_properties(const Properties &p) { rec.set_properties(p); }
    void push_row(size_t irow, Column::PBUF p) {
      rec.push_row(irow, p);
      if (*hook) {
        (*hook)();
        if (!(observe_row(rec.columns, irow, p) == rec.log->rows.back()))
          throw Fail{strf("row %zu changed while it was being pushed and other readers were used", irow)};
      }
    }
    void end_of_data() { rec.end_of_data(); }
  };
  const Dataset &d;
  const File &f;
  Log log;
  std::function<void()> hook;
  std::optional<Column::PBUF> held; // the row last pulled
  size_t held_row{0};
  Cursor cur;
  Reader r;
  std::string trace;
  std::string props0;
  size_t checked_rows{0}, checked_events{0};
  bool moved{false}, past_end{false}, skipped{false}, pulled{false};

  Runner(const Dataset &d_, const File &f_) : d(d_), f(f_), cur{&d_} {
    r = Reader{MemSource(f.bytes), HookSink{RecSink(log), &hook}};
    props0 = show_props(r.properties());
    verify();
  }
  // the row last pulled stays readable until this reader moves, whatever other readers do
  void check_held() const {
    if (!held)
      return;
    const auto m = check_row(d, held_row, observe_row(r.properties().columns, held_row, *held));
    if (!m.empty())
      fail("the row pulled before, looked at again: " + m);
  }
  void fail(const std::string &m) const { throw Fail{"after " + trace + ": " + m}; }
  void verify() {
    for (; checked_events < log.events.size() || checked_events < cur.events.size(); ++checked_events)
      if (checked_events >= log.events.size() || checked_events >= cur.events.size() || log.events[checked_events] != cur.events[checked_events])
        fail("the sink was notified " + show_events(log.events) + " instead of " + show_events(cur.events));
    for (; checked_rows < log.rows.size(); ++checked_rows) {
      const auto m = check_row(d, log.rows[checked_rows].index, log.rows[checked_rows]);
      if (!m.empty())
        fail(m);
    }
    if (r.current_row_index() != cur.pos)
      fail(strf("the position is %zu instead of %zu", r.current_row_index(), cur.pos));
  }
  void expect(bool got, bool want, const char *what) const {
    if (got != want)
      fail(strf("%s returned %s", what, got ? "true" : "false"));
  }
  size_t amount(Src &s) const {
    const size_t left = d.rows.size() - cur.pos;
    switch (s.draw(6)) {
    case 0: return s.draw(3);
    case 1: return left;
    case 2: return left + 1;
    case 3: return left ? left - 1 : 0;
    case 4: return s.draw(left);
    case 5: {
      // also amounts that do not fit in 16, 31, 32 or 63 bits
      static const size_t big[] = {0, 0, 0, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, SIZE_MAX};
      const size_t b = s.pick(big), k = s.draw(1) ? s.draw(20) : left;
      return b == 0 ? left + s.skewed(1000000) : b == SIZE_MAX ? b - k : b + k;
    }
    default: return s.draw(8);
    }
  }
  void step(Src &s) {
    check_held();
    held.reset();
    const unsigned op = static_cast<unsigned>(s.draw(13));
    const bool was_end = cur.pos == d.rows.size();
    auto add = [&](const std::string &x) { trace += (trace.empty() ? "" : "; ") + x; };
    if (op <= 2) {
      add("read_row");
      expect(r.read_row(), cur.row(), "read_row");
    } else if (op <= 4) {
      const size_t k = amount(s);
      add(strf("read_rows(%zu)", k));
      expect(r.read_rows(k), cur.rows(k), "read_rows");
    } else if (op == 5) {
      if (s.draw(2)) // not too often: it goes to the end
        return;
      add("read_all");
      r.read_all();
      cur.all();
    } else if (op <= 8) {
      add("read_row_no_sink");
      auto p = r.read_row_no_sink();
      if (cur.pos < d.rows.size()) {
        if (!p)
          fail("no row although rows are left");
        const auto m = check_row(d, cur.pos, observe_row(r.properties().columns, cur.pos, p));
        if (!m.empty())
          fail("read_row_no_sink: " + m);
        held = p;
        held_row = cur.pos;
        ++cur.pos;
        pulled = true;
      } else if (p)
        fail("read_row_no_sink returned a row past the end");
    } else if (op <= 10) {
      const size_t k = amount(s);
      add(strf("skip(%zu)", k));
      expect(r.skip(k), cur.skip(k), "skip");
      skipped |= k > 0;
    } else if (op == 11) {
      add("end_of_data");
      r.end_of_data();
      cur.events.push_back("E");
    } else if (op == 12) {
      add("properties");
      if (show_props(r.properties()) != props0)
        fail("the properties changed");
    } else {
      moved = true;
      switch (s.draw(3)) {
      case 0: {
        add("move-construct");
        Reader t{std::move(r)};
        empty(r);
        r = std::move(t);
        empty(t);
        break;
      }
      case 1: {
        add("move to a heap reader and back");
        auto p = std::make_unique<Reader>(std::move(r));
        if (p->current_row_index() != cur.pos)
          fail("the position changed when the reader was moved");
        r = std::move(*p);
        break;
      }
      case 2: {
        add("swap with an empty reader, twice");
        Reader e;
        std::swap(e, r);
        empty(r);
        std::swap(e, r);
        empty(e);
        break;
      }
      default: {
        add("move over another reader");
        Log other;
        Reader t{MemSource(f.bytes), RecSink(other)};
        if (s.flip())
          t.read_row();
        const auto ev = other.events;
        t = std::move(r);
        empty(r);
        if (other.events != ev)
          fail("the sink of a replaced reader was notified");
        r = std::move(t);
        empty(t);
        if (other.events != ev)
          fail("the sink of a replaced reader was notified");
        break;
      }
      }
    }
    past_end |= was_end && op <= 10;
    verify();
  }
  void empty(Reader &e) const { check_empty(e, *this); }
  static void check_empty(Reader &e, const Runner &self) {
    if (e.read_row() || e.read_rows(3) || e.skip(2) || e.read_row_no_sink() || e.current_row_index() != 0)
      self.fail("an empty reader yields rows");
    e.read_all();
    e.end_of_data();
    const auto &p = e.properties();
    if (p.row_count || p.column_count || !p.columns.empty() || !p.dataset_name.empty())
      self.fail("an empty reader has properties");
  }
};

void c08_history(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 5;
  o.max_rows = 60;
  o.max_str = 10;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.small_pages = s.draw(2) != 0;
  File f = make(s, ctx, d, w);
  Runner run(d, f);
  const size_t n = 1 + s.skewed(24);
  for (size_t i = 0; i < n; ++i)
    run.step(s);
  ctx.mix(run.trace);
  if (ctx.want_sample)
    ctx.sample += " | calls: " + run.trace + " | notifications: " + show_events(run.log.events);
  size_t pages = 0;
  for (auto &p : f.pages)
    pages += p.rows > 0;
  ctx.nontrivial = d.rows.size() > 1 && n > 1 && (run.skipped || run.pulled);
  ctx.label_if(run.moved, "moved");
  ctx.label_if(run.past_end, "calls-after-the-end");
  ctx.label_if(run.skipped, "skips");
  ctx.label_if(run.pulled, "pulls");
  ctx.label_if(pages > 1, "several-pages");
  ctx.label(comp_label(d));
}

void c08_empty(Src &s, Ctx &ctx) {
  // default-constructed and moved-from readers, any calls
  Dataset d;
  d.cols.resize(1);
  d.cols[0].name = "x";
  d.row_length = 8;
  File f = make(s, ctx, d, {});
  Runner run(d, f);
  Reader e;
  const size_t n = 1 + s.draw(8);
  for (size_t i = 0; i < n; ++i) {
    const size_t k = 1 + s.draw(1000);
    switch (s.draw(8)) {
    case 0:
      if (e.read_row())
        throw Fail{"read_row of an empty reader succeeded"};
      break;
    case 1:
      if (e.read_rows(k))
        throw Fail{"read_rows of an empty reader succeeded"};
      break;
    case 2:
      if (e.skip(k))
        throw Fail{"skip of an empty reader succeeded"};
      break;
    case 3:
      if (e.read_row_no_sink())
        throw Fail{"an empty reader returned a row"};
      break;
    case 4: e.read_all(); break;
    case 5: e.end_of_data(); break;
    case 6:
      if (e.current_row_index())
        throw Fail{"an empty reader has a position"};
      break;
    case 7: Runner::check_empty(e, run); break;
    default: {
      Reader q{std::move(e)};
      if (s.flip())
        e = std::move(q);
      else
        e = Reader{};
    }
    }
  }
  ctx.nontrivial = true;
}

// ---------------------------------------------------------------- C10
struct Odd { // not a standard exception
  int code;
};
struct Count {
  int live{0}, total{0}, dead_calls{0};
};
struct Counted { // counts the living instances; moved-from objects count until they are destroyed
  Count *c;
  explicit Counted(Count &c_) : c(&c_) {
    ++c->live;
    ++c->total;
  }
  Counted(const Counted &o) : c(o.c) {
    ++c->live;
    ++c->total;
  }
  Counted(Counted &&o) noexcept : c(o.c) {
    ++c->live;
    ++c->total;
  }
  Counted &operator=(const Counted &) = default;
  ~Counted() { --c->live; }
};
struct Plan { // which notification throws what
  int at{-1}, kind{0}, seen{0};
  void hit() {
    if (seen++ == at)
      go();
  }
  [[noreturn]] void go() const {
    switch (kind) {
    case 0: throw Odd{at};
    case 1: throw std::runtime_error("sink " + std::to_string(at));
    case 2: throw at;
    default: throw std::bad_alloc();
    }
  }
};
enum class What { none, odd, runtime, number, bad_alloc, other };
template <typename F> What attempt(F &&f, const Plan &p, bool &value_ok) {
  value_ok = true;
  try {
    f();
  } catch (const Odd &o) {
    value_ok = o.code == p.at;
    return What::odd;
  } catch (const std::bad_alloc &) {
    return What::bad_alloc;
  } catch (const std::runtime_error &e) {
    value_ok = std::string(e.what()) == "sink " + std::to_string(p.at);
    return What::runtime;
  } catch (int i) {
    value_ok = i == p.at;
    return What::number;
  } catch (const Fail &) {
    throw;
  } catch (...) {
    return What::other;
  }
  return What::none;
}
struct ThrowSink : Counted {
  Log *log;
  Plan *plan;
  COLUMNS columns;
  std::unique_ptr<int> move_only; // not copyable
  ThrowSink(Count &c, Log &l, Plan &p) : Counted(c), log(&l), plan(&p), move_only(new int(1)) {}
  ThrowSink(ThrowSink &&) = default;
  void set_properties(const Properties &p) {
    RecSink k(*log);
    k.set_properties(p);
    columns = std::move(k.columns);
    plan->hit();
  }
  void push_row(size_t i, Column::PBUF p) {
    log->events.push_back("R" + std::to_string(i));
    log->rows.push_back(observe_row(columns, i, p));
    plan->hit();
  }
  void end_of_data() {
    ++log->n_end;
    log->events.push_back("E");
    plan->hit();
  }
};
struct PinnedSink : ThrowSink { // to be used in place: copies are counted
  using ThrowSink::ThrowSink;
  PinnedSink(const PinnedSink &o) : ThrowSink(*o.c, *o.log, *o.plan) { columns = COLUMNS(o.columns); }
};
struct ThrowFilter : Counted {
  Plan *plan;
  bool accept(const Column &) const {
    plan->hit();
    return true;
  }
  ThrowFilter(Count &c, Plan &p) : Counted(c), plan(&p) {}
};
struct PinnedSource : Counted {
  MemSource m;
  PinnedSource(Count &c, const std::string &b) : Counted(c), m(b) {}
  PinnedSource(const PinnedSource &o) : Counted(o), m(o.m) {} // to be used in place: copies are counted
  bool eof() { return m.eof(); }
  bool read_bytes(void *p, const size_t n) { return m.read_bytes(p, n); }
};
struct OwnSource : Counted {
  MemSource m;
  std::unique_ptr<int> move_only{new int(1)};
  OwnSource(Count &c, const std::string &b) : Counted(c), m(b) {}
  OwnSource(OwnSource &&) = default;
  bool eof() { return m.eof(); }
  bool read_bytes(void *p, const size_t n) { return m.read_bytes(p, n); }
};

void c10_sinks(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 5;
  o.max_rows = 20;
  o.max_str = 10;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.small_pages = s.flip();
  File f = make(s, ctx, d, w);
  Count cs, ck, cf;
  Log log;
  Plan ps, pf;
  const unsigned who = static_cast<unsigned>(s.draw(4)); // nobody, sink, sink, filter, ...
  ps.kind = pf.kind = static_cast<int>(s.draw(3));
  if (who == 1 || who == 2)
    ps.at = static_cast<int>(s.draw(d.rows.size() + 2));
  else if (who == 3)
    pf.at = static_cast<int>(s.draw(d.cols.size() - 1));
  static const What kinds[] = {What::odd, What::runtime, What::number, What::bad_alloc};
  const What expected_kind = kinds[ps.kind];
  const bool src_lvalue = s.flip(), sink_lvalue = s.flip(), filter_lvalue = s.flip();
  bool thrown = false;
  Cursor cur{&d};
  std::string trace = strf("open(%s source, %s sink, %s filter)", src_lvalue ? "lvalue" : "own", sink_lvalue ? "lvalue" : "own", filter_lvalue ? "lvalue" : "own");
  auto fail = [&](const std::string &m) { throw Fail{"after " + trace + ": " + m}; };
  {
    PinnedSource lsrc(cs, f.bytes);
    PinnedSink lsink(ck, log, ps);
    ThrowFilter lfilter(cf, pf);
    const int base_s = 1, base_k = 1, base_f = 1;
    {
      std::optional<Reader> r;
      bool value_ok = true;
      const Plan *active = pf.at >= 0 ? &pf : &ps;
      auto guard = [&](auto &&fn) {
        const int before_s = ps.seen, before_f = pf.seen;
        const What w2 = attempt(fn, *active, value_ok);
        const bool fired = (ps.at >= before_s && ps.at < ps.seen) || (pf.at >= before_f && pf.at < pf.seen);
        if (fired && w2 == What::none)
          fail("the exception of the sink or filter did not reach the caller");
        if (fired && (w2 != expected_kind || !value_ok))
          fail("another exception than the one thrown by the sink or filter reached the caller");
        if (!fired && w2 != What::none)
          fail("an exception although sink and filter did not throw");
        return fired;
      };
      thrown = guard([&] {
        if (src_lvalue && sink_lvalue && filter_lvalue)
          r.emplace(lsrc, lsink, lfilter);
        else if (src_lvalue && sink_lvalue)
          r.emplace(lsrc, lsink, ThrowFilter(cf, pf));
        else if (src_lvalue && filter_lvalue)
          r.emplace(lsrc, ThrowSink(ck, log, ps), lfilter);
        else if (src_lvalue)
          r.emplace(lsrc, ThrowSink(ck, log, ps), ThrowFilter(cf, pf));
        else if (sink_lvalue && filter_lvalue)
          r.emplace(OwnSource(cs, f.bytes), lsink, lfilter);
        else if (sink_lvalue)
          r.emplace(OwnSource(cs, f.bytes), lsink, ThrowFilter(cf, pf));
        else if (filter_lvalue)
          r.emplace(OwnSource(cs, f.bytes), ThrowSink(ck, log, ps), lfilter);
        else
          r.emplace(OwnSource(cs, f.bytes), ThrowSink(ck, log, ps), ThrowFilter(cf, pf));
      });
      if (pf.at >= 0 && !thrown)
        fail("the filter was not asked for every column");
      if (pf.at >= 0 && !log.events.empty())
        fail("the sink was notified although opening failed before");
      if (!thrown) {
        if (!src_lvalue && cs.live != base_s + 1)
          fail(strf("%d instances of the source live, the reader should own exactly one", cs.live - base_s));
        if (!sink_lvalue && ck.live != base_k + 1)
          fail(strf("%d instances of the sink live, the reader should own exactly one", ck.live - base_k));
        if (src_lvalue && (cs.total != base_s || lsrc.m.pos == 0))
          fail("the source was not used in place");
        if (sink_lvalue && ck.total != base_k)
          fail("the sink was not used in place");
        if (filter_lvalue && cf.total != base_f)
          fail("the filter was not used in place");
        if (show_props(*log.props) != show_props(r->properties()))
          fail("the sink was given other properties than the reader reports");
        size_t steps = s.draw(12);
        bool after = false; // a notification has thrown
        while (steps--) {
          const size_t k = s.draw(6);
          size_t rows_before = log.rows.size();
          switch (s.draw(5)) {
          case 0:
            trace += "; read_row";
            after |= guard([&] { r->read_row(); });
            cur.row();
            break;
          case 1:
            trace += strf("; read_rows(%zu)", k);
            after |= guard([&] { r->read_rows(k); });
            cur.rows(k);
            break;
          case 2:
            trace += strf("; skip(%zu)", k);
            after |= guard([&] { r->skip(k); });
            cur.skip(k);
            break;
          case 3:
            trace += "; read_row_no_sink";
            after |= guard([&] { r->read_row_no_sink(); });
            cur.pos += cur.pos < d.rows.size();
            break;
          case 4:
            trace += "; end_of_data";
            after |= guard([&] { r->end_of_data(); });
            cur.events.push_back("E");
            break;
          default:
            trace += "; read_all";
            after |= guard([&] { r->read_all(); });
            cur.all();
          }
          for (size_t i = rows_before; i < log.rows.size(); ++i) {
            if (log.rows[i].index >= d.rows.size())
              fail("a row number past the last row");
            const auto m = check_row(d, log.rows[i].index, log.rows[i]);
            if (!m.empty())
              fail(m);
          }
          if (!after && log.events != cur.events)
            fail("the sink was notified " + show_events(log.events) + " instead of " + show_events(cur.events));
          if (after && log.n_props != 1)
            fail("the properties were notified again");
        }
        thrown = after;
      }
    }
    if (cs.live != base_s || ck.live != base_k || cf.live != base_f)
      fail(strf("after the reader is gone %d sources, %d sinks and %d filters it owned are left", cs.live - base_s, ck.live - base_k, cf.live - base_f));
  }
  if (cs.live || ck.live || cf.live)
    fail("an object was destroyed twice");
  ctx.mix(trace);
  if (ctx.want_sample)
    ctx.sample += " | calls: " + trace + strf(" | throws: %s", thrown ? "yes" : "no");
  ctx.nontrivial = !d.rows.empty();
  ctx.label(thrown ? (pf.at >= 0 ? "filter-threw" : "sink-threw") : "no-exception");
  ctx.label(strf("%s-source", src_lvalue ? "lvalue" : "owned"));
  ctx.label(strf("%s-sink", sink_lvalue ? "lvalue" : "owned"));
}

// ---------------------------------------------------------------- C19
void c19_interleaved(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 5;
  o.max_rows = 30;
  o.max_str = 10;
  const size_t nfiles = 1 + s.draw(2);
  std::vector<Dataset> ds;
  std::vector<File> fs;
  for (size_t i = 0; i < nfiles; ++i) {
    ds.push_back(model::gen_dataset(s, o));
    WriteOpts w;
    w.small_pages = s.flip();
    fs.push_back(make(s, ctx, ds.back(), w));
    ctx.artifacts[strf("%zu.sas7bdat", i)] = fs.back().bytes;
  }
  std::vector<std::unique_ptr<Runner>> runs;
  const size_t steps = 4 + s.draw(40);
  size_t switches = 0, last = 0, created = 0, nested = 0;
  for (size_t i = 0; i < steps; ++i) {
    if (runs.size() < 2 || (runs.size() < 5 && s.chance(1, 6))) {
      const size_t k = s.draw(nfiles - 1);
      runs.push_back(std::make_unique<Runner>(ds[k], fs[k]));
      ++created;
    } else if (s.chance(1, 12)) {
      runs.erase(runs.begin() + static_cast<long>(s.draw(runs.size() - 1)));
    } else {
      const size_t k = s.draw(runs.size() - 1);
      switches += k != last;
      last = k;
      // sometimes a second reader is used by the sink of the first
      size_t left = 3, k2 = s.draw(runs.size() - 1);
      const bool nest = k2 != k && s.chance(1, 3);
      if (nest)
        runs[k]->hook = [&] {
          if (left) {
            --left;
            ++nested;
            runs[k2]->step(s);
          }
        };
      runs[k]->step(s);
      runs[k]->hook = nullptr;
    }
  }
  for (auto &r : runs)
    r->check_held();
  ctx.nontrivial = switches > 2;
  ctx.label(strf("files:%zu", nfiles));
  ctx.label_if(created > 3, "readers>3");
  ctx.label_if(nested > 0, "used-from-a-sink");
  if (ctx.want_sample && !runs.empty())
    ctx.sample += strf(" | %zu readers, %zu switches, first: ", created, switches) + runs[0]->trace;
}

// Readers in several threads: each thread has choices of its own, drawn beforehand
void c19_threads(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 6;
  o.max_rows = 60;
  o.max_str = 12;
  const size_t nfiles = 1 + s.draw(2);
  std::vector<Dataset> ds;
  std::vector<File> fs;
  for (size_t i = 0; i < nfiles; ++i) {
    ds.push_back(model::gen_dataset(s, o));
    WriteOpts w;
    w.small_pages = s.flip();
    fs.push_back(make(s, ctx, ds.back(), w));
    ctx.artifacts[strf("%zu.sas7bdat", i)] = fs.back().bytes;
  }
  const size_t nt = 2 + s.draw(3);
  const bool damaged = s.chance(1, 4); // some threads see errors
  struct Job {
    size_t file;
    std::vector<uint64_t> choices;
    std::string cut;
    std::string error;
  };
  std::vector<Job> jobs(nt);
  for (auto &j : jobs) {
    j.file = s.draw(nfiles - 1);
    const size_t n = 6 + s.draw(40);
    for (size_t i = 0; i < n; ++i)
      j.choices.push_back(s.draw(13));
    if (damaged && s.flip())
      j.cut = fs[j.file].bytes.substr(0, s.draw(fs[j.file].bytes.size()));
  }
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  const bool handover = s.flip();
  std::vector<std::unique_ptr<Runner>> given(nt);
  if (handover) // readers made in one thread, used in another
    for (size_t i = 0; i < nt; ++i)
      given[i] = std::make_unique<Runner>(ds[jobs[i].file], fs[jobs[i].file]);
  for (size_t i = 0; i < nt; ++i)
    th.emplace_back([&, i] {
      auto &j = jobs[i];
      ++ready;
      while (ready < nt)
        std::this_thread::yield();
      try {
        for (int round = 0; round < 2; ++round) {
          if (!j.cut.empty()) {
            try {
              Log log;
              Reader r{MemSource(j.cut), RecSink(log)};
              r.read_all();
            } catch (const std::exception &) {
            }
          }
          if (!given[i])
            given[i] = std::make_unique<Runner>(ds[j.file], fs[j.file]);
          Src t(j.choices, nullptr);
          while (t.drawn() < j.choices.size())
            given[i]->step(t);
          given[i]->check_held();
          // text conversions share nothing either
          for (size_t k = 0; k < ds[j.file].cols.size(); ++k)
            given[i]->r.properties().columns[k].length();
          given[i].reset();
        }
      } catch (const Fail &f) {
        j.error = f.msg;
      } catch (const std::exception &e) {
        j.error = std::string("unexpected exception: ") + e.what();
      }
    });
  for (auto &t : th)
    t.join();
  for (size_t i = 0; i < nt; ++i)
    if (!jobs[i].error.empty())
      throw Fail{strf("thread %zu of %zu: ", i, nt) + jobs[i].error};
  ctx.nontrivial = true;
  ctx.label(strf("threads:%zu", nt));
  ctx.label_if(handover, "handed-over");
  ctx.label_if(damaged, "with-damaged-files");
}
} // namespace

static void register_hist() {
  eng::add({"C08", "plain", "history", "random call sequences (read_row, read_rows, read_all, read_row_no_sink, skip, end_of_data, properties, moves and swaps; amounts around the number of rows left) against a cursor model: return values, rows, position and notifications after every call; non-trivial: several rows, several calls and a skip or pull", 250000, 12000000, 20, c08_history});
  eng::add({"C08", "plain", "empty", "random call sequences on default-constructed and moved-from readers; non-trivial: all", 30000, 500000, 20, c08_empty});
  eng::add({"C08", "asan", "history-asan", "as history, under the sanitizers", 15000, 700000, 60, c08_history});
  eng::add({"C10", "plain", "sinks", "random calls with lvalue or owned, move-only or immovable sources, sinks and filters that count their instances, sinks and filters throwing standard and other exceptions at a random notification; non-trivial: at least one row", 250000, 12000000, 20, c10_sinks});
  eng::add({"C10", "asan", "sinks-asan", "as sinks, under the sanitizers", 15000, 700000, 60, c10_sinks});
  eng::add({"C19", "plain", "interleaved", "several readers over the same and different files used alternately, created and destroyed in between, each against its own cursor model; non-trivial: more than two switches between readers", 120000, 6000000, 20, c19_interleaved});
  eng::add({"C19", "asan", "interleaved-asan", "as interleaved, under the sanitizers", 8000, 400000, 60, c19_interleaved});
  eng::add({"C19", "tsan", "threads", "2 to 5 threads, each with its own readers (made there or handed over) over the same and different files and, in part, damaged files, each against its own cursor model, under ThreadSanitizer; non-trivial: all", 4000, 150000, 90, c19_threads});
  eng::add({"C19", "plain", "threads-plain", "as threads, without ThreadSanitizer (other interleavings); non-trivial: all", 15000, 500000, 60, c19_threads, 4});
}
static const bool registered = (register_hist(), true);
} // namespace props
