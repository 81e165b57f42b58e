// C17, C18: the Python module and the R package, driven through pipes and compared with the C++ library
#include "textual.hpp"
#include <cmath>
#include <cppsas7bdat/source/ifstream.hpp>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <set>
#include <spawn.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;

namespace props {
namespace {

std::string hx(const std::string &s) {
  static const char *d = "0123456789abcdef";
  std::string r;
  r.reserve(2 * s.size());
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}
std::string slurp(const std::string &p) {
  std::ifstream is(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
}
void spit(const std::string &p, const std::string &b) {
  std::ofstream os(p, std::ios::binary);
  os.write(b.data(), static_cast<std::streamsize>(b.size()));
  if (!os.flush())
    throw HarnessError{"cannot write " + p};
}

// An interpreter that runs jobs; it lives as long as the worker
struct Server {
  std::vector<std::string> cmd; // program and arguments; NAME=VALUE before the program
  pid_t pid{0};
  int in{-1}, out{-1};
  std::string errfile, buf;
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
      throw HarnessError{"pipe"};
    errfile = strf("%s/server.%d.err", eng::scratch_dir().c_str(), static_cast<int>(getpid()));
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, a[0], 0);
    posix_spawn_file_actions_adddup2(&fa, b[1], 1);
    posix_spawn_file_actions_addopen(&fa, 2, errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    std::vector<std::string> env{"TMPDIR=" + eng::scratch_dir()}, args;
    for (auto &w : cmd)
      (args.empty() && w[0] != '/' && w.find('=') != std::string::npos ? env : args).push_back(w);
    std::vector<char *> argv, envp;
    for (auto &w : args)
      argv.push_back(w.data());
    argv.push_back(nullptr);
    for (auto &w : env)
      envp.push_back(w.data());
    for (char **e = environ; *e; ++e) {
      bool mine = false;
      for (auto &w : env)
        mine |= !strncmp(*e, w.c_str(), w.find('=') + 1);
      if (!mine)
        envp.push_back(*e);
    }
    envp.push_back(nullptr);
    const int rc = posix_spawn(&pid, argv[0], &fa, nullptr, argv.data(), envp.data());
    posix_spawn_file_actions_destroy(&fa);
    if (rc)
      throw HarnessError{strf("cannot start %s: %s", argv[0], strerror(rc))};
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    buf.clear();
  }
  void stop() {
    if (pid) {
      close(in);
      close(out);
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
      pid = 0;
    }
  }
  // transcript of the job; throws Fail when the interpreter dies
  std::string run(const std::string &job) {
    if (!pid)
      start();
    const std::string path = strf("%s/job.%d", eng::scratch_dir().c_str(), static_cast<int>(getpid()));
    spit(path, job);
    const std::string outp = path + ".out";
    ::unlink(outp.c_str());
    const std::string l = path + "\n";
    bool dead = write(in, l.data(), l.size()) != static_cast<ssize_t>(l.size());
    while (!dead) {
      const auto m = buf.find("@@done\n");
      if (m != std::string::npos && (m == 0 || buf[m - 1] == '\n')) {
        buf.erase(0, m + 7);
        break;
      }
      pollfd p{out, POLLIN, 0};
      const int n = poll(&p, 1, 120000);
      if (n == 0) {
        stop();
        throw Fail{"the interpreter does not answer (120 s)"};
      }
      char b[65536];
      const ssize_t k = read(out, b, sizeof b);
      if (k <= 0)
        dead = true;
      else
        buf.append(b, static_cast<size_t>(k));
    }
    if (dead) {
      int st = 0;
      close(in);
      close(out);
      waitpid(pid, &st, 0);
      pid = 0;
      auto err = slurp(errfile);
      for (const char *key : {"ERROR: AddressSanitizer", "runtime error:", "Traceback"}) {
        const auto at = err.find(key);
        if (at != std::string::npos) {
          err = err.substr(at);
          break;
        }
      }
      const std::string how = WIFSIGNALED(st) ? strf("signal %d", WTERMSIG(st)) : strf("status %d", WEXITSTATUS(st));
      if (!WIFSIGNALED(st) && err.find("Sanitizer") == std::string::npos && err.find("runtime error") == std::string::npos)
        throw HarnessError{"the interpreter ended with " + how + ": " + err.substr(0, 1500)};
      throw Fail{"the interpreter ended with " + how + ": " + err.substr(0, 1500)};
    }
    return slurp(outp);
  }
};

struct Lang {
  bool r{false};
  // ------------------------------------------------------------ texts of values
  std::string number(double v) const {
    if (r)
      return std::isnan(v) ? "NA" : std::isinf(v) ? (v > 0 ? "f:Inf" : "f:-Inf") : strf("f:%.17g", v);
    if (std::isnan(v))
      return "f:nan";
    uint64_t b;
    memcpy(&b, &v, 8);
    return strf("f:%016llx", static_cast<unsigned long long>(b));
  }
  static int64_t floor_day(int64_t us) { return us >= 0 ? us / 86400000000ll : -((-us + 86399999999ll) / 86400000000ll); }
  static std::string dt_text(int64_t us) {
    const int64_t day = floor_day(us);
    return iso_date(day) + " " + iso_time(us - day * 86400000000ll);
  }
  std::string cell(const Column &c, const CellObs &o, bool by_row) const {
    const std::string none = r ? (by_row ? "N" : "NA") : "N";
    switch (c.type) {
    case Column::Type::string: return "s:" + hx(o.str);
    case Column::Type::integer: return strf("i:%d", o.i);
    case Column::Type::number: {
      double v;
      memcpy(&v, &o.num, 8);
      return number(v);
    }
    case Column::Type::datetime: return o.dt == model::NAT ? none : r ? "s:" + hx(dt_text(o.dt)) : strf("t:%lld", static_cast<long long>(o.dt));
    case Column::Type::date: return o.day == model::NAT ? none : r ? "s:" + hx(iso_date(o.day)) : strf("d:%lld", static_cast<long long>(o.day));
    case Column::Type::time: return o.time == model::NAT ? none : r ? "s:" + hx(iso_time(o.time)) : strf("T:%lld", static_cast<long long>(o.time));
    default: return "?";
    }
  }
  std::string props(const Properties &p) const {
    std::string s;
    auto add = [&](const std::string &x) { s += (s.empty() ? "" : "|") + x; };
    auto text = [&](const char *k, const std::string &v) { add(std::string(k) + "=" + hx(v)); };
    auto num = [&](const char *k, size_t v) { add(std::string(k) + "=" + std::to_string(v)); };
    const bool le = p.endianness == cppsas7bdat::Endian::little;
    const char *plat = p.platform == cppsas7bdat::Platform::unix ? "unix" : p.platform == cppsas7bdat::Platform::windows ? "windows" : "unknown";
    const char *comp = p.compression == cppsas7bdat::Compression::RLE ? "RLE" : p.compression == cppsas7bdat::Compression::RDC ? "RDC" : "none";
    if (r) {
      text("endianness", le ? "little" : "big");
      text("platform", plat);
      text("compression", comp);
      text("date_created", dt_text(us_of(p.date_created)));
      text("date_modified", dt_text(us_of(p.date_modified)));
    } else {
      add(std::string("format=") + (p.format == cppsas7bdat::Format::bit64 ? "bit64" : "bit32"));
      add(std::string("endianness=") + (le ? "little" : "big"));
      add(std::string("platform=") + plat);
      add(std::string("compression=") + comp);
      auto dt = [&](const char *k, int64_t us) { add(std::string(k) + "=" + (us == model::NAT ? "N" : strf("t:%lld", static_cast<long long>(us)))); };
      dt("date_created", us_of(p.date_created));
      dt("date_modified", us_of(p.date_modified));
    }
    text("dataset_name", p.dataset_name);
    text("encoding", std::string(p.encoding));
    text("file_type", p.file_type);
    text("sas_release", p.sas_release);
    text("sas_server_type", p.sas_server_type);
    text("os_type", p.os_type);
    text("os_name", p.os_name);
    text("creator", p.creator);
    text("creator_proc", p.creator_proc);
    num("header_length", p.header_length);
    num("page_length", p.page_length);
    num("page_count", p.page_count);
    num("row_length", p.row_length);
    num("row_count", p.row_count);
    num("column_count", p.column_count);
    num("col_count_p1", p.col_count_p1);
    num("col_count_p2", p.col_count_p2);
    num("mix_page_row_count", p.mix_page_row_count);
    num("lcs", p.lcs);
    num("lcp", p.lcp);
    static const char *types[] = {"unknown", "string", "number", "integer", "datetime", "date", "time"};
    for (auto &c : p.columns)
      add(hx(c.name) + "," + hx(c.label) + "," + hx(c.format) + "," + types[static_cast<int>(c.type)]);
    return s;
  }
};

struct Boom {
  int k;
};
enum class Style { row, chunk, data };
// What the sink of a style is to be given, from the notifications of the C++ library
struct RefState {
  Lang lang;
  Style style{Style::row};
  size_t size{0}; // of a chunk
  int boom{-1};
  bool listed{true}; // the driver lists the notifications
  std::vector<std::string> lines;
  int seen{0};
  COLUMNS columns;
  std::vector<RowObs> pending, delivered;
  std::vector<std::vector<RowObs>> sets; // of deliveries
  size_t row_count{0};
  bool ended{false};
  void event(const std::string &l) {
    if (listed)
      lines.push_back(l);
    const int k = seen++;
    if (listed && k == boom)
      throw Boom{k};
  }
  static bool by_name(const std::string &a, const std::string &b) { return a.substr(0, a.find('=')) < b.substr(0, b.find('=')); }
  std::string table(const std::vector<RowObs> &rows, bool sorted, bool by_row = false) const {
    std::vector<std::string> cols;
    for (size_t i = 0; i < columns.size(); ++i) {
      std::string c = hx(columns[i].name) + "=";
      for (size_t k = 0; k < rows.size(); ++k)
        c += (k ? "," : "") + lang.cell(columns[i], rows[k].cells[i], by_row);
      cols.push_back(std::move(c));
    }
    if (sorted)
      std::sort(cols.begin(), cols.end(), by_name);
    std::string s;
    for (auto &c : cols)
      s += (s.empty() ? "" : "|") + c;
    return s;
  }
  std::string indices(const std::vector<RowObs> &rows) const {
    std::string s;
    for (auto &r : rows)
      s += (s.empty() ? "" : ",") + std::to_string(r.index);
    return s;
  }
  void flush() {
    if (pending.empty())
      return;
    auto rows = std::move(pending);
    pending.clear();
    delivered.insert(delivered.end(), rows.begin(), rows.end());
    sets.push_back(rows);
    const char *letter = style == Style::chunk ? "C " : "D ";
    if (lang.r)
      event(letter + indices(rows) + " " + table(rows, true));
    else if (style == Style::chunk)
      event(letter + strf("%zu %zu ", rows.front().index, rows.back().index) + table(rows, true));
    else
      event(letter + table(rows, true));
  }
};
struct RefSink {
  RefState *s;
  void set_properties(const Properties &p) {
    s->columns = COLUMNS(p.columns);
    s->row_count = p.row_count;
    s->event("P " + s->lang.props(p));
  }
  void push_row(size_t i, Column::PBUF p) {
    auto o = observe_row(s->columns, i, p);
    if (s->style == Style::row) {
      std::string names, cells;
      for (size_t c = 0; c < s->columns.size(); ++c) {
        names += (c ? "," : "") + hx(s->columns[c].name);
        cells += (c ? "," : "") + s->lang.cell(s->columns[c], o.cells[c], true);
      }
      s->delivered.push_back(o);
      s->event(s->lang.r ? strf("R %zu ", i) + names + "|" + cells : strf("R %zu ", i) + cells);
    } else {
      s->pending.push_back(o);
      if (s->style == Style::chunk && s->pending.size() == s->size)
        s->flush();
    }
  }
  void end_of_data() {
    s->ended = true;
    if (s->style != Style::row)
      s->flush();
  }
};

void no_zero_bytes(Dataset &d) {
  for (size_t i = 0; i < d.rows.size(); ++i) {
    bool changed = false;
    for (size_t c = 0; c < d.cols.size(); ++c)
      if (d.cols[c].ty == model::Ty::Str) {
        auto &t = d.rows[i][c].str;
        for (size_t k = 0; k < trimmed(t).size(); ++k)
          if (!t[k]) {
            t[k] = 'z';
            changed = true;
          }
      }
    if (changed)
      d.raw_rows[i] = model::encode_row(d, d.rows[i], d.raw_rows[i]);
  }
}

struct Job {
  std::string file, sink, include{"none"}, exclude{"none"};
  bool extra{false}, late{false};
  int boom{-1}, torture{0};
  int repeat{0}; // play the job this many times between two looks at the memory in use
  std::vector<std::string> ops;
  std::string text() const {
    std::string s = "file " + hx(file) + "\nsink " + sink + "\ninclude " + include + "\nexclude " + exclude + strf("\nextra %d\nlate %d\nboom %d\ntorture %d\nrepeat %d\n", extra, late, boom, torture, repeat);
    for (auto &o : ops)
      s += "op " + o + "\n";
    return s;
  }
};

std::string first_difference(const std::vector<std::string> &got, const std::vector<std::string> &want, const Job &j) {
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    const std::string g = i < got.size() ? got[i] : "(nothing)", w = i < want.size() ? want[i] : "(nothing)";
    if (g != w) {
      size_t k = 0;
      while (k < g.size() && k < w.size() && g[k] == w[k])
        ++k;
      const size_t from = k > 60 ? k - 60 : 0;
      std::string ops;
      for (auto &o : j.ops)
        ops += "; " + o;
      return strf("sink %s%s%s: line %zu of the transcript, at %zu: ", j.sink.c_str(), j.boom >= 0 ? strf(" raising at notification %d", j.boom).c_str() : "", ops.c_str(), i, k) + "..." + g.substr(from, 160) + " instead of ..." + w.substr(from, 160);
    }
  }
  return "";
}

void lang_case(Src &s, Ctx &ctx, Lang lang, Server &server, bool big = false, int repeat = 0) {
  if (server.cmd.empty()) {
    std::stringstream ss(eng::param(lang.r ? "r-cmd" : server.errfile));
    std::string w;
    while (std::getline(ss, w, '\x1f'))
      server.cmd.push_back(w);
    if (server.cmd.empty())
      throw HarnessError{"no interpreter given"};
  }
  DsOpts o;
  o.max_cols = lang.r ? 6 : 8;
  o.max_rows = lang.r ? 14 : 30;
  o.max_str = 16;
  o.wide_names = true;
  if (big) {
    o.max_cols = 3;
    o.max_str = 6;
    o.max_rows = 40;
    o.wide_names = false;
  }
  Dataset d = model::gen_dataset(s, o);
  if (lang.r)
    no_zero_bytes(d);
  WriteOpts wo;
  std::vector<std::string> streams;
  if (big) { // around the default chunk size, and beyond 16 bits
    streams = model::multiply_rows(s, d, s.flip() ? 9990 + s.draw(30) : s.flip() ? 20000 + s.draw(100) : 65500 + s.draw(500));
    if (!streams.empty() && d.comp != model::Comp::None)
      wo.streams = &streams;
  }
  File f = make(s, ctx, d, wo);
  Job j;
  j.file = strf("%s/in.%d%s.sas7bdat", eng::scratch_dir().c_str(), static_cast<int>(getpid()), lang.r || !s.chance(1, 8) ? "" : " \xc3\xa9 \xe6\x97\xa5");
  std::string bytes = f.bytes;

  RefState ref;
  ref.lang = lang;
  cppsas7bdat::ColumnFilter::IncludeExclude filter;
  bool bad = false; // no reader can be made
  const char *trouble = "";
  // sink
  const bool package = s.chance(1, 3);
  const bool all_at_once = package && s.chance(1, 4); // read_sas
  switch (s.draw(2)) {
  case 0: ref.style = Style::row; break;
  case 1:
    ref.style = Style::chunk;
    ref.size = s.flip() ? s.range(1, 6) : s.chance(1, 2) ? s.range(1, d.rows.size() + 2) : s.range(1, 100000);
    if (big)
      ref.size = s.pick(std::vector<size_t>{10000, 9999, 4096, 32768, 65535, 65536, 65537, 100000, 1000});
    break;
  default: ref.style = Style::data;
  }
  if (all_at_once && lang.r)
    ref.style = Style::data;
  if (big && lang.r && ref.style == Style::row) // its data frame takes time that grows with the square
    ref.style = Style::chunk, ref.size = 10000;
  std::string base = ref.style == Style::row ? "row" : ref.style == Style::chunk ? "chunk" : "data";
  if (ref.style == Style::chunk) {
    if (package && s.chance(1, 4)) {
      ref.size = 10000; // the default
      base += " 0";
    } else
      base += strf(" %zu", ref.size);
  }
  j.sink = package ? "p" + base : base;
  if (all_at_once)
    j.sink = lang.r ? "read_sas" : ref.style == Style::data && s.flip() ? "read_sas default" : "read_sas p" + base;
  ref.listed = !package;
  j.extra = s.flip();
  j.late = s.flip();
  if (lang.r && !big && !repeat && s.chance(1, 40)) {
    j.torture = static_cast<int>((eng::thorough() ? 5 : 29) + s.skewed(400));
    j.late = true;
  }
  // filter
  auto names = [&](std::set<std::string> &set, std::string &text) {
    switch (s.draw(3)) {
    case 0:
    case 1: return;
    case 2: text = ""; break;
    default:
      text = "";
      const size_t n = s.range(1, 4);
      for (size_t i = 0; i < n; ++i) {
        std::string name = d.cols.empty() || s.chance(1, 5) ? "no_such_column" : s.pick(d.cols).name;
        if (name.empty())
          continue;
        set.insert(name);
        text += (text.empty() ? "" : ",") + hx(name);
      }
    }
  };
  if (s.flip()) {
    names(filter.included, j.include);
    names(filter.excluded, j.exclude);
  }
  // trouble
  if (s.chance(1, 10)) {
    bad = true;
    switch (s.draw(7)) {
    case 0:
      trouble = "no-such-file";
      j.file += ".none";
      bytes.clear();
      break;
    case 1:
      trouble = "garbage";
      bytes = s.bytes(s.draw(400));
      break;
    case 2:
      trouble = "cut-metadata";
      bytes.resize(s.draw(f.header_length + 16));
      break;
    case 3:
      trouble = "directory";
      j.file = eng::scratch_dir();
      break;
    case 4:
      trouble = "bad-filter";
      (s.flip() ? j.include : j.exclude) = s.flip() ? "badlist" : s.flip() ? "badtuple" : "baditem";
      break;
    case 5:
      trouble = "bad-sink";
      j.sink = "bad";
      break;
    case 6:
      trouble = "no-sink";
      j.sink = "none";
      break;
    default:
      trouble = "cut-data"; // the rows of the pages left
      bad = false;
      bytes.resize(s.range(f.metadata_end, bytes.size()));
    }
    if (all_at_once && bad && (j.sink == "bad" || j.sink == "none"))
      ;
  } else if (!package && s.chance(1, 6)) {
    trouble = "sink-raises";
    j.boom = static_cast<int>(s.draw(s.flip() ? 3 : d.rows.size() + 1));
  }
  ref.boom = j.boom;
  if (j.file.find(".sas7bdat") != std::string::npos && j.file.find(".none") == std::string::npos)
    spit(j.file, bytes);

  // calls
  std::optional<Reader> reader;
  std::vector<std::string> &want = ref.lines;
  bool failed = bad, dropped = false, flushed = false, sinkless = false;
  std::string kept;
  auto guarded = [&](auto &&fn) {
    try {
      fn();
    } catch (const Boom &b) {
      want.push_back(strf("! boom-%d", b.k));
      failed = true;
    } catch (const Fail &) {
      throw;
    } catch (const std::exception &) {
      want.push_back("! error");
      failed = true;
    }
  };
  if (bad)
    want.push_back("! error");
  else
    guarded([&] {
      reader.emplace(cppsas7bdat::datasource::ifstream(j.file.c_str()), RefSink{&ref}, filter);
      if (all_at_once) {
        reader->read_all();
        reader.reset();
        dropped = true;
        want.push_back("> read_sas");
      } else
        want.push_back("> open");
    });
  const char *yes = lang.r ? "> TRUE" : "> True", *no = lang.r ? "> FALSE" : "> False", *done = lang.r ? "> done" : "> None";
  const size_t n = s.draw(lang.r ? 6 : 10);
  bool pulled = false;
  for (size_t i = 0; i < n && !failed && !dropped; ++i) {
    const size_t op = s.draw(13);
    std::string text;
    guarded([&] {
      if (op <= 2) {
        j.ops.push_back("read_row");
        want.push_back(reader->read_row() ? yes : no);
        pulled = true;
      } else if (op <= 5) {
        const size_t k = s.chance(1, 12) ? (size_t(1) << (31 + s.draw(1))) + s.draw(3) : s.chance(1, 3) ? s.skewed(100000) : big ? s.draw(30000) : s.draw(7);
        j.ops.push_back(strf("read_rows %zu", k));
        want.push_back(reader->read_rows(k) ? yes : no);
        pulled = true;
      } else if (op == 6) {
        const size_t k = s.chance(1, 12) ? (size_t(1) << (31 + s.draw(1))) + s.draw(3) : s.chance(1, 6) ? s.skewed(100000) : big ? s.draw(12000) : s.draw(5);
        j.ops.push_back(strf("skip %zu", k));
        want.push_back(reader->skip(k) ? yes : no);
      } else if (op == 7) {
        j.ops.push_back("index");
        want.push_back(lang.r ? strf("> %zu", reader->current_row_index()) : strf("> i:%zu", reader->current_row_index()));
      } else if (op == 8) {
        j.ops.push_back("props");
        want.push_back("> " + lang.props(reader->properties()));
      } else if (op == 9) {
        j.ops.push_back("gc");
      } else if (op == 10 && !package) {
        j.ops.push_back("eod");
        reader->end_of_data();
        want.push_back(done);
      } else if (op == 11 && !sinkless && !package) {
        j.ops.push_back("drop_sink");
        sinkless = true;
      } else if (op == 12 && !lang.r && !package && !sinkless && !flushed && !ref.ended) {
        j.ops.push_back("flush");
        flushed = true;
        if (ref.style == Style::chunk || ref.style == Style::data)
          ref.flush();
        want.push_back("> flush");
      } else if (op == 13) {
        j.ops.push_back("keep");
        kept = lang.props(reader->properties());
      }
    });
  }
  if (!failed && !dropped && s.draw(3))
    guarded([&] {
      j.ops.push_back("read_all");
      reader->read_all();
      want.push_back(done);
      pulled = true;
    });
  if (!failed && !package && !lang.r && !sinkless) {
    j.ops.push_back("attr");
    want.push_back(ref.ended || flushed ? "> attr False" : "> attr True");
  }
  if (!failed && !dropped && s.flip()) {
    j.ops.push_back("drop_reader");
    j.ops.push_back("gc");
    if (!lang.r && package && kept.empty()) // what was not flushed is lost with the reader
      ref.pending.clear();
    dropped = true;
  }
  if (!failed && package) {
    std::string df;
    bool ask = true;
    if (!lang.r) {
      if (ref.style != Style::row)
        ref.flush();
      if (ref.style == Style::data)
        df = ref.sets.empty() ? "none" : ref.table(ref.sets.back(), false);
      else
        df = ref.table(ref.delivered, false);
      ask = !(ref.style == Style::chunk && ref.delivered.empty());
    } else if (ref.style == Style::row) {
      // a frame with all rows, NA where nothing was read
      std::map<size_t, const RowObs *> at;
      for (auto &x : ref.delivered)
        at[x.index] = &x;
      std::vector<std::string> cols;
      for (size_t c = 0; c < ref.columns.size(); ++c) {
        std::string t = hx(ref.columns[c].name) + "=";
        for (size_t k = 0; k < ref.row_count; ++k)
          t += (k ? "," : "") + (at.count(k) ? lang.cell(ref.columns[c], at[k]->cells[c], false) : std::string("NA"));
        cols.push_back(t);
      }
      std::sort(cols.begin(), cols.end(), RefState::by_name);
      for (auto &c : cols)
        df += (df.empty() ? "" : "|") + c;
      ask = ref.row_count > 0 && !ref.columns.empty();
    } else
      df = ref.sets.empty() ? "none" : ref.style == Style::chunk ? ref.table(ref.delivered, true) : ref.table(ref.sets.back(), true);
    if (ask) {
      j.ops.push_back("df");
      want.push_back("DF " + df);
    }
  }
  if (!kept.empty()) {
    want.push_back("K " + kept);
    if (!lang.r) {
      std::string names;
      for (auto &c : reader->properties().columns)
        names += (names.empty() ? "" : "|") + hx(c.name);
      for (int k = 0; k < 3; ++k)
        want.push_back("K " + names);
    }
  }
  reader.reset();

  const std::string job = j.text();
  ctx.artifacts["job"] = job;
  ctx.mix(job.substr(job.find("\nsink")));
  const std::string out = server.run(job);
  ctx.artifacts["transcript"] = out;
  std::vector<std::string> got;
  std::stringstream ss(out);
  for (std::string l; std::getline(ss, l);)
    got.push_back(l);
  std::string w;
  for (auto &l : want)
    w += l + "\n";
  ctx.artifacts["expected"] = w;
  require(first_difference(got, want, j));
  if (repeat) { // again and again
    j.repeat = repeat;
    const std::string kept = server.run(j.text());
    if (!kept.empty()) {
      std::string ops;
      for (auto &o : j.ops)
        ops += "; " + o;
      throw Fail{"sink " + j.sink + ops + ": " + kept};
    }
  }
  if (ctx.want_sample) {
    ctx.sample += " | sink " + j.sink + " calls:";
    for (auto &x : j.ops)
      ctx.sample += " " + x + ";";
  }
  ctx.nontrivial = !ref.delivered.empty() || *trouble;
  ctx.label("sink:" + j.sink.substr(0, j.sink.find_last_not_of(" 0123456789") + 1));
  ctx.label_if(*trouble, std::string("trouble:") + trouble);
  ctx.label_if(ref.columns.size() != d.cols.size() && !bad, "filtered");
  ctx.label_if(pulled && !ref.ended, "not-read-to-the-end");
  ctx.label_if(j.torture, "gc-stress");
  for (auto &c : d.cols)
    ctx.label(std::string("column:") + model::ty_name(c.ty));
}

void python_case(Src &s, Ctx &ctx, const char *cmd, bool big = false, int repeat = 0) {
  static std::map<std::string, Server> servers;
  auto &sv = servers[cmd];
  if (sv.cmd.empty())
    sv.errfile = cmd;
  lang_case(s, ctx, Lang{false}, sv, big, repeat);
}
void r_case(Src &s, Ctx &ctx, bool big = false, int repeat = 0) {
  static Server sv;
  lang_case(s, ctx, Lang{true}, sv, big, repeat);
}

void register_lang() {
  const char *py = "random datasets, sinks (custom and of the package; by row, chunk, whole), filters and calls through the Python module: every notification, value, result and exception compared with the same calls of the C++ library; objects are kept, dropped and collected at "
                   "random; a tenth with unusable files, filters or sinks, or sinks that raise; non-trivial: rows delivered or trouble";
  eng::add({"C17", "plain", "python", py, 20000, 1000000, 200, [](Src &s, Ctx &c) { python_case(s, c, "py-cmd"); }});
  eng::add({"C17", "plain", "python-asan", "as python, the extension built with sanitizers", 3000, 200000, 200, [](Src &s, Ctx &c) { python_case(s, c, "py-asan-cmd"); }});
  eng::add({"C18", "plain", "r", "as python, through the R package; in some cases the collector runs at every k-th allocation", 4000, 200000, 200, [](Src &s, Ctx &c) { r_case(s, c); }});
  eng::add({"C20", "plain", "python-leaks", "a random job of the Python module played again and again: the sink is gone when the reader and the last reference to it are, and neither Python objects nor the C++ heap grow with every run; non-trivial: rows delivered or trouble", 60, 10000, 200, [](Src &s, Ctx &c) { python_case(s, c, "py-cmd", false, 60); }});
  eng::add({"C20", "plain", "r-leaks", "as python-leaks, through the R package: the cells in use do not grow with every run", 12, 2000, 200, [](Src &s, Ctx &c) { r_case(s, c, false, 5); }});
  eng::add({"C17", "plain", "python-long", "as python, with 10000 (the default chunk size) to 66000 rows; non-trivial: rows delivered or trouble", 60, 3000, 200, [](Src &s, Ctx &c) { python_case(s, c, "py-cmd", true); }});
  eng::add({"C18", "plain", "r-long", "as python-long, through the R package", 30, 1500, 200, [](Src &s, Ctx &c) { r_case(s, c, true); }});
}
const bool registered = (register_lang(), true);
} // namespace
} // namespace props
