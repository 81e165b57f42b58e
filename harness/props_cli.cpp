// C16: the command line tool
#include "textual.hpp"
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <set>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;

namespace props {
namespace {
namespace fs = std::filesystem;

std::string slurp(const fs::path &p) {
  std::ifstream is(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
}
void spit(const fs::path &p, const std::string &b) {
  fs::create_directories(p.parent_path());
  std::ofstream os(p, std::ios::binary);
  os.write(b.data(), static_cast<std::streamsize>(b.size()));
  if (!os.flush())
    throw HarnessError{"cannot write " + p.string()};
}

struct Outcome {
  int status{0};
  bool signalled{false};
  std::string out, err;
  bool ok() const { return !signalled && status == 0; }
};
Outcome run_tool(const std::string &tool, const std::vector<std::string> &args, const fs::path &cwd, const fs::path &io, const char *to = nullptr) {
  const std::string fo = to ? to : (io / "stdout").string(), fe = (io / "stderr").string();
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&fa, 2, fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  std::vector<char *> argv{const_cast<char *>(tool.c_str())};
  for (auto &a : args)
    argv.push_back(const_cast<char *>(a.c_str()));
  argv.push_back(nullptr);
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  pid_t pid;
  const int rc = posix_spawn(&pid, tool.c_str(), &fa, nullptr, argv.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (rc)
    throw HarnessError{strf("cannot start %s: %s", tool.c_str(), strerror(rc))};
  rlimit cpu{20, 21};
  prlimit(pid, RLIMIT_CPU, &cpu, nullptr);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0)
    if (errno != EINTR)
      throw HarnessError{"waitpid"};
  Outcome o;
  o.signalled = WIFSIGNALED(st);
  o.status = o.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
  if (!to)
    o.out = slurp(fo);
  o.err = slurp(fe);
  if (o.err.find("Sanitizer") != std::string::npos || o.err.find("runtime error:") != std::string::npos)
    throw Fail{"the tool: " + o.err.substr(0, 1500)};
  if (o.signalled && o.status != SIGABRT)
    throw Fail{strf("the tool was ended by signal %d: ", o.status) + o.err.substr(0, 300)};
  return o;
}

struct Input {
  std::string path;    // below the case directory
  std::string arg;     // as given to the tool
  std::string csv;     // expected output path, below the case directory
  std::string bytes;
  bool bad{false};
  size_t set{0};       // which dataset
};

// every regular file below dir with its content
std::map<std::string, std::string> listing(const fs::path &dir) {
  std::map<std::string, std::string> r;
  for (auto &e : fs::recursive_directory_iterator(dir)) {
    const auto rel = fs::relative(e.path(), dir).string();
    if (e.is_symlink())
      r[rel] = "-> " + fs::read_symlink(e.path()).string();
    else if (e.is_regular_file())
      r[rel] = "file " + slurp(e.path());
    else
      r[rel] = "other";
  }
  return r;
}

// same path with the extension replaced: the part from the last dot of the name, which does not count when it is the
// first character of the name
std::string csv_of(const std::string &path) {
  const auto slash = path.rfind('/');
  const size_t base = slash == std::string::npos ? 0 : slash + 1;
  const auto dot = path.rfind('.');
  if (dot == std::string::npos || dot <= base)
    return path + ".csv";
  return path.substr(0, dot) + ".csv";
}

// the library's log lines ("[2026-01-01 00:00:00.000] [warning] ...") share the standard output
size_t skip_log(const std::string &t, size_t at) {
  while (at < t.size() && t[at] == '[') {
    const auto e = t.find('\n', at);
    if (e == std::string::npos || t.compare(at, 3, "[20") != 0 || t.find("] [", at) > e)
      break;
    at = e + 1;
    while (at < t.size() && t[at] == '\n')
      ++at;
  }
  return at;
}

std::string print_text(const Dataset &d, const Properties &p, long nlines, const std::string &got, size_t at, size_t &end) {
  // cells near a rounding tie have two acceptable texts: follow the one that is there
  std::string want = print_header(p);
  at = skip_log(got, at);
  if (got.compare(at, want.size(), want) != 0) {
    size_t i = 0;
    while (at + i < got.size() && i < want.size() && got[at + i] == want[i])
      ++i;
    const size_t from = i > 40 ? i - 40 : 0;
    return strf("the properties differ at %zu: ", i) + eng::hex(got.substr(std::min(got.size(), at + from), 120), 120) + " instead of " + eng::hex(want.substr(from, 120), 120);
  }
  size_t pos = at + want.size();
  for (size_t i = 0; i < d.rows.size() && (nlines < 0 || static_cast<long>(i) < nlines); ++i) {
    std::string w = std::to_string(i);
    auto expect = [&](const std::string &t) {
      if (got.compare(pos, t.size(), t) != 0)
        return false;
      pos += t.size();
      return true;
    };
    if (!expect(w))
      return strf("row %zu does not start with its number: ", i) + eng::hex(got.substr(std::min(pos, got.size()), 40), 40);
    for (size_t c = 0; c < d.cols.size(); ++c) {
      bool found = false;
      for (auto &t : cell_texts(d.cols[c], d.rows[i][c])) {
        const std::string f = "," + t;
        const size_t q = pos + f.size();
        const char next = c + 1 < d.cols.size() ? ',' : '\n';
        if (got.compare(pos, f.size(), f) == 0 && q < got.size() && got[q] == next) {
          pos = q;
          found = true;
          break;
        }
      }
      if (!found)
        return strf("row %zu column %zu (%s): ", i, c, model::ty_name(d.cols[c].ty)) + eng::hex(got.substr(std::min(pos, got.size()), 60), 60) + " instead of " + eng::hex(cell_texts(d.cols[c], d.rows[i][c])[0], 60);
    }
    if (!expect("\n"))
      return strf("row %zu does not end", i);
  }
  end = pos;
  return "";
}

struct Scratch {
  fs::path root;
  Scratch() {
    root = fs::path(eng::scratch_dir()) / strf("cli.%d", static_cast<int>(getpid()));
    fs::remove_all(root);
    fs::create_directories(root / "work");
    fs::create_directories(root / "io");
  }
  ~Scratch() {
    std::error_code ec;
    fs::remove_all(root, ec);
  }
};

void c16_tool(Src &s, Ctx &ctx, const char *which) {
  const std::string tool = eng::param(which);
  if (tool.empty())
    throw HarnessError{"no tool given"};
  Scratch scr;
  const fs::path work = scr.root / "work";

  DsOpts o;
  o.max_cols = 6;
  o.max_rows = 12;
  o.max_str = 24;
  o.wide_names = true;
  std::vector<Dataset> sets;
  std::vector<File> files;
  std::vector<Properties> props;
  const size_t nsets = s.range(1, 3);
  for (size_t i = 0; i < nsets; ++i) {
    sets.push_back(model::gen_dataset(s, o));
    files.push_back(model::write_file(sets.back(), s));
    ctx.mix(files.back().bytes);
    Log log;
    read_all(files.back().bytes, log);
    if (!log.props)
      throw Fail{"no properties"};
    props.push_back(*log.props);
  }

  // inputs
  static const char *bases[] = {"a", "data", "x y", "a.b", "UPPER", ".hidden", "d/e/f", "d.x/g", "caf\xc3\xa9", "n-1", "...", "a\"q", "(p)", "d.x/.h", "1", "a,b", "%s{}"};
  static const char *exts[] = {".sas7bdat", ".SAS7BDAT", "", ".dat", ".", ".csv.sas7bdat", ".sas7bdat.bak", ".CSV"};
  std::vector<Input> in;
  std::set<std::string> taken; // inputs and outputs
  const size_t nin = s.range(1, 4);
  for (size_t i = 0; i < nin; ++i) {
    Input x;
    if (!in.empty() && s.chance(1, 8)) { // the same file once more
      x = s.pick(in);
    } else {
      x.path = std::string(s.pick(bases)) + s.pick(exts);
      if (x.path == "." || x.path == "..")
        x.path = "dot";
      x.csv = csv_of(x.path);
      while (taken.count(x.path) || taken.count(x.csv)) {
        x.path = "n" + std::to_string(taken.size()) + "_" + std::to_string(i) + ".sas7bdat";
        x.csv = csv_of(x.path);
      }
      taken.insert(x.path);
      taken.insert(x.csv);
      x.set = s.draw(nsets - 1);
      x.bytes = files[x.set].bytes;
    }
    switch (s.draw(2)) {
    case 0: x.arg = x.path; break;
    case 1: x.arg = "./" + x.path; break;
    default: x.arg = (work / x.path).string();
    }
    in.push_back(x);
  }
  const bool csv = s.flip();
  const bool null = !csv && s.chance(1, 4);
  std::string cmd = csv ? "csv" : null ? "null" : "print";

  // what may go wrong
  bool fails = false;
  const char *trouble = "";
  std::vector<std::function<void()>> prepare;
  if (s.chance(1, 4)) {
    const size_t k = s.draw(in.size() - 1);
    const std::string victim = in[k].path;
    auto damage = [&](const std::string &b) {
      for (auto &x : in)
        if (x.path == victim) {
          x.bad = true;
          x.bytes = b;
        }
      fails = true;
    };
    switch (s.draw(csv ? 8 : 3)) {
    case 0:
      trouble = "no-such-file";
      damage("");
      prepare.push_back([&work, victim] { fs::remove(work / victim); });
      break;
    case 1:
      trouble = "empty-file";
      damage("");
      break;
    case 2:
      trouble = "garbage";
      damage(s.bytes(s.range(1, 600)));
      break;
    case 3:
      trouble = "cut-header";
      damage(in[k].bytes.substr(0, s.draw(300)));
      break;
    case 4: { // the output is one of the inputs
      trouble = "output-is-input";
      Input x = in[k];
      x.path = x.csv;
      x.arg = s.flip() ? x.path : "./" + x.path;
      x.csv = csv_of(x.path);
      in.push_back(x);
      fails = true;
      break;
    }
    case 5:
      trouble = "output-links-to-input";
      if (s.flip())
        prepare.push_back([&work, victim, out = in[k].csv] { fs::create_hard_link(work / victim, work / out); });
      else
        prepare.push_back([&work, victim, out = in[k].csv] { fs::create_symlink(fs::absolute(work / victim), work / out); });
      fails = true;
      break;
    case 6:
      trouble = "output-is-directory";
      prepare.push_back([&work, out = in[k].csv] { fs::create_directories(work / out); });
      fails = true;
      break;
    case 7:
      trouble = "output-full";
      prepare.push_back([&work, out = in[k].csv] { fs::create_symlink("/dev/full", work / out); });
      fails = true;
      break;
    default: // not a failure: a longer output of an earlier run is there
      trouble = "old-output";
      prepare.push_back([&work, out = in[k].csv, n = s.draw(100000)] { spit(work / out, std::string(n, 'o')); });
    }
  }
  for (auto &x : in)
    spit(work / x.path, x.bytes);
  spit(work / "bystander.csv", "keep me\n");
  spit(work / "bystander", "keep me too\n");
  for (auto &f : prepare)
    f();

  const auto before = listing(work);
  std::vector<std::string> args{cmd};
  long nlines = -1;
  if (cmd == "print" && s.flip()) {
    nlines = static_cast<long>(s.draw(15)) - 1;
    static const long large[] = {65536, 65537, 2147483648, 4294967297};
    if (s.chance(1, 12))
      nlines = s.pick(large);
    const auto n = std::to_string(nlines);
    switch (nlines < 0 ? 0 : s.draw(3)) {
    case 0: args.push_back("--nlines=" + n); break;
    case 1: args.push_back("-n" + n); break;
    case 2: args.insert(args.end(), {"-n", n}); break;
    default: args.insert(args.end(), {"--nlines", n});
    }
  }
  for (auto &x : in)
    args.push_back(x.arg);
  const Outcome r = run_tool(tool, args, work, scr.root / "io");
  const auto after = listing(work);

  std::string line = "cppsas7bdat-ci";
  for (auto &a : args)
    line += " '" + a + "'";
  if (ctx.want_sample)
    ctx.sample = line + (fails ? std::string(" [") + trouble + "]" : "") + strf(" -> %s %d", r.signalled ? "signal" : "status", r.status) + " | " + model::describe(sets[0]);
  ctx.artifacts["command"] = line + "\n";
  for (size_t i = 0; i < in.size(); ++i)
    ctx.artifacts[strf("%zu.input", i)] = in[i].bytes;

  // nothing else is touched
  std::set<std::string> outputs;
  if (csv)
    for (auto &x : in)
      outputs.insert(x.csv);
  for (auto &[p, b] : before) {
    auto i = after.find(p);
    bool input = false;
    for (auto &x : in)
      input |= x.path == p;
    if (i == after.end())
      throw Fail{line + ": " + p + " was removed"};
    if (i->second != b && (input || !outputs.count(p)))
      throw Fail{line + ": " + p + (input ? ", an input, was modified" : " was modified")};
  }
  for (auto &[p, b] : after)
    if (!before.count(p) && !outputs.count(p))
      throw Fail{line + ": " + p + " was created"};

  // status
  if (r.ok() == fails)
    throw Fail{line + strf(": exit status %d%s although ", r.status, r.signalled ? " (signal)" : "") + (fails ? std::string("not every file could be processed: ") + trouble : "every file is sound: " + r.err.substr(0, 200))};
  // results
  if (!fails) {
    if (csv) {
      for (auto &x : in) {
        std::vector<size_t> all;
        for (size_t i = 0; i < sets[x.set].rows.size(); ++i)
          all.push_back(i);
        auto i = after.find(x.csv);
        if (i == after.end())
          throw Fail{line + ": there is no " + x.csv};
        const auto msg = check_csv(sets[x.set], i->second.substr(5), all);
        if (!msg.empty())
          throw Fail{line + ": " + x.csv + ": " + msg};
      }
    } else if (!null) {
      size_t at = 0;
      for (auto &x : in) {
        const auto msg = print_text(sets[x.set], props[x.set], nlines, r.out, at, at);
        if (!msg.empty())
          throw Fail{line + ": " + x.path + ": " + msg};
      }
      if (at != r.out.size())
        throw Fail{line + ": more text after the last row: " + eng::hex(r.out.substr(at, 60), 60)};
    }
    if ((csv || null) && !(skip_log(r.out, 0) == r.out.size() && r.err.empty()))
      throw Fail{line + " is not silent: " + (r.out + r.err).substr(0, 200)};
  }
  size_t rows = 0;
  for (auto &x : in)
    rows += sets[x.set].rows.size();
  ctx.nontrivial = fails || rows > 0;
  ctx.mix(line.substr(0, 20));
  ctx.label("command:" + cmd);
  ctx.label_if(*trouble, std::string("trouble:") + trouble);
  ctx.label_if(in.size() > 1, "several-files");
  ctx.label_if(nlines >= 0, "line-limit");

  // a lost output is a failure, too
  if (cmd == "print" && !fails && s.chance(1, 6)) {
    if (run_tool(tool, args, work, scr.root / "io", "/dev/full").ok())
      throw Fail{line + " >/dev/full: exit status 0 although nothing could be written"};
    ctx.label("output-lost");
  }
}

// options without files
void c16_usage(Src &s, Ctx &ctx) {
  const std::string tool = eng::param("cli");
  Scratch scr;
  const fs::path work = scr.root / "work";
  Dataset d = model::gen_dataset(s, {});
  File f = model::write_file(d, s);
  spit(work / "a.sas7bdat", f.bytes);
  const auto before = listing(work);
  static const std::vector<std::vector<std::string>> good{{"--version"}, {"-v"}, {"--help"}, {"-h"}};
  static const std::vector<std::vector<std::string>> bad{{}, {"print"}, {"csv"}, {"null"}, {"convert", "a.sas7bdat"}, {"a.sas7bdat"}, {"csv", "--nlines=3", "a.sas7bdat"}, {"null", "--nlines=1", "a.sas7bdat"},
                                                         {"print", "--nlines=many", "a.sas7bdat"}, {"--frob"}, {"csv", "--frob", "a.sas7bdat"}, {"print", "--nlines=", "a.sas7bdat"}};
  const bool ok = s.flip();
  const auto &args = s.pick(ok ? good : bad);
  const Outcome r = run_tool(tool, args, work, scr.root / "io");
  std::string line = "cppsas7bdat-ci";
  for (auto &a : args)
    line += " " + a;
  if (ctx.want_sample)
    ctx.sample = line + strf(" -> %d", r.status);
  if (listing(work) != before)
    throw Fail{line + " changed files"};
  if (r.ok() != ok)
    throw Fail{line + strf(": exit status %d", r.status)};
  if (ok && args[0].find('v') != std::string::npos && r.out.find(eng::param("version")) == std::string::npos)
    throw Fail{line + ": the version " + eng::param("version") + " is not in " + eng::hex(r.out)};
  ctx.mix(line);
  ctx.nontrivial = true;
}

void register_cli() {
  const char *rule = "1 to 4 files of random datasets and names (subdirectories, several or no extensions, the same file twice) given to a command, a quarter with trouble (unreadable or missing input, output that is an input, a link to one, a directory or full); "
                     "output, status and every file of the directory compared; non-trivial: at least one row or trouble";
  eng::add({"C16", "plain", "tool", rule, 4000, 200000, 60, [](Src &s, Ctx &c) { c16_tool(s, c, "cli"); }});
  eng::add({"C16", "plain", "tool-asan", "as tool, the program built with sanitizers", 1000, 50000, 60, [](Src &s, Ctx &c) { c16_tool(s, c, "cli-asan"); }});
  eng::add({"C16", "plain", "usage", "command lines without work to do: accepted exactly when the usage text allows them; non-trivial: all", 200, 2000, 60, c16_usage});
}
const bool registered = (register_cli(), true);
} // namespace
} // namespace props
