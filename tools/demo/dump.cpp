// Reads a .sas7bdat file through the public interface and writes everything a caller sees.
// dump FILE [inc=A,B] [exc=A,B] [tool=csv|print|csvfile] op...
// ops: props schema all row rows=N skip=N pull end pos move cells(default: typed values of pushed rows)
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>
using namespace cppsas7bdat;
static void text(const SV &s) {
  putchar('"');
  for (unsigned char c : s)
    if (c < 32 || c > 126 || c == '"' || c == '\\') printf("\\%02x", c); else putchar(c);
  putchar('"');
}
template <typename T> static void textof(const char *n, const T &s) { printf("%s=", n); text(SV(s)); putchar('\n'); }
template <typename T> static std::string os(const T &x) { std::ostringstream o; o << x; return o.str(); }
static void cell(const Column &c, Column::PBUF p) {
  printf(" [");
  text(c.get_string(p));
  const double n = c.get_number(p);
  unsigned long long b; memcpy(&b, &n, 8);
  if (n != n) printf(" nan"); else printf(" %016llx", b);
  printf(" %d %s %s %s]", (int)c.get_integer(p), os(c.get_datetime(p)).c_str(), os(c.get_date(p)).c_str(), os(c.get_time(p)).c_str());
}
struct Sink {
  COLUMNS cols;
  void set_properties(const Properties &p) { cols = COLUMNS(p.columns); printf("set_properties columns=%zu\n", cols.size()); }
  void push_row(size_t i, Column::PBUF p) { printf("row %zu:", i); for (auto &c : cols) cell(c, p); putchar('\n'); }
  void end_of_data() { puts("end_of_data"); }
};
static std::set<std::string> names(const char *s) {
  std::set<std::string> r; std::istringstream i(s); std::string n;
  while (std::getline(i, n, ',')) r.insert(n);
  return r;
}
static void props(const Properties &p) {
  textof("format", os(p.format)); textof("endianness", os(p.endianness)); textof("platform", os(p.platform));
  textof("created", os(p.date_created)); textof("modified", os(p.date_modified));
  textof("dataset", p.dataset_name); textof("encoding", p.encoding); textof("file_type", p.file_type);
  textof("release", p.sas_release); textof("server", p.sas_server_type); textof("os_type", p.os_type); textof("os_name", p.os_name);
  printf("header_length=%zu page_length=%zu page_count=%zu\n", (size_t)p.header_length, (size_t)p.page_length, (size_t)p.page_count);
  textof("compression", os(p.compression)); textof("creator", p.creator); textof("creator_proc", p.creator_proc);
  printf("rows=%zu row_length=%zu cols=%zu p1=%zu p2=%zu mix=%zu lcs=%zu lcp=%zu\n", (size_t)p.row_count, (size_t)p.row_length, (size_t)p.column_count, (size_t)p.col_count_p1, (size_t)p.col_count_p2, (size_t)p.mix_page_row_count, (size_t)p.lcs, (size_t)p.lcp);
}
static void schema(const Properties &p) {
  for (auto &c : p.columns) { printf("column "); text(c.name); putchar(' '); text(c.label); putchar(' '); text(c.format); printf(" %s %zu\n", os(c.type).c_str(), c.length()); }
  const Columns g(p.columns);
  printf("groups %zu %zu %zu %zu %zu %zu\n", g.strings.size(), g.numbers.size(), g.integers.size(), g.datetimes.size(), g.dates.size(), g.times.size());
}
int main(int n, char **v) {
  int i = 2;
  ColumnFilter::IncludeExclude f;
  bool filter = false;
  std::string tool;
  for (; i < n; ++i) {
    if (!strncmp(v[i], "inc=", 4)) f.included = names(v[i] + 4), filter = true;
    else if (!strncmp(v[i], "exc=", 4)) f.excluded = names(v[i] + 4), filter = true;
    else if (!strncmp(v[i], "tool=", 5)) tool = v[i] + 5;
    else break;
  }
  try {
    Reader r;
    if (tool == "csv") r = Reader{datasource::ifstream(v[1]), datasink::csv(std::cout)};
    else if (tool == "print") r = Reader{datasource::ifstream(v[1]), datasink::print(std::cout)};
    else if (filter) r = Reader{datasource::ifstream(v[1]), Sink{}, f};
    else r = Reader{datasource::ifstream(v[1]), Sink{}};
    for (; i < n; ++i) {
      const std::string op(v[i]);
      const size_t eq = op.find('='), k = eq == op.npos ? 0 : std::stoul(op.substr(eq + 1));
      if (op == "props") props(r.properties());
      else if (op == "schema") schema(r.properties());
      else if (op == "all") r.read_all();
      else if (op == "row") printf("-> %d\n", r.read_row());
      else if (op.rfind("rows", 0) == 0) printf("-> %d\n", r.read_rows(k));
      else if (op.rfind("skip", 0) == 0) printf("-> %d\n", r.skip(k));
      else if (op == "end") r.end_of_data();
      else if (op == "pos") printf("pos %zu\n", r.current_row_index());
      else if (op == "move") { Reader q(std::move(r)); r = std::move(q); }
      else if (op == "pull") {
        auto p = r.read_row_no_sink();
        printf("pull:");
        if (p) for (auto &c : r.properties().columns) cell(c, p); else printf(" none");
        putchar('\n');
      }
    }
  } catch (const std::exception &e) {
    printf("exception %s\n", e.what());
  }
  fflush(stdout);
  std::cout.flush();
}
