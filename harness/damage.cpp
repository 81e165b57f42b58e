#include "damage.hpp"
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <sstream>
#include <typeinfo>

namespace props {
UsePlan gen_plan(Src &s) {
  UsePlan p;
  p.sink = s.chance(1, 3) ? 1 + static_cast<unsigned>(s.draw(2)) : 0;
  p.filter = s.chance(1, 6) ? 1 + static_cast<unsigned>(s.draw(1)) : 0;
  const size_t n = 1 + s.draw(6);
  for (size_t i = 0; i < n; ++i) {
    Op o;
    o.kind = static_cast<unsigned>(s.draw(6));
    o.amount = s.draw(o.kind == 3 ? 200 : 40);
    p.ops.push_back(o);
  }
  return p;
}

namespace {
struct Half {
  mutable size_t n{0};
  unsigned kind;
  bool accept(const Column &) const { return kind == 2 ? false : (n++ & 1) == 0; }
};
constexpr size_t MAX_TEXT = 400000;
struct Watch { // looks at every cell in place and in an exact copy of the row
  Seen *seen;
  COLUMNS columns;
  size_t row_length{0};
  std::ostringstream *os{nullptr};
  void set_properties(const Properties &p) {
    columns = COLUMNS(p.columns);
    row_length = p.row_length;
  }
  static void cell(std::string &t, const Column &c, Column::PBUF p) {
    const auto o = observe(c, p);
    t += o.show();
    t += '|';
    t += eng::hex(c.to_string(p), 200);
    t += ' ';
  }
  void push_row(size_t i, Column::PBUF p) { row(i, p, "R"); }
  void row(size_t i, Column::PBUF p, const char *what) {
    ++seen->rows;
    if (seen->text.size() > MAX_TEXT)
      return;
    seen->text += what + std::to_string(i) + ": ";
    if (row_length > (1u << 24)) {
      seen->text += "long row\n";
      return;
    }
    // exactly row_length bytes: AddressSanitizer sees an access outside
    std::unique_ptr<char[]> exact(new char[row_length]);
    if (row_length)
      memcpy(exact.get(), p, row_length);
    std::string in_place, copy;
    for (auto &c : columns)
      cell(in_place, c, p);
    for (auto &c : columns)
      cell(copy, c, exact.get());
    if (in_place != copy)
      throw Fail{"row " + std::to_string(i) + ": a cell depends on bytes outside its row: " + in_place.substr(0, 500) + " / " + copy.substr(0, 500)};
    seen->text += in_place + "\n";
  }
  void end_of_data() { seen->text += "end\n"; }
};
template <typename S> struct Tee { // a sink of the library, with the rows counted
  S sink;
  Seen *seen;
  void set_properties(const Properties &p) { sink.set_properties(p); }
  void push_row(size_t i, Column::PBUF p) {
    ++seen->rows;
    sink.push_row(i, p);
  }
  void end_of_data() {
    seen->text += "end\n";
    sink.end_of_data();
  }
};
template <typename F> bool guarded(Seen &seen, const char *what, F &&f) {
  try {
    f();
    return true;
  } catch (const Fail &) {
    throw;
  } catch (const std::exception &e) {
    ++seen.errors;
    seen.text += std::string(what) + " throws " + typeid(e).name() + ": " + e.what() + "\n";
  } catch (...) {
    throw Fail{std::string(what) + " throws something that is not a std::exception"};
  }
  return false;
}
} // namespace

namespace {
template <typename S> struct Wrapped final : AnySink {
  S sink;
  template <typename... A> explicit Wrapped(A &&...a) : sink(std::forward<A>(a)...) {}
  void set_properties(const Properties &p) override { sink.set_properties(p); }
  void push_row(size_t i, Column::PBUF p) override { sink.push_row(i, p); }
  void end_of_data() override { sink.end_of_data(); }
};
} // namespace
std::unique_ptr<AnySink> library_sink(unsigned kind, std::ostream &os) {
  if (kind == 0)
    return std::make_unique<Wrapped<cppsas7bdat::datasink::detail::csv>>(cppsas7bdat::datasink::csv(os));
  if (kind == 1)
    return std::make_unique<Wrapped<cppsas7bdat::datasink::print>>(os);
  return std::make_unique<Wrapped<cppsas7bdat::datasink::null>>();
}

Seen use_file(const std::string &bytes, const UsePlan &plan) {
  Seen seen;
  std::ostringstream os;
  Watch w{&seen, {}, 0};
  Tee<cppsas7bdat::datasink::detail::csv> tc{cppsas7bdat::datasink::csv(os), &seen};
  Tee<cppsas7bdat::datasink::print> tp{cppsas7bdat::datasink::print(os), &seen};
  Tee<cppsas7bdat::datasink::null> tn{{}, &seen};
  Half half{0, plan.filter};
  MemSource src(bytes);
  std::optional<Reader> r;
  const bool ok = guarded(seen, "open", [&]() {
    switch (plan.sink) {
    case 1:
      if (plan.filter)
        r.emplace(src, tc, half);
      else
        r.emplace(src, tc);
      break;
    case 2:
      if (plan.filter)
        r.emplace(src, tp, half);
      else
        r.emplace(src, tp);
      break;
    case 3:
      r.emplace(src, tn);
      break;
    default:
      if (plan.filter)
        r.emplace(src, w, half);
      else
        r.emplace(src, w);
      break;
    }
    if (plan.sink)
      w.set_properties(r->properties());
    seen.text += show_props(r->properties());
  });
  seen.opened = ok;
  seen.rejected = !ok;
  if (ok) {
    const auto &p = r->properties();
    // columns lie inside the row
    for (auto &c : p.columns)
      if (c.length() > p.row_length)
        throw Fail{"column " + eng::hex(c.name) + " is longer than a row"};
    for (auto &o : plan.ops)
      switch (o.kind) {
      case 0:
        guarded(seen, "read_row", [&]() { seen.text += strf("read_row %d\n", r->read_row()); });
        break;
      case 1:
        guarded(seen, "read_rows", [&]() { seen.text += strf("read_rows %d\n", r->read_rows(o.amount)); });
        break;
      case 2:
        guarded(seen, "read_row_no_sink", [&]() {
          const size_t i = r->current_row_index();
          auto q = r->read_row_no_sink();
          if (q)
            w.row(i, q, "Q");
          else
            seen.text += "no row\n";
        });
        break;
      case 3:
        guarded(seen, "skip", [&]() { seen.text += strf("skip %d\n", r->skip(o.amount)); });
        break;
      case 4:
        guarded(seen, "end_of_data", [&]() { r->end_of_data(); });
        break;
      case 5: {
        auto t = std::move(*r);
        *r = std::move(t);
        break;
      }
      default:
        guarded(seen, "read_rows", [&]() { r->read_rows(60); });
        seen.text += strf("at %zu\n", r->current_row_index());
      }
  }
  r.reset();
  seen.text += os.str().substr(0, MAX_TEXT);
  return seen;
}
} // namespace props
