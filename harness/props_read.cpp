// C01, C02: cell values, rows and layouts
#include "common.hpp"
#include <set>

namespace props {

static void c01_cells(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_rows = 12;
  Dataset d = model::gen_dataset(s, o);
  File f = make(s, ctx, d);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  ctx.nontrivial = !d.rows.empty();
  ctx.label("layout:" + layout_label(d));
  ctx.label(comp_label(d));
  if (!d.rows.empty())
    for (auto &c : d.cols)
      ctx.label(strf("cell:%s/%zu", model::ty_name(c.ty), c.ty == model::Ty::Str ? std::min<size_t>(c.width, 9) : c.width));
}

// every stored width, type, byte order and word size with dense values; one column next to others
static void c01_dense(Src &s, Ctx &ctx) {
  Dataset d;
  d.big = s.flip();
  d.w64 = s.flip();
  d.a1 = s.flip();
  model::Col c;
  c.name = "X";
  c.ty = static_cast<model::Ty>(s.draw(3));
  c.width = c.ty == model::Ty::Str ? 1 + s.draw(12) : c.ty == model::Ty::Num ? 3 + s.draw(5) : c.ty == model::Ty::Int1 ? 1 : 2;
  const size_t ncol = 1 + s.draw(3);
  for (size_t i = 0; i < ncol; ++i) {
    c.name = strf("X%zu", i);
    d.cols.push_back(c);
  }
  model::layout_columns(s, d);
  const size_t n = c.ty == model::Ty::Int1 ? 256 / ncol + 1 : 64;
  DsOpts o;
  for (size_t k = 0; k < n; ++k) {
    model::Row r;
    for (size_t i = 0; i < ncol; ++i) {
      auto cell = model::gen_cell(s, c, o);
      if (c.ty == model::Ty::Int1)
        cell.i = static_cast<int32_t>((k * ncol + i) & 255);
      r.push_back(cell);
    }
    d.raw_rows.push_back(model::encode_row(d, r, std::string(d.row_length, static_cast<char>(s.draw(255)))));
    d.rows.push_back(std::move(r));
  }
  WriteOpts w;
  w.canonical = s.flip();
  File f = make(s, ctx, d, w);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  ctx.nontrivial = true;
  ctx.label(strf("%s/%zu", model::ty_name(c.ty), c.width));
  ctx.label(layout_label(d));
}

// the same dataset in several physical layouts: same rows, each once
static void c02_layout(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 8;
  o.max_rows = 70;
  o.max_str = 20;
  Dataset d = model::gen_dataset(s, o);
  ctx.nontrivial = d.rows.size() > 1;
  WriteOpts w;
  w.small_pages = s.flip();
  File f = make(s, ctx, d, w);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  if (log.n_end != 1)
    throw Fail{"the end was notified " + std::to_string(log.n_end) + " times"};
  std::set<std::string> seen(f.labels.begin(), f.labels.end());
  for (auto &l : seen)
    ctx.label(l);
  ctx.label(layout_label(d));
  ctx.label(comp_label(d));
  size_t data_pages = 0;
  for (auto &p : f.pages)
    data_pages += p.rows > 0;
  ctx.label_if(data_pages > 1, "rows-on-several-pages");
  ctx.label_if(data_pages == 0, "no-rows");
}

// metamorphic: two layouts of one dataset are observed identically
static void c02_meta(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 6;
  o.max_rows = 25;
  o.max_str = 12;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  File a = make(s, ctx, d, w);
  w.small_pages = true;
  File b = model::write_file(d, s, w);
  ctx.artifacts["b.sas7bdat"] = b.bytes;
  Log la, lb;
  read_all(a.bytes, la);
  read_all(b.bytes, lb);
  if (!(la.rows == lb.rows))
    throw Fail{"two layouts of the same dataset give different rows: " + show_rows(la.rows) + " / " + show_rows(lb.rows)};
  require(check_rows(d, la.rows));
  ctx.nontrivial = d.rows.size() > 1 && a.pages.size() != b.pages.size();
  ctx.label(strf("pages:%zu", std::min<size_t>(a.pages.size(), 9)));
}

// few columns and rows, texts up to the longest a data set can hold
static void c01_long(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 3;
  o.max_rows = 4;
  o.max_str = 32767;
  o.long_text = true;
  Dataset d = model::gen_dataset(s, o);
  File f = make(s, ctx, d);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  size_t longest = 0;
  for (auto &c : d.cols)
    if (c.ty == model::Ty::Str)
      longest = std::max(longest, c.width);
  ctx.nontrivial = !d.rows.empty() && longest > 255;
  ctx.label(longest > 32000 ? "text:>32000" : longest > 4096 ? "text:>4096" : longest > 255 ? "text:>255" : "text:short");
  ctx.label(comp_label(d));
}

static void c02_sized(Src &s, Ctx &ctx, size_t rows) {
  DsOpts o;
  o.max_cols = 4;
  o.max_rows = rows;
  o.max_str = 16;
  Dataset d = model::gen_dataset(s, o);
  WriteOpts w;
  w.small_pages = s.flip();
  File f = make(s, ctx, d, w);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  if (log.n_end != 1)
    throw Fail{"the end was notified " + std::to_string(log.n_end) + " times"};
  ctx.nontrivial = d.rows.size() > 100;
  ctx.label(strf("pages:%zu", f.pages.size() > 300 ? 300 : f.pages.size() > 100 ? 100 : f.pages.size() > 30 ? 30 : f.pages.size() > 10 ? 10 : f.pages.size()));
  ctx.label(comp_label(d));
}

// sizes beyond the 8, 15 and 16 bits of a careless counter: rows, rows of a page, pages, rows longer than 64 kB
static void c02_scale(Src &s, Ctx &ctx) {
  DsOpts o;
  const bool tall = s.chance(1, 2);
  o.max_cols = tall ? 3 : 6;
  o.max_rows = 40;
  o.max_str = tall ? 6 : 40;
  Dataset d = model::gen_dataset(s, o);
  const size_t n = s.chance(1, 6) ? 65530 + s.draw(3000) : s.chance(1, 2) ? 250 + s.draw(300) : 1 + s.skewed(20000);
  const size_t count = std::min(n, std::max<size_t>(1, 3000000 / d.row_length / (d.cols.size() + 1)));
  auto streams = model::multiply_rows(s, d, count);
  WriteOpts w;
  w.scale = true;
  w.early_stop = s.flip();
  if (d.comp != model::Comp::None)
    w.streams = &streams;
  File f = make(s, ctx, d, w);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  if (log.n_end != 1)
    throw Fail{"the end was notified " + std::to_string(log.n_end) + " times"};
  size_t most = 0;
  for (auto &p : f.pages)
    most = std::max(most, p.rows);
  ctx.nontrivial = most > 255 || d.rows.size() > 1000;
  ctx.label(strf("rows:%s", d.rows.size() > 65535 ? ">65535" : d.rows.size() > 32767 ? ">32767" : d.rows.size() > 255 ? ">255" : "<=255"));
  ctx.label(strf("rows-of-a-page:%s", most > 32767 ? ">32767" : most > 255 ? ">255" : "<=255"));
  ctx.label_if(f.mix_page_row_count > 255, "mix-page-rows:>255");
  ctx.label(comp_label(d));
  std::set<std::string> seen(f.labels.begin(), f.labels.end());
  for (auto &l : seen)
    ctx.label(l);
}

// rows longer than 64 kB, with columns far from their start
static void c01_wide(Src &s, Ctx &ctx) {
  DsOpts o;
  o.max_cols = 6;
  o.max_rows = 3;
  Dataset d = model::gen_dataset(s, o);
  const size_t n_long = 1 + s.draw(4);
  for (size_t i = 0; i < n_long; ++i) {
    model::Col c;
    c.name = strf("L%zu", i);
    c.ty = model::Ty::Str;
    c.width = s.chance(1, 4) ? 32767 : 1000 + s.draw(31000);
    d.cols.insert(d.cols.begin() + static_cast<long>(s.draw(d.cols.size())), c);
  }
  model::layout_columns(s, d);
  d.rows.clear();
  d.raw_rows.clear();
  const size_t nr = 1 + s.draw(2);
  for (size_t k = 0; k < nr; ++k) {
    model::Row r;
    for (auto &c : d.cols)
      r.push_back(model::gen_cell(s, c, o));
    d.raw_rows.push_back(model::encode_row(d, r, std::string(d.row_length, static_cast<char>(s.draw(255)))));
    if (model::looks_like_signature(d.raw_rows.back(), d.isz()))
      d.comp = model::Comp::None; // as in gen_dataset
    d.rows.push_back(std::move(r));
  }
  WriteOpts w;
  w.scale = true;
  File f = make(s, ctx, d, w);
  Log log;
  read_all(f.bytes, log);
  require(check_rows(d, log.rows));
  size_t far = 0;
  for (auto &c : d.cols)
    far = std::max(far, c.offset);
  ctx.nontrivial = !d.rows.empty() && d.row_length > 32767;
  ctx.label(far > 65535 ? "column-offset:>65535" : far > 32767 ? "column-offset:>32767" : "column-offset:near");
  ctx.label(comp_label(d));
}

static void register_read() {
  eng::add({"C01", "plain", "cells", "random schema, rows and physical layout written by an independent writer, read back through every getter of every column; non-trivial: at least one row", 250000, 14000000, 20, c01_cells});
  eng::add({"C01", "plain", "dense", "one column type and width per case with 64 or more values (all 256 one-byte integers), two byte orders, word sizes and alignments; non-trivial: always", 30000, 2000000, 20, c01_dense});
  eng::add({"C01", "plain", "long", "texts up to 32767 bytes; non-trivial: at least one row and a text of more than 255 bytes", 12000, 500000, 30, c01_long});
  eng::add({"C01", "plain", "wide", "rows of up to 200 kB, so that columns start beyond 64 kB, in pages and headers of up to 256 kB; non-trivial: at least one row, longer than 32767 bytes", 700, 150000, 30, c01_wide});
  eng::add({"C01", "asan", "cells-asan", "as cells, under AddressSanitizer and UndefinedBehaviorSanitizer", 12000, 600000, 60, c01_cells});
  eng::add({"C02", "plain", "layout", "random dataset in a random physical layout; rows must come out exactly once in order; non-trivial: more than one row", 200000, 10000000, 20, c02_layout});
  eng::add({"C02", "plain", "relayout", "one dataset in two random layouts, observed identically; non-trivial: more than one row and different page counts", 80000, 4000000, 20, c02_meta});
  eng::add({"C02", "plain", "sized", "up to 1500 rows over up to several hundred pages; non-trivial: more than 100 rows", 6000, 400000, 30, [](Src &s, Ctx &c) { c02_sized(s, c, 1500); }});
  eng::add({"C02", "plain", "scale", "up to 68000 rows, more than 255 or 32767 of them on one page, pages and headers of up to 256 kB, hundreds of text blocks; non-trivial: more than 255 rows on a page or more than 1000 rows", 1500, 60000, 60, c02_scale});
  eng::add({"C02", "asan", "layout-asan", "as layout, under the sanitizers", 8000, 400000, 60, c02_layout});
}
static const bool registered = (register_read(), true);
} // namespace props
