#pragma once
#include "obs.hpp"

namespace props {
using eng::Ctx;
using eng::Fail;
using eng::HarnessError;
using eng::Src;
using eng::strf;
using model::Dataset;
using model::DsOpts;
using model::File;
using model::WriteOpts;
using namespace obs;

// writes the file and records the case
inline File make(Src &s, Ctx &ctx, const Dataset &d, const WriteOpts &o = {}) {
  File f = model::write_file(d, s, o);
  ctx.artifacts["sas7bdat"] = f.bytes;
  ctx.mix(f.bytes);
  if (ctx.want_sample) {
    std::string pg;
    for (size_t i = 0; i < f.pages.size() && i < 12; ++i)
      pg += strf("%s%s(%zu)", i ? " " : "", f.pages[i].kind.c_str(), f.pages[i].rows);
    ctx.sample = model::describe(d) + strf(" | file: %zu bytes, header %zu, page length %zu, pages: ", f.bytes.size(), f.header_length, f.page_length) + pg;
  }
  return f;
}
inline std::string layout_label(const Dataset &d) { return std::string(d.big ? "BE" : "LE") + (d.w64 ? "64" : "32") + (d.a1 ? "+a1" : ""); }
inline const char *comp_label(const Dataset &d) { return d.comp == model::Comp::None ? "comp:none" : d.comp == model::Comp::RLE ? "comp:RLE" : "comp:RDC"; }
} // namespace props
