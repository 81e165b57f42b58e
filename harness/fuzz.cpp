// libFuzzer target: the first bytes choose the calls, the rest is the file
#include "damage.hpp"
#include <spdlog/spdlog.h>

extern "C" size_t LLVMFuzzerMutate(uint8_t *data, size_t size, size_t max_size);

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  spdlog::set_level(spdlog::level::off);
  setenv("TZ", "VRF3:30VRS,M3.2.0,M11.1.0", 1); // not UTC, with a summer time: no value depends on it
  memctl::limit = size_t(64) << 20;
  return 0;
}
constexpr size_t HEAD = 8;
static uint64_t head_seed(const uint8_t *d) {
  uint64_t v = 0;
  memcpy(&v, d, HEAD);
  return v;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (size < HEAD)
    return 0;
  eng::Src s(head_seed(data), nullptr);
  const auto plan = props::gen_plan(s);
  const std::string bytes(reinterpret_cast<const char *>(data) + HEAD, size - HEAD);
  try {
    props::use_file(bytes, plan);
  } catch (const eng::Fail &f) {
    fprintf(stderr, "FAIL: %s\n", f.msg.c_str());
    abort();
  }
  return 0;
}
// half of the mutations are structured; a quarter of the inputs starts from a newly written file
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max_size, unsigned seed) {
  eng::Src s(seed, nullptr);
  if (size < HEAD || s.chance(1, 16)) {
    props::DsOpts o;
    o.max_cols = 5;
    o.max_rows = 12;
    o.max_str = 12;
    const auto d = model::gen_dataset(s, o);
    const auto f = model::write_file(d, s);
    if (f.bytes.size() + HEAD <= max_size) {
      const uint64_t h = s.bits64();
      memcpy(data, &h, HEAD);
      memcpy(data + HEAD, f.bytes.data(), f.bytes.size());
      return f.bytes.size() + HEAD;
    }
  }
  if (size < HEAD || s.chance(1, 3))
    return LLVMFuzzerMutate(data, size, max_size);
  std::string b(reinterpret_cast<const char *>(data) + HEAD, size - HEAD);
  model::mutate(s, b);
  if (b.size() + HEAD > max_size)
    b.resize(max_size - HEAD);
  if (s.chance(1, 4)) {
    const uint64_t h = s.bits64();
    memcpy(data, &h, HEAD);
  }
  memcpy(data + HEAD, b.data(), b.size());
  return b.size() + HEAD;
}
