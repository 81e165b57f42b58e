// Structured damage of .sas7bdat files
#pragma once
#include "model.hpp"

namespace model {
// what a mutator needs to know about a file; guessed from the bytes, so that it works on any file
struct Shape {
  bool ok{false}, big{false}, w64{false}, a1{false};
  size_t header_length{0}, page_length{0}, pages{0};
  size_t isz() const { return w64 ? 8 : 4; }
};
Shape shape_of(const std::string &b);
uint64_t get_int(const Shape &sh, const std::string &b, size_t at, size_t n);
void put_int(const Shape &sh, std::string &b, size_t at, size_t n, uint64_t v);
// applies 1 to a few mutations; describes them
std::vector<std::string> mutate(Src &s, std::string &b, const std::string *other = nullptr);
} // namespace model
