#include "mutate.hpp"
#include <algorithm>

namespace model {
uint64_t get_int(const Shape &sh, const std::string &b, size_t at, size_t n) {
  uint64_t v = 0;
  for (size_t i = 0; i < n && at + i < b.size(); ++i) {
    const uint64_t x = static_cast<unsigned char>(b[at + i]);
    v |= x << (8 * (sh.big ? n - 1 - i : i));
  }
  return v;
}
void put_int(const Shape &sh, std::string &b, size_t at, size_t n, uint64_t v) {
  for (size_t i = 0; i < n && at + i < b.size(); ++i)
    b[at + i] = static_cast<char>(v >> (8 * (sh.big ? n - 1 - i : i)));
}
Shape shape_of(const std::string &b) {
  Shape s;
  if (b.size() < 288)
    return s;
  s.w64 = b[32] == '3';
  s.a1 = b[35] == '3';
  s.big = b[37] != 1;
  const size_t a = s.a1 ? 4 : 0;
  s.header_length = get_int(s, b, 196 + a, 4);
  s.page_length = get_int(s, b, 200 + a, 4);
  if (!s.page_length || s.header_length > b.size())
    return s;
  s.pages = (b.size() - s.header_length) / s.page_length;
  s.ok = s.pages > 0 && s.page_length >= 64;
  return s;
}

namespace {
uint64_t nasty(Src &s, const Shape &sh, size_t n, uint64_t was) {
  const uint64_t mask = n >= 8 ? ~uint64_t(0) : (uint64_t(1) << (8 * n)) - 1;
  uint64_t v;
  switch (s.draw(13)) {
  case 0: v = s.draw(8); break;
  case 1: v = was + 1; break;
  case 2: v = was - 1; break;
  case 3: v = was * 2; break;
  case 4: v = sh.page_length - s.draw(40); break;
  case 5: v = sh.page_length + s.draw(8); break;
  case 6: v = mask - s.draw(40); break;
  case 7: v = (mask >> 1) + s.draw(2); break;
  case 8: v = ~was + 1; break;
  case 9: v = mask - sh.page_length + s.draw(64); break;
  case 10: v = was + s.draw(64) - 32; break;
  case 11: v = s.draw(sh.page_length); break;
  case 12: v = uint64_t(1) << s.draw(8 * n - 1); break;
  default: v = s.bits64(); break;
  }
  return v & mask;
}
} // namespace

std::vector<std::string> mutate(Src &s, std::string &b, const std::string *other) {
  std::vector<std::string> log;
  const size_t n = 1 + s.skewed(5);
  for (size_t k = 0; k < n && !b.empty(); ++k) {
    const Shape sh = shape_of(b);
    unsigned op = static_cast<unsigned>(s.draw(17));
    if (!sh.ok && op >= 6)
      op = static_cast<unsigned>(s.draw(5));
    const size_t pbo = sh.w64 ? 32 : 16;
    auto field = [&](const char *what, size_t at, size_t w) {
      const uint64_t was = get_int(sh, b, at, w), v = nasty(s, sh, w, was);
      put_int(sh, b, at, w, v);
      log.push_back(eng::strf("%s at %zu: %llu -> %llu", what, at, static_cast<unsigned long long>(was), static_cast<unsigned long long>(v)));
    };
    auto page = [&]() { // metadata pages, which come first, more often
      return sh.header_length + sh.page_length * s.skewed(sh.pages - 1);
    };
    // a subheader of a page: position of its pointer, and the extent it declares
    struct Sub {
      size_t ptr{0}, at{0}, len{0};
    };
    auto sub = [&]() {
      Sub r;
      const size_t p = page();
      const size_t cnt = std::min<size_t>(get_int(sh, b, p + pbo + 4, 2), (sh.page_length - pbo - 8) / (3 * sh.isz()));
      if (!cnt)
        return r;
      r.ptr = p + pbo + 8 + 3 * sh.isz() * s.draw(cnt - 1);
      const size_t off = get_int(sh, b, r.ptr, sh.isz()), len = get_int(sh, b, r.ptr + sh.isz(), sh.isz());
      if (off < sh.page_length && len <= sh.page_length - off) {
        r.at = p + off;
        r.len = len;
      }
      return r;
    };
    switch (op) {
    case 0: { // one byte
      const size_t i = s.draw(b.size() - 1);
      b[i] = static_cast<char>(s.draw(255));
      log.push_back(eng::strf("byte %zu", i));
      break;
    }
    case 1: { // one bit
      const size_t i = s.draw(b.size() - 1);
      b[i] = static_cast<char>(b[i] ^ (1 << s.draw(7)));
      log.push_back(eng::strf("bit of %zu", i));
      break;
    }
    case 2: { // cut
      const size_t i = s.draw(b.size());
      b.resize(i);
      log.push_back(eng::strf("cut at %zu", i));
      break;
    }
    case 3: { // a range filled
      const size_t i = s.draw(b.size() - 1), m = 1 + s.skewed(64);
      const char c = s.flip() ? 0 : static_cast<char>(0xff);
      for (size_t j = i; j < b.size() && j < i + m; ++j)
        b[j] = c;
      log.push_back(eng::strf("fill %zu+%zu", i, m));
      break;
    }
    case 4: { // a range copied from elsewhere (or from another file)
      const std::string &o = other && s.flip() ? *other : b;
      if (o.empty())
        break;
      const size_t m = 1 + s.skewed(sh.ok && s.flip() ? sh.page_length : 64);
      const size_t i = s.draw(b.size() - 1), j = s.draw(o.size() - 1);
      const std::string piece = o.substr(j, m);
      for (size_t q = 0; q < piece.size() && i + q < b.size(); ++q)
        b[i + q] = piece[q];
      log.push_back(eng::strf("copy %zu+%zu to %zu", j, m, i));
      break;
    }
    case 5: { // header field
      static const size_t at[] = {32, 35, 37, 39, 70, 164, 172, 196, 200, 204, 208};
      const size_t i = s.pick(at);
      const size_t a = (i >= 164 && sh.a1) ? 4 : 0;
      if (i < 164) {
        if (i < b.size())
          b[i] = static_cast<char>(s.flip() ? (s.flip() ? '3' : '2') : s.draw(255));
        log.push_back(eng::strf("header byte %zu", i));
      } else {
        field("header field", i + a, i < 196 ? 8 : 4);
      }
      break;
    }
    case 6: // page type
      {
        static const unsigned ty[] = {0, 256, 512, 640, 1024, 16384, 28672, 65535, 1, 128};
        const size_t p = page();
        put_int(sh, b, p + pbo, 2, s.pick(ty));
        log.push_back(eng::strf("page type at %zu", p));
      }
      break;
    case 7: field("block count", page() + pbo + 2, 2); break;
    case 8: field("subheader count", page() + pbo + 4, 2); break;
    case 9: { // a pointer
      const Sub u = sub();
      if (u.ptr) {
        const size_t w = s.draw(3);
        if (w <= 1)
          field(w ? "subheader length" : "subheader offset", u.ptr + w * sh.isz(), sh.isz());
        else {
          b[u.ptr + 2 * sh.isz() + (w - 2)] = static_cast<char>(s.draw(8));
          log.push_back(eng::strf("subheader kind at %zu", u.ptr));
        }
      }
      break;
    }
    case 10: // integers of a subheader
    case 11:
    case 12: {
      const Sub u = sub();
      if (u.at && u.len >= sh.isz()) {
        const size_t i = s.draw(u.len / sh.isz() - 1);
        field("subheader integer", u.at + i * sh.isz(), sh.isz());
      }
      break;
    }
    case 13:
    case 14: { // short integers of a subheader
      const Sub u = sub();
      if (u.at && u.len >= 2) {
        const size_t i = s.draw(u.len / 2 - 1);
        field("subheader short", u.at + i * 2, 2);
      }
      break;
    }
    case 16:
    case 17: { // a subheader moved to the very end of its page, or to somewhere else on it, whole or in part
      const Sub u = sub();
      if (!u.at)
        break;
      const size_t p = u.ptr - (u.ptr - sh.header_length) % sh.page_length;
      const std::string piece = b.substr(u.at, u.len);
      size_t len = s.draw(2) ? s.draw(std::min<size_t>(u.len, 80)) : u.len;
      size_t off = sh.page_length - std::min(len, sh.page_length);
      if (op == 17 && s.flip())
        off = s.draw(sh.page_length - std::min(len, sh.page_length));
      len = std::min(len, sh.page_length - off);
      for (size_t i = 0; i < len && i < piece.size() && p + off + i < b.size(); ++i)
        b[p + off + i] = piece[i];
      put_int(sh, b, u.ptr, sh.isz(), off);
      put_int(sh, b, u.ptr + sh.isz(), sh.isz(), len);
      log.push_back(eng::strf("subheader at %zu moved to %zu+%zu", u.at, p + off, len));
      break;
    }
    case 15: { // a page repeated, swapped or removed
      const size_t p = page(), q = page();
      if (q + sh.page_length > b.size() || p + sh.page_length > b.size())
        break;
      const std::string P = b.substr(p, sh.page_length), Q = b.substr(q, sh.page_length);
      switch (s.draw(2)) {
      case 0: b.insert(q, P); break;
      case 1:
        b.replace(p, sh.page_length, Q);
        b.replace(q, sh.page_length, P);
        break;
      default: b.erase(p, sh.page_length);
      }
      log.push_back(eng::strf("pages %zu and %zu", p, q));
      break;
    }
    }
  }
  return log;
}
} // namespace model
