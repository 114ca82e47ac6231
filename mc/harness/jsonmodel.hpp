// Independent JSON parser (RFC 8259 plus the optional extensions the library offers), producing model values.
#pragma once
#include "../model.hpp"
#include <cstdlib>
namespace jm {
using namespace mdl;
enum { Comments = 1, Nan = 2, Trailing = 4 };
struct Bad {}; struct TooBig {};
struct Parser {
  std::string const& s; unsigned ext; size_t p = 0; bool lone = false, zero_huge = false; // a zero written with an exponent above 308

  int peek() const { return p < s.size() ? (unsigned char) s[p] : -1; }
  void ws() {
    for (;;) {
      while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\r' || s[p] == '\t')) ++p;
      if (!(ext & Comments) || peek() != '/') return;
      if (p + 1 < s.size() && s[p + 1] == '*') { auto e = s.find("*/", p + 2); if (e == std::string::npos) throw Bad {}; p = e + 2; }
      else if (p + 1 < s.size() && s[p + 1] == '/') { while (p < s.size() && s[p] != '\n') ++p; if (p < s.size()) ++p; }
      else throw Bad {};
    }
  }
  void lit(char const* l) { for (; *l; ++l, ++p) if (peek() != *l) throw Bad {}; }
  unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; ++k, ++p) { int c = peek(); v <<= 4; if (c >= '0' && c <= '9') v |= c - '0'; else if (c >= 'a' && c <= 'f') v |= c - 'a' + 10; else if (c >= 'A' && c <= 'F') v |= c - 'A' + 10; else throw Bad {}; } return v; }
  static void utf8(unsigned c, std::string& o) {
    if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
  }
  std::string str() {
    if (peek() != '"') throw Bad {}; ++p; std::string o;
    for (;;) {
      int c = peek(); if (c < 0 || c < 32) throw Bad {};
      ++p; if (c == '"') return o;
      if (c != '\\') { o += char(c); continue; }
      c = peek(); ++p;
      switch (c) {
        case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': { unsigned u = hex4(); if (u >= 0xdc00 && u <= 0xdfff) lone = true; /* grammatical, but denotes no text */ if (u >= 0xd800 && u <= 0xdbff) { if (peek() != '\\') throw Bad {}; ++p; if (peek() != 'u') throw Bad {}; ++p; unsigned l = hex4(); if (l < 0xdc00 || l > 0xdfff) throw Bad {}; u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } utf8(u, o); break; }
        default: throw Bad {};
      }
    }
  }
  Val num() {
    size_t b = p; bool neg = false, dec = false; if (peek() == '-') { ++p; neg = true; }
    if ((ext & Nan) && (peek() == 'I' || peek() == 'N')) { if (peek() == 'N') { lit("NaN"); return Val::decimal(std::numeric_limits<double>::quiet_NaN()); } lit("Inf"); if (peek() == 'i') lit("inity"); return Val::decimal(neg ? -INFINITY : INFINITY); }
    auto digits = [&] { if (peek() < '0' || peek() > '9') throw Bad {}; while (peek() >= '0' && peek() <= '9') ++p; };
    if (peek() == '0') ++p; else digits();
    if (peek() == '.') { dec = true; ++p; digits(); }
    if (peek() == 'e' || peek() == 'E') { dec = true; ++p; if (peek() == '+' || peek() == '-') ++p; digits(); }
    std::string t = s.substr(b, p - b);
    { auto e = t.find_first_of("eE"); if (e != std::string::npos && t.find_first_of("123456789") >= e && strtol(t.c_str() + e + 1, nullptr, 10) > 308) zero_huge = true; }
    if (!dec) { errno = 0; char* e; long long v = strtoll(t.c_str(), &e, 10); if (!errno) return Val::integer(v); }
    double d = strtod(t.c_str(), nullptr); if (std::isinf(d)) throw TooBig {};
    return Val::decimal(d);
  }
  Val value() {
    switch (peek()) {
      case '{': {
        ++p; Val r = Val::obj(); ws(); if (peek() == '}') { ++p; return r; }
        for (;;) { std::string k = str(); ws(); if (peek() != ':') throw Bad {}; ++p; ws(); Val v = value(); r.o[k] = v; ws();
          if (peek() == ',') { ++p; ws(); if ((ext & Trailing) && peek() == '}') { ++p; return r; } } else if (peek() == '}') { ++p; return r; } else throw Bad {}; }
      }
      case '[': {
        ++p; Val r = Val::arr(); ws(); if (peek() == ']') { ++p; return r; }
        for (;;) { r.a.push_back(value()); ws(); if (peek() == ',') { ++p; ws(); if ((ext & Trailing) && peek() == ']') { ++p; return r; } } else if (peek() == ']') { ++p; return r; } else throw Bad {}; }
      }
      case '"': return Val::str(str());
      case 't': lit("true"); return Val::boolean(true);
      case 'f': lit("false"); return Val::boolean(false);
      case 'n': lit("null"); return Val::null();
      default: return num();
    }
  }
};
enum Status { ok, bad, toobig };
inline Status parse(std::string const& s, Val& out, unsigned ext = 0, bool* zero_huge = nullptr, bool* lone = nullptr) {
  Parser q {s, ext}; try { q.ws(); out = q.value(); q.ws(); if (zero_huge) *zero_huge = q.zero_huge; if (lone) *lone = q.lone; return q.p == s.size() ? ok : bad; } catch (Bad) { return bad; } catch (TooBig) { // well-formed up to here; is the rest?
    return toobig; }
}
}
