// Reference model: a boring value type, builders into the library, readers out of it, and an independent
// encoder for the finalized wire format. Nothing here shares code with the library.
#pragma once
#include "mc.hpp"
#include <dart.h>
#include <cmath>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mdl {

// Documented order of keys: by length, then by unsigned bytes.
struct KeyLess {
  bool operator ()(std::string const& a, std::string const& b) const {
    if (a.size() != b.size()) return a.size() < b.size();
    return memcmp(a.data(), b.data(), a.size()) < 0;
  }
};

struct Val {
  enum Kind : uint8_t { Null, Bool, Int, Dec, Str, Arr, Obj } k = Null;
  bool b = false; int64_t i = 0; double d = 0; std::string s;
  std::vector<Val> a;
  std::map<std::string, Val, KeyLess> o;

  static Val null() { return {}; }
  static Val boolean(bool v) { Val r; r.k = Bool; r.b = v; return r; }
  static Val integer(int64_t v) { Val r; r.k = Int; r.i = v; return r; }
  static Val decimal(double v) { Val r; r.k = Dec; r.d = v; return r; }
  static Val str(std::string v) { Val r; r.k = Str; r.s = std::move(v); return r; }
  static Val arr(std::vector<Val> v = {}) { Val r; r.k = Arr; r.a = std::move(v); return r; }
  static Val obj(std::vector<std::pair<std::string, Val>> v = {}) { Val r; r.k = Obj; for (auto& p : v) r.o[p.first] = p.second; return r; }
  bool aggregate() const { return k == Arr || k == Obj; }
  size_t size() const { return k == Arr ? a.size() : k == Obj ? o.size() : s.size(); }
};

inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

// Identity: numbers bit for bit.
inline bool same(Val const& x, Val const& y) {
  if (x.k != y.k) return false;
  switch (x.k) {
    case Val::Null: return true;
    case Val::Bool: return x.b == y.b;
    case Val::Int: return x.i == y.i;
    case Val::Dec: return bits(x.d) == bits(y.d) || (std::isnan(x.d) && std::isnan(y.d));
    case Val::Str: return x.s == y.s;
    case Val::Arr:
      if (x.a.size() != y.a.size()) return false;
      for (size_t n = 0; n < x.a.size(); ++n) if (!same(x.a[n], y.a[n])) return false;
      return true;
    default: {
      if (x.o.size() != y.o.size()) return false;
      auto it = x.o.begin(), jt = y.o.begin();
      for (; it != x.o.end(); ++it, ++jt) if (it->first != jt->first || !same(it->second, jt->second)) return false;
      return true;
    }
  }
}

inline void dump_to(Val const& v, std::string& o) {
  char buf[64];
  switch (v.k) {
    case Val::Null: o += "null"; break;
    case Val::Bool: o += v.b ? "true" : "false"; break;
    case Val::Int: snprintf(buf, sizeof buf, "%lld", (long long) v.i); o += buf; break;
    case Val::Dec: snprintf(buf, sizeof buf, "%.17gf", v.d); o += buf; break;
    case Val::Str: o += mc::show(v.s); break;
    case Val::Arr: { o += '['; size_t n = 0; for (auto& e : v.a) { if (n++) o += ','; if (n > 12) { o += "..." + std::to_string(v.a.size()); break; } dump_to(e, o); } o += ']'; break; }
    case Val::Obj: { o += '{'; size_t n = 0; for (auto& e : v.o) { if (n++) o += ','; if (n > 12) { o += "..." + std::to_string(v.o.size()); break; } o += mc::show(e.first) + ":"; dump_to(e.second, o); } o += '}'; break; }
  }
}
inline std::string dump(Val const& v) { std::string o; dump_to(v, o); return o; }

inline uint64_t hash(Val const& v) {
  uint64_t h = 77 + v.k;
  switch (v.k) {
    case Val::Null: break;
    case Val::Bool: h = mc::mix(h, v.b); break;
    case Val::Int: h = mc::mix(h, v.i); break;
    case Val::Dec: h = mc::mix(h, bits(v.d)); break;
    case Val::Str: h = mc::mix(h, mc::hash_str(v.s)); break;
    case Val::Arr: for (auto& e : v.a) h = mc::mix(h, hash(e)); break;
    case Val::Obj: for (auto& e : v.o) { h = mc::mix(h, mc::hash_str(e.first)); h = mc::mix(h, hash(e.second)); } break;
  }
  return h;
}

// ---- into the library (dynamic representations: basic_heap, basic_packet) ----
inline dart::shim::string_view sv(std::string const& s) { return {s.data(), s.size()}; }

template <class H> H build(Val const& v) {
  switch (v.k) {
    case Val::Null: return H::make_null();
    case Val::Bool: return H::make_boolean(v.b);
    case Val::Int: return H::make_integer(v.i);
    case Val::Dec: return H::make_decimal(v.d);
    case Val::Str: return H::make_string(sv(v.s));
    case Val::Arr: { H r = H::make_array(); for (auto& e : v.a) r.push_back(build<H>(e)); return r; }
    default: { H r = H::make_object(); for (auto& e : v.o) r.add_field(sv(e.first), build<H>(e.second)); return r; }
  }
}

// ---- out of the library, through the public read API only ----
template <class P> Val read(P const& p);
template <class P> Val read(dart::basic_object<P> const& p) { P const& d = p.dynamic(); return read(d); }
template <class P> Val read(dart::basic_array<P> const& p) { P const& d = p.dynamic(); return read(d); }
template <class P> Val read(dart::basic_string<P> const& p) { P const& d = p.dynamic(); return read(d); }
template <class P> Val read(dart::basic_number<P> const& p) { P const& d = p.dynamic(); return read(d); }
template <class P> Val read(dart::basic_flag<P> const& p) { P const& d = p.dynamic(); return read(d); }
template <class P> Val read(dart::basic_null<P> const& p) { P const& d = p.dynamic(); return read(d); }
template <class P> Val read(P const& p) {
  using T = dart::detail::type;
  switch (p.get_type()) {
    case T::null: return Val::null();
    case T::boolean: return Val::boolean(p.boolean());
    case T::integer: return Val::integer(p.integer());
    case T::decimal: return Val::decimal(p.decimal());
    case T::string: { auto s = p.strv(); return Val::str({s.data(), s.size()}); }
    case T::array: {
      Val r = Val::arr(); size_t n = p.size();
      for (auto it = p.begin(); it != p.end(); ++it) r.a.push_back(read(*it));
      MC_CHECK(r.a.size() == n, "size", "array size() is " + std::to_string(n) + " but iteration visits " + std::to_string(r.a.size()));
      return r;
    }
    case T::object: {
      Val r = Val::obj(); size_t n = p.size(), seen = 0; bool first = true; std::string prev;
      auto kt = p.key_begin(), ke = p.key_end();
      for (auto it = p.begin(), e = p.end(); it != e; ++it, ++kt) {
        MC_CHECK(kt != ke, "key iteration short", "key iteration is shorter than value iteration");
        auto kv = *kt; auto k = kv.strv(); std::string key(k.data(), k.size());
        MC_CHECK(first || KeyLess {}(prev, key), "key order", "keys out of order or duplicated: " + mc::show(prev) + " before " + mc::show(key));
        prev = key; first = false; ++seen;
        r.o[key] = read(*it);
      }
      MC_CHECK(!(kt != ke), "key iteration long", "key iteration is longer than value iteration");
      MC_CHECK(seen == n, "size", "object size() is " + std::to_string(n) + " but iteration visits " + std::to_string(seen));
      return r;
    }
  }
  mc::fail("bad type", "value reports an unknown type");
}

template <class P> void expect(P const& p, Val const& want, std::string const& what) {
  Val got = read(p);
  if (!same(got, want)) mc::fail("wrong value: " + what, what + " is " + dump(got) + ", expected " + dump(want));
}

// Equal up to a few units in the last place of decimals.
inline bool near_dec(double a, double b) {
  auto key = [] (double d) { int64_t u; memcpy(&u, &d, 8); return u < 0 ? INT64_MIN - u : u; };
  if (std::isnan(a) || std::isnan(b)) return false; int64_t x = key(a), y = key(b); return (x > y ? (uint64_t) x - (uint64_t) y : (uint64_t) y - (uint64_t) x) <= 4;
}
inline bool near_same(Val const& a, Val const& b) {
  if (a.k != b.k) return false;
  switch (a.k) {
    case Val::Dec: return near_dec(a.d, b.d);
    case Val::Arr: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!near_same(a.a[i], b.a[i])) return false; return true;
    case Val::Obj: { if (a.o.size() != b.o.size()) return false; auto j = b.o.begin(); for (auto& e : a.o) { if (e.first != j->first || !near_same(e.second, j->second)) return false; ++j; } return true; }
    default: return same(a, b);
  }
}

// ---- independent encoder of the documented wire format ----
using Bytes = std::vector<unsigned char>;
enum Tag { T_obj, T_arr, T_str, T_small, T_big, T_i16, T_i32, T_i64, T_f32, T_f64, T_bool, T_null };
inline Tag tag_of(Val const& v) {
  switch (v.k) {
    case Val::Null: return T_null;
    case Val::Bool: return T_bool;
    case Val::Int: return v.i >= -32768 && v.i <= 32767 ? T_i16 : v.i >= -2147483648ll && v.i <= 2147483647ll ? T_i32 : T_i64;
    case Val::Dec: { volatile float f = (float) v.d; return (double) f == v.d ? T_f32 : T_f64; }
    case Val::Str: return v.s.size() > 65535 ? T_big : T_str;
    case Val::Arr: return T_arr;
    default: return T_obj;
  }
}
inline size_t align_of(Tag t) {
  switch (t) { case T_obj: case T_arr: case T_i64: case T_f64: return 8; case T_big: case T_i32: case T_f32: return 4; case T_str: case T_small: case T_i16: return 2; default: return 1; }
}
inline void put(Bytes& o, size_t at, uint64_t v, int n) { for (int k = 0; k < n; ++k) o[at + k] = (unsigned char) (v >> (8 * k)); }
inline void app(Bytes& o, uint64_t v, int n) { for (int k = 0; k < n; ++k) o.push_back((unsigned char) (v >> (8 * k))); }
inline void pad(Bytes& o, size_t base, size_t al) { while ((o.size() - base) % al) o.push_back(0); }
inline void app_str(Bytes& o, std::string const& s, int lenbytes) { app(o, s.size(), lenbytes); o.insert(o.end(), s.begin(), s.end()); o.push_back(0); }

// Appends v at the current (already aligned) position.
inline void encode_to(Val const& v, Bytes& o) {
  switch (tag_of(v)) {
    case T_null: break;
    case T_bool: app(o, v.b, 1); break;
    case T_i16: app(o, v.i, 2); break;
    case T_i32: app(o, v.i, 4); break;
    case T_i64: app(o, v.i, 8); break;
    case T_f32: { float f = (float) v.d; uint32_t u; memcpy(&u, &f, 4); app(o, u, 4); break; }
    case T_f64: app(o, bits(v.d), 8); break;
    case T_str: app_str(o, v.s, 2); break;
    case T_big: app_str(o, v.s, 4); break;
    case T_arr: {
      size_t base = o.size(); app(o, 0, 4); app(o, v.a.size(), 4);
      size_t vt = o.size(); o.resize(o.size() + 8 * v.a.size());
      for (auto& e : v.a) {
        Tag t = tag_of(e); pad(o, base, align_of(t));
        put(o, vt, o.size() - base, 4); o[vt + 4] = t; vt += 8;
        encode_to(e, o);
      }
      put(o, base, o.size() - base, 4); break;
    }
    default: {
      size_t base = o.size(); app(o, 0, 4); app(o, v.o.size(), 4);
      size_t vt = o.size(); o.resize(o.size() + 8 * v.o.size());
      for (auto& e : v.o) {
        Tag t = tag_of(e.second); pad(o, base, 2);
        put(o, vt, o.size() - base, 4); o[vt + 4] = t; o[vt + 5] = (unsigned char) (e.first.size() < 255 ? e.first.size() : 255);
        for (size_t k = 0; k < 2 && k < e.first.size(); ++k) o[vt + 6 + k] = e.first[k];
        vt += 8;
        app_str(o, e.first, 2);
        pad(o, base, align_of(t));
        encode_to(e.second, o);
      }
      pad(o, base, 8); put(o, base, o.size() - base, 4); break;
    }
  }
}
inline Bytes encode(Val const& v) { Bytes o; encode_to(v, o); return o; }

inline std::string hex(unsigned char const* p, size_t n) {
  std::string s; char b[4]; for (size_t k = 0; k < n && k < 400; ++k) { snprintf(b, sizeof b, "%02x%s", p[k], k % 8 == 7 ? " " : ""); s += b; } return s;
}

// ---- errors, by documented kind ----
enum class Err { none, type, state, range, parse, validation, invalid, length, logic, runtime, memory, other };
inline char const* name(Err e) {
  static char const* n[] = {"no error", "type_error", "state_error", "out_of_range", "parse_error", "validation_error", "invalid_argument", "length_error", "logic_error", "runtime_error", "bad_alloc", "other exception"};
  return n[(int) e];
}
template <class F> Err attempt(F&& f) {
  try { f(); return Err::none; }
  catch (dart::type_error const&) { return Err::type; }
  catch (dart::state_error const&) { return Err::state; }
  catch (dart::parse_error const&) { return Err::parse; }
  catch (dart::validation_error const&) { return Err::validation; }
  catch (std::out_of_range const&) { return Err::range; }
  catch (std::length_error const&) { return Err::length; }
  catch (std::invalid_argument const&) { return Err::invalid; }
  catch (std::bad_alloc const&) { return Err::memory; }
  catch (std::logic_error const&) { return Err::logic; }
  catch (std::runtime_error const&) { return Err::runtime; }
  catch (std::exception const&) { return Err::other; }
}
inline void expect_err(Err got, Err want, std::string const& what) {
  if (got != want) mc::fail("wrong error: " + what, what + " gave " + name(got) + ", expected " + name(want));
}

// ---- alphabets ----
inline std::string rep(char c, size_t n) { return std::string(n, c); }

// One value of every wire type plus width boundaries.
inline std::vector<Val> const& scalars() {
  static std::vector<Val> const v = [] {
    std::vector<Val> r;
    r.push_back(Val::null());
    r.push_back(Val::boolean(true)); r.push_back(Val::boolean(false));
    for (int64_t i : {int64_t(0), int64_t(1), int64_t(-1), int64_t(32767), int64_t(32768), int64_t(-32768), int64_t(-32769), int64_t(2147483647), int64_t(2147483648), int64_t(-2147483648ll), int64_t(-2147483649ll), INT64_MAX, INT64_MIN}) r.push_back(Val::integer(i));
    for (double d : {0.0, -0.0, 1.5, -1.5, 0.1, 3.4028234663852886e38, 3.4028234663852889e38, 1e300, -1e-300, 5e-324, 1.4012984643248171e-45, (double) 16777217, 9007199254740993.0, (double) INFINITY, (double) -INFINITY}) r.push_back(Val::decimal(d));
    for (auto& s : {std::string(), std::string("a"), std::string("\0", 1), std::string("ab"), std::string("\xff\x80"), rep('s', 13), rep('s', 14), rep('s', 15), rep('s', 16), rep('s', 17), std::string("x\0y", 3), rep('s', 18) + std::string("\0t", 2)}) r.push_back(Val::str(s));
    r.push_back(Val::arr()); r.push_back(Val::obj());
    return r;
  }();
  return v;
}
// One value per (alignment, size class): enough to exercise every layout interaction.
inline std::vector<Val> const& layout_values() {
  static std::vector<Val> const v {
    Val::null(), Val::boolean(true), Val::integer(5), Val::integer(100000), Val::integer(1ll << 40), Val::decimal(1.5), Val::decimal(0.1),
    Val::str(""), Val::str("a"), Val::str("abcdefgh"), Val::arr(), Val::obj(),
    Val::arr({Val::boolean(false)}), Val::arr({Val::null(), Val::integer(7)}), Val::obj({{"k", Val::boolean(true)}}),
    Val::arr({Val::str("xyz"), Val::decimal(2.25)}), Val::obj({{"", Val::null()}, {"kk", Val::str("v")}}),
  };
  return v;
}

}
