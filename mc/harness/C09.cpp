// C09: whatever validation accepts is safe to read; validation itself is safe on anything.
#include "../model.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

// Exactly-sized, 64-aligned copy: the sanitizer sees the first byte past the end.
struct Region {
  gsl::byte* p; size_t n, shift;
  Region(unsigned char const* src, size_t len, size_t shift = 0) : n(len), shift(shift) { void* v = nullptr; if (posix_memalign(&v, 64, len + shift ? len + shift : 1)) abort(); p = static_cast<gsl::byte*>(v) + shift; if (len) memcpy(p, src, len); }
  ~Region() { free(p - shift); }
  Region(Region const&) = delete;
};

uint64_t walked;
struct Limit {};
template <class P> uint64_t walk(P const& p, uint64_t h = 5) {
  using T = dart::detail::type;
  if (++walked > 2000000) mc::fail("unbounded read", "reading an accepted buffer takes more than two million steps");
  switch (p.get_type()) {
    case T::null: return mc::mix(h, 1);
    case T::boolean: return mc::mix(h, 2 + p.boolean());
    case T::integer: return mc::mix(h, (uint64_t) p.integer());
    case T::decimal: return mc::mix(h, bits(p.decimal()));
    case T::string: { auto s = p.strv(); h = mc::mix(h, mc::fnv(s.data(), s.size())); auto* c = p.str(); return mc::mix(h, strlen(c)); }
    case T::array: {
      for (auto it = p.begin(); it != p.end(); ++it) h = walk(*it, h);
      auto it = p.end(); for (size_t k = p.size(); k--;) { --it; auto a = p[k]; h = walk(a, h); auto c = p.at(k); h = mc::mix(h, c == *it); }
      return mc::mix(h, 6);
    }
    default: {
      auto k = p.key_begin(); uint64_t n = 0;
      for (auto it = p.begin(); it != p.end(); ++it, ++k, ++n) {
        auto key = *k; auto kv = key.strv(); h = mc::mix(h, mc::fnv(kv.data(), kv.size())); h = walk(*it, h);
        auto x = p[kv]; h = walk(x, h); h = mc::mix(h, p.has_key(kv)); auto f = p.find(kv); if (f != p.end()) { auto y = *f; h = mc::mix(h, y.is_null()); }
      }
      if (n != p.size()) mc::fail("iteration count", "iteration of an accepted object does not visit size() elements");
      for (auto s : {"", "a", "b", "ab", "zz", "abcdef"}) { h = mc::mix(h, p.has_key(s)); auto v = p[s]; h = mc::mix(h, (int) v.get_type()); }
      return mc::mix(h, 7);
    }
  }
}

// Every kind of use of a finalized object.
void use(gsl::byte const* p, size_t n, int depth) {
  walked = 0;
  dart::buffer b(gsl::span<gsl::byte const>(p, n));
  uint64_t h = walk(b);
  if (depth == 0) return;
  auto bytes = b.get_bytes(); MC_CHECK((size_t) bytes.size() <= n, "size out of bounds", "an accepted object reports " + std::to_string(bytes.size()) + " bytes, but only " + std::to_string(n) + " were given");
  h = mc::mix(h, mc::fnv(bytes.data(), bytes.size()));
  dart::buffer d(b); MC_CHECK((d == b) || true, "", "");
  std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)> dup = b.dup_bytes(); h = mc::mix(h, mc::fnv(dup.get(), bytes.size()));
  dart::packet pk(b); walk(pk);
  try { auto js = b.to_json(); h = mc::mix(h, mc::hash_str(js)); } catch (std::exception const&) {}
  // conversion, and back
  try { dart::heap hp(b); walk(hp); auto again = hp.finalize(); walk(again); mc::hold(&again); } catch (std::exception const&) {}
  try { auto lifted = pk; lifted.definalize(); lifted.finalize(); } catch (std::exception const&) {}
  // merging and projecting
  for (int k = 0; k < 4; ++k) try {
    dart::buffer r = k == 0 ? b.inject("zz", 1, "aa", "text") : k == 1 ? b.inject("", dart::heap::make_null()) : k == 2 ? b.project({"a", "b", "", "zz"}) : b.project({"ab", "a"});
    auto rb = r.get_bytes(); h = mc::mix(h, mc::fnv(rb.data(), rb.size())); walk(r);
  } catch (std::exception const&) {}
  // nested objects are usable on their own
  for (auto it = b.begin(); it != b.end(); ++it) { dart::buffer e = *it; if (e.is_object()) { auto eb = e.get_bytes(); h = mc::mix(h, mc::fnv(eb.data(), eb.size())); auto s = e.dup_bytes(); walk(e); } if (e == b) h++; }
  mc::state(h);
}

bool validate_agrees(gsl::byte const* p, size_t n) {
  bool ok = dart::is_valid(p, n);
  Err e = attempt([&] { dart::validate(p, n); });
  if (e != Err::none && e != Err::validation) mc::fail("wrong error", std::string("validate() gave ") + name(e));
  MC_CHECK(ok == (e == Err::none), "is_valid and validate disagree", std::string("is_valid says ") + (ok ? "true" : "false") + " but validate() gives " + name(e));
  return ok;
}
void judge(Bytes const& b, int depth = 1, size_t shift = 0) {
  Region r(b.data(), b.size(), shift); mc::step();
  if (!validate_agrees(r.p, r.n)) { mc::state(3); return; }
  mc::nontrivial(); if (shift % 8) mc::fail("misaligned accepted", "validation accepts an object that is not aligned, which cannot be read safely");
  use(r.p, r.n, depth);
}

std::vector<Val> const& seeds() {
  static std::vector<Val> const v {
    Val::obj(), Val::obj({{"a", Val::null()}}), Val::obj({{"a", Val::boolean(true)}}), Val::obj({{"a", Val::integer(5)}}), Val::obj({{"a", Val::integer(70000)}}), Val::obj({{"ab", Val::integer(1ll << 40)}}),
    Val::obj({{"", Val::decimal(1.5)}}), Val::obj({{"a", Val::decimal(0.1)}}), Val::obj({{"a", Val::str("xyz")}}), Val::obj({{"a", Val::arr()}}), Val::obj({{"a", Val::obj()}}),
    Val::obj({{"a", Val::integer(1)}, {"b", Val::str("q")}}), Val::obj({{"", Val::null()}, {"ab", Val::null()}}), Val::obj({{"a", Val::arr({Val::integer(1), Val::str("b")})}}), Val::obj({{"a", Val::obj({{"b", Val::boolean(false)}})}}),
    Val::obj({{"a", Val::arr({Val::null(), Val::boolean(true), Val::null()})}}), Val::obj({{"a", Val::arr({Val::arr({Val::integer(7)}), Val::obj()})}}), Val::obj({{"a", Val::str("abcdefgh")}, {"b", Val::arr({Val::str("s")})}, {"c", Val::decimal(0.3)}}),
    Val::obj({{"a", Val::obj({{"b", Val::obj({{"", Val::str("deep")}})}})}}),
  };
  return v;
}
void note(int s, Bytes const& b) { MC_NOTE("from " + dump(seeds()[s]) + ": " + hex(b.data(), b.size())); }

MC_SPACE(one, "one-byte", "every value of every byte of 19 valid buffers covering every element type, plus the same with the final byte dropped and with 8 bytes appended") {
  int s = choose((int) seeds().size()); Bytes b = encode(seeds()[s]); int at = choose((int) b.size()), v = choose(256), len = choose(3); b[at] = (unsigned char) v; if (len == 1) b.pop_back(); else if (len == 2) b.resize(b.size() + 8);
  note(s, b); judge(b);
}
std::vector<int> structural(Bytes const& b, Val const& v) { // all bytes except string contents, roughly: everything that differs from zero plus the headers
  std::vector<int> r; for (int i = 0; i < (int) b.size(); ++i) if (b[i] || i < 24) r.push_back(i); return r; }
MC_SPACE(two, "two-bytes", "every pair of the structural bytes (headers, vtables, lengths, offsets) of 19 valid buffers x 20 x 20 values for each (thorough 40 x 40)") {
  int s = choose((int) seeds().size()); Bytes b = encode(seeds()[s]); auto st = structural(b, seeds()[s]);
  int i = choose((int) st.size()), j = choose((int) st.size()); if (j <= i) mc::prune();
  static unsigned char const vals[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 24, 32, 40, 64, 255, 13, 14, 15, 17, 18, 19, 22, 26, 28, 30, 34, 36, 38, 44, 48, 52, 56, 72, 127, 128};
  int K = mc::thorough() ? 40 : 20; b[st[i]] = vals[choose(K)]; b[st[j]] = vals[choose(K)]; note(s, b); judge(b);
}
MC_SPACE(cut, "truncations", "every prefix and every extension by 1..16 bytes (zero and 0xff) of 19 valid buffers and of larger ones with every layout value") {
  int s = choose((int) seeds().size() + (int) layout_values().size()); Val v = s < (int) seeds().size() ? seeds()[s] : Val::obj({{"k", layout_values()[s - seeds().size()]}, {"kk", Val::str(rep('t', 20))}});
  Bytes b = encode(v); int ext = choose(17), n = ext ? (int) b.size() + ext : choose((int) b.size() + 1), fill = ext ? choose(2) : 0; b.resize(n, fill ? 255 : 0);
  MC_NOTE(dump(v) + " presented as " + std::to_string(n) + " bytes"); judge(b);
}
// Raw machine: small regions of words, every combination: headers, one or two vtable entries and a tail.
MC_SPACE_X(words, "handmade-arrays", "an object holding one array of 2 elements: every pair of element types (12+1 invalid) x every pair of offsets 0..56 step 1/2 x 4 tail fills (overlapping, backwards, cyclic and out-of-range elements)", 3, true) {
  int t1 = choose(13), t2 = choose(13), step = mc::thorough() ? 1 : 2, N = 60 / step; int o1 = choose(N) * step, o2 = choose(N) * step, fill = choose(mc::thorough() ? 4 : 2);
  // {"a":[x, y]}: header 8, vtable 8, key 4 @16, pad, array @24: header 8, vtable 16, payload @48
  Bytes b(80, 0); auto p32 = [&] (size_t at, uint32_t v) { put(b, at, v, 4); };
  p32(0, 80); p32(4, 1); p32(8, 16); b[12] = T_arr; b[13] = 1; b[14] = 'a'; b[16] = 1; b[18] = 'a'; p32(24, 56); p32(28, 2); p32(32, o1); b[36] = t1; p32(40, o2); b[44] = t2;
  for (int i = 48; i < 80; ++i) b[i] = fill == 0 ? 0 : fill == 1 ? (i % 8 == 0 ? 16 : i % 8 == 4 ? 1 : 0) : fill == 2 ? (i % 2 == 0 ? 3 : 0) : (i % 4 == 0 ? 8 : 0);
  MC_NOTE("array elements types " + std::to_string(t1) + "@" + std::to_string(o1) + ", " + std::to_string(t2) + "@" + std::to_string(o2) + " fill " + std::to_string(fill)); judge(b);
}
MC_SPACE_X(objs, "handmade-objects", "an object with 2 fields: every pair of value types x every pair of key offsets 0..56 step 2 x 3 key lengths x 3 tail fills", 3, true) {
  int t1 = choose(13), t2 = choose(13), step = 2, N = 30; int o1 = choose(N) * step, o2 = choose(N) * step, kl = choose(3), fill = choose(mc::thorough() ? 4 : 2);
  Bytes b(72, 0); auto p32 = [&] (size_t at, uint32_t v) { put(b, at, v, 4); };
  for (int i = 24; i < 72; ++i) b[i] = fill == 0 ? 0 : fill == 1 ? (i % 8 == 0 ? 8 : 0) : fill == 2 ? (i % 16 == 0 ? 16 : i % 16 == 4 ? 1 : i % 16 == 8 ? 12 : 0) : (i % 2 == 0 ? 1 : 0);
  p32(0, 72); p32(4, 2); p32(8, o1); b[12] = t1; b[13] = 1; b[14] = 'a'; p32(16, o2); b[20] = t2; b[21] = 1; b[22] = 'b';
  if (o1 >= 24 && o1 + 4 <= 72) { b[o1] = kl; b[o1 + 1] = 0; b[o1 + 2] = kl ? 'a' : 0; }
  MC_NOTE("fields types " + std::to_string(t1) + "@" + std::to_string(o1) + ", " + std::to_string(t2) + "@" + std::to_string(o2) + " key length " + std::to_string(kl) + " fill " + std::to_string(fill)); judge(b);
}
// Elements sharing storage: amplification and size arithmetic.
MC_SPACE(overlap, "overlaps", "chains of 1..12 (thorough 40) arrays each holding 2 children that share the storage of the next two, and objects whose second value lies inside the first") {
  int kind = choose(3), n = 1 + choose(mc::thorough() ? 40 : 24);
  Bytes b;
  if (kind == 0) { // root {"a": node0}; node i = [node i+1, node i+2], all running to the end of the buffer
    size_t total = 24 + 24 * (size_t) n + 8; b.assign(total, 0); put(b, 0, total, 4); put(b, 4, 1, 4); put(b, 8, 16, 4); b[12] = T_arr; b[13] = 1; b[14] = 'a'; b[16] = 1; b[18] = 'a';
    for (int i = 0; i < n; ++i) { size_t at = 24 + 24 * (size_t) i; put(b, at, total - at, 4); int kids = i + 2 < n ? 2 : 0; put(b, at + 4, kids, 4); if (kids) { put(b, at + 8, 24, 4); b[at + 12] = T_arr; put(b, at + 16, 48, 4); b[at + 20] = T_arr; } }
  } else if (kind == 1) { // {"a": str covering key b and its value, "b": str}
    b.assign(40 + 8 * n, 0); size_t total = b.size(); put(b, 0, total, 4); put(b, 4, 2, 4); put(b, 8, 24, 4); b[12] = T_str; b[13] = 1; b[14] = 'a'; b[24] = 1; b[26] = 'a'; b[28] = (unsigned char) (total - 28 - 3 > 250 ? 250 : total - 28 - 3);
    put(b, 16, 32, 4); b[20] = T_str; b[21] = 1; b[22] = 'b'; b[32] = 1; b[34] = 'b'; b[36] = (unsigned char) (total - 36 - 3 > 240 ? 240 : total - 36 - 3);
  } else { // an array of n strings, each running to the end of the array
    size_t base = 24, strs = 8 + 8 * (size_t) n, len = strs + 4 * (size_t) n + 4; b.assign(base + len + (8 - (base + len) % 8) % 8, 0); put(b, 0, b.size(), 4); put(b, 4, 1, 4); put(b, 8, 16, 4); b[12] = T_arr; b[13] = 1; b[14] = 'a'; b[16] = 1; b[18] = 'a';
    put(b, base, len, 4); put(b, base + 4, n, 4);
    for (int i = 0; i < n; ++i) { put(b, base + 8 + 8 * (size_t) i, strs + 4 * (size_t) i, 4); b[base + 12 + 8 * (size_t) i] = T_str; put(b, base + strs + 4 * (size_t) i, len - strs - 4 * (size_t) i - 3, 2); }
  }
  MC_NOTE("overlap kind " + std::to_string(kind) + " n " + std::to_string(n) + ": " + hex(b.data(), b.size())); judge(b);
}
MC_SPACE(mis, "misaligned", "19 valid buffers presented at every misalignment 1..8") {
  int s = choose((int) seeds().size()), shift = 1 + choose(8); Bytes b = encode(seeds()[s]); note(s, b); MC_NOTE("shift " + std::to_string(shift)); judge(b, 1, shift);
}
MC_SPACE(tiny, "tiny", "every buffer of 0..3 bytes over 8 byte values, every 8 byte header over 5 values per byte (thorough 6), and null regions") {
  int n = choose(5); static unsigned char const vals[] = {0, 8, 16, 1, 255, 4, 2, 128}; Bytes b;
  if (n == 4) for (int i = 0; i < 8; ++i) b.push_back(vals[choose(mc::thorough() ? 6 : 4)]); else for (int i = 0; i < n; ++i) b.push_back(vals[choose(8)]);
  MC_NOTE(hex(b.data(), b.size())); if (n == 0) { MC_CHECK(!dart::is_valid(gsl::span<gsl::byte const> {}), "null region accepted", "an empty region is accepted"); } judge(b);
}

// Very deep nesting, in a child process with a fixed stack (the recursion limit is the stack).
struct Deep { Bytes b; gsl::byte const* p; bool ok; };
void* deep_run(void* a) { auto& d = *static_cast<Deep*>(a); d.ok = dart::is_valid(d.p, d.b.size()); return nullptr; }
MC_SPACE_X(deep, "deep-nesting", "arrays nested 10, 100, 1000, and 4 million deep, validated on an 8 MB stack", 1, false) {
  static int const depths[] = {10, 100, 1000, 4000000}; size_t n = pick(depths), total = 24 + 16 * n + 8;
  Deep d; d.b.assign(total, 0); auto& b = d.b; put(b, 0, total, 4); put(b, 4, 1, 4); put(b, 8, 16, 4); b[12] = T_arr; b[13] = 1; b[14] = 'a'; b[16] = 1; b[18] = 'a';
  for (size_t i = 0; i < n; ++i) { size_t at = 24 + 16 * i; put(b, at, total - at, 4); put(b, at + 4, i + 1 < n, 4); if (i + 1 < n) { put(b, at + 8, 16, 4); b[at + 12] = T_arr; } }
  MC_NOTE(std::to_string(n) + " nested arrays"); mc::step();
  Region r(b.data(), b.size()); d.p = r.p;
  pid_t pid = fork();
  if (!pid) {
    int null = open("/dev/null", O_WRONLY); dup2(null, 1); dup2(null, 2);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20); pthread_t t; if (pthread_create(&t, &at, deep_run, &d)) _exit(7); pthread_join(t, nullptr); _exit(d.ok ? 0 : 1);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) > 7) mc::fail("deep nesting exhausts the stack in validation, depth " + std::to_string(n), "validating " + std::to_string(n) + " nested arrays crashes");
  MC_CHECK(WEXITSTATUS(st) != 7, "", ""); if (n <= 1000) { MC_CHECK(WEXITSTATUS(st) == 0, "nested rejected", std::to_string(n) + " nested arrays are rejected"); if (n == 10) use(r.p, r.n, 1); } mc::nontrivial();
}

}
