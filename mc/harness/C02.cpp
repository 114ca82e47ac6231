// C02: key lookup in a finalized object agrees with the map it was made from.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

using Set = std::vector<std::string>;

// Keys that collide in length, first bytes, sign bit, embedded NUL.
Set const& small_keys() {
  static Set const k {"", "a", "b", std::string("\0", 1), "\x7f", "\x80", "\xff", "aa", "ab", "ba", std::string("a\0", 2), std::string("\0a", 2), std::string("\0\0", 2),
    "a\x80", "\x80" "a", "\xff\xff", "aab", "aaa", "aba", "abb", std::string("ab\0", 3), std::string("a\0b", 3), std::string("\0\0\0", 3), "ab\x80", "ab\xff", "abab", "abba"};
  return k;
}
Set const& long_keys() {
  static Set const k = [] {
    Set r;
    for (size_t n : {size_t(253), size_t(254), size_t(255), size_t(256), size_t(257), size_t(300), size_t(65534), size_t(65535)}) {
      r.push_back(rep('a', n)); r.push_back(rep('a', n - 1) + "b");
      if (n < 300) { r.push_back("b" + rep('a', n - 1)); r.push_back("\x80" + rep('a', n - 1)); }
    }
    return r;
  }();
  return k;
}
// Probes around a key: itself, truncated, extended, last/first byte changed.
void neighbours(std::string const& k, Set& out) {
  out.push_back(k);
  out.push_back(k + "a"); out.push_back(k + std::string("\0", 1));
  if (!k.empty()) {
    out.push_back(k.substr(1)); out.push_back(k.substr(0, k.size() - 1));
    std::string t = k; t.back() ^= 1; out.push_back(t); t = k; t.back() ^= 0x80; out.push_back(t); t = k; t[0] ^= 0x80; out.push_back(t);
  }
}

Val value_for(size_t n) {
  switch (n % 4) { case 0: return Val::integer(n); case 1: return Val::null(); case 2: return Val::str("v" + std::to_string(n)); default: return Val::arr({Val::integer(n)}); }
}

// Descriptions are built only when something is wrong.
struct Ctx {
  char const* form; char const* path; std::string const* key;
  std::string operator ()(char const* how) const { return std::string(form) + " (" + path + ") " + how + " of key " + mc::show(*key); }
  [[noreturn]] void bad(char const* how, std::string msg) const { mc::fail(std::string("lookup: ") + form + " " + how, (*this)(how) + " " + msg); }
};
template <class P> void check_value(P const& got, Val const* want, Ctx const& c, char const* how) {
  if (want ? same(read(got), *want) : got.is_null()) return;
  c.bad(how, "gives " + dump(read(got)) + ", expected " + (want ? dump(*want) : "null (key is absent)"));
}

// Every lookup entry point, against the map.
template <class P> void probe(P const& p, Val const& m, std::string const& key, char const* form, char const* path) {
  Ctx c {form, path, &key};
  auto it = m.o.find(key);
  Val const* want = it == m.o.end() ? nullptr : &it->second;
  auto k = sv(key);
  mc::step(7);
  if (p.has_key(k) != (want != nullptr)) c.bad("has_key", "is wrong");
  check_value(p.get(k), want, c, "get");
  check_value(p[k], want, c, "[]");
  Err e = attempt([&] { check_value(p.at(k), want, c, "at"); });
  if (e != (want ? Err::none : Err::range)) c.bad("at", std::string("gives ") + name(e));
  auto f = p.find(k);
  if ((f != p.end()) != (want != nullptr)) c.bad("find", "is wrong about presence");
  if (want) check_value(*f, want, c, "find");
  auto fk = p.find_key(k);
  if ((fk != p.key_end()) != (want != nullptr)) c.bad("find_key", "is wrong about presence");
  if (want) {
    auto kv = *fk; auto s = kv.strv();
    if (std::string(s.data(), s.size()) != key) c.bad("find_key", "gives key " + mc::show({s.data(), s.size()}));
    if (m.o.size() < 40) {      // the iterator is positioned: everything after it follows
      size_t left = 0; for (auto z = f; z != p.end(); ++z) ++left;
      if (left != (size_t) std::distance(it, m.o.end())) c.bad("find", "is positioned wrongly");
    }
  }
}
template <class P> void probe_or(P const& p, Val const& m, std::string const& key, char const* form) {
  auto it = m.o.find(key);
  mc::step();
  static Val const def = Val::integer(-99);
  check_value(p.get_or(sv(key), -99), it == m.o.end() ? &def : &it->second, Ctx {form, "", &key}, "get_or");
}
template <class P> void probe_dart_key(P const& p, Val const& m, std::string const& key, char const* form) {
  auto it = m.o.find(key);
  Val const* want = it == m.o.end() ? nullptr : &it->second;
  auto hk = dart::heap::make_string(sv(key)); dart::packet::string pk {dart::packet::make_string(sv(key))};
  mc::step(5); Ctx c {form, "", &key};
  check_value(p[hk], want, c, "[dart::heap]");
  check_value(p[pk], want, c, "[dart::string]");
  check_value(p.get(hk), want, c, "get(dart::heap)");
  if (p.has_key(pk) != (want != nullptr)) c.bad("has_key(dart::string)", "is wrong");
  Err e = attempt([&] { check_value(p.at(pk), want, c, "at(dart::string)"); });
  if (e != (want ? Err::none : Err::range)) c.bad("at(dart::string)", std::string("gives ") + name(e));
}

// Ways of making the finalized object.
enum { kFinalize, kDirect, kMerge, kProject, kJson, kPathCount };
char const* path_name[] = {"finalize", "make_object", "inject", "project", "json"};

std::string jstr(std::string const& s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) if (c < 32 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c;
  return o + "\"";
}
std::string to_json(Val const& v) {
  switch (v.k) {
    case Val::Null: return "null"; case Val::Bool: return v.b ? "true" : "false"; case Val::Int: return std::to_string(v.i); case Val::Str: return jstr(v.s);
    case Val::Arr: { std::string o = "["; for (auto& e : v.a) o += (o.size() > 1 ? "," : "") + to_json(e); return o + "]"; }
    case Val::Obj: { std::string o = "{"; for (auto& e : v.o) o += (o.size() > 1 ? "," : "") + jstr(e.first) + ":" + to_json(e.second); return o + "}"; }
    default: return "0.5";
  }
}

template <class H, class B> B make(Val const& v, int path) {
  mc::step();
  switch (path) {
    case kFinalize: return build<H>(v).finalize();
    case kDirect: {
      std::vector<H> kv; // reverse order: construction has to sort
      for (auto it = v.o.rbegin(); it != v.o.rend(); ++it) { kv.push_back(H::make_string(sv(it->first))); kv.push_back(build<H>(it->second)); }
      return B::make_object(gsl::span<H const>(kv.data(), kv.size()));
    }
    case kMerge: {      // split alternately, one key overlapping with a stale value
      Val x = Val::obj(), y = Val::obj(); size_t n = 0;
      for (auto& f : v.o) { if (n++ % 2) y.o[f.first] = f.second; else x.o[f.first] = f.second; }
      if (!y.o.empty()) x.o[y.o.begin()->first] = Val::str("stale");
      std::vector<H> kv; for (auto& f : y.o) { kv.push_back(H::make_string(sv(f.first))); kv.push_back(build<H>(f.second)); }
      return build<H>(x).finalize().inject(gsl::span<H const>(kv.data(), kv.size()));
    }
    case kProject: {
      Val x = v; for (auto& s : {"zz", "q", "", "abz", "\xf0"}) if (!x.o.count(s)) x.o[s] = Val::str("extra");
      std::vector<std::string> keys; for (auto& f : v.o) keys.push_back(f.first);
      keys.push_back("not there");
      return build<H>(x).finalize().project(gsl::span<std::string const>(keys.data(), keys.size()));
    }
    default: return B::from_json(to_json(v));
  }
}

template <class H, class B, class P> void check_set(Set const& keys, int path, Set const& probes, bool extended) {
  Val v = Val::obj(); for (size_t i = 0; i < keys.size(); ++i) v.o[keys[i]] = value_for(i);
  MC_NOTE("object " + dump(v) + " made by " + path_name[path]);
  mc::state(mc::mix(hash(v), path));
  B b = make<H, B>(v, path);
  P fp {b};
  for (auto& k : probes) {
    probe(b, v, k, "buffer", path_name[path]);
    probe(fp, v, k, "finalized packet", path_name[path]);
    probe_or(fp, v, k, "finalized packet");
    if (extended) {
      probe_dart_key(b, v, k, "buffer"); probe_dart_key(fp, v, k, "packet");
      typename B::view bv = b; probe(bv, v, k, "buffer view", path_name[path]); typename P::view pv = fp; probe(pv, v, k, "packet view", path_name[path]);
      typename B::object ob {b}; MC_CHECK(ob.has_key(sv(k)) == (v.o.count(k) != 0), "typed has_key", "typed object has_key of " + mc::show(k));
      auto it = v.o.find(k); check_value(ob[sv(k)], it == v.o.end() ? nullptr : &it->second, Ctx {"typed object", "", &k}, "[]");
    }
  }
  mc::nontrivial();
}
Set probes_for(Set const& keys, Set const& base) {
  Set p = base; for (auto& k : keys) neighbours(k, p);
  std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
  return p;
}

MC_SPACE(sets, "small-key-sets", "every set of up to 3 (thorough 4) of 27 colliding keys, made by 5 paths, probed with all 27 keys and every neighbour of a member") {
  int most = mc::thorough() ? 4 : 3, n = choose(most + 1), path = choose(kPathCount), from = 0;
  Set s; for (int i = 0; i < n; ++i) { int left = (int) small_keys().size() - from; if (left <= 0) mc::prune(); int k = from + choose(left); s.push_back(small_keys()[k]); from = k + 1; }
  check_set<dart::heap, dart::buffer, dart::packet>(s, path, probes_for(s, small_keys()), n <= 2);
}
MC_SPACE(dart_heap, "dynamic-lookup", "the same sets of up to 2 keys looked up in the dynamic object and packet") {
  int n = choose(3), from = 0; Set s;
  for (int i = 0; i < n; ++i) { int left = (int) small_keys().size() - from; if (left <= 0) mc::prune(); int k = from + choose(left); s.push_back(small_keys()[k]); from = k + 1; }
  Val v = Val::obj(); for (size_t i = 0; i < s.size(); ++i) v.o[s[i]] = value_for(i);
  MC_NOTE("object " + dump(v)); mc::state(hash(v));
  auto h = build<dart::heap>(v); dart::packet p {h};
  for (auto& k : probes_for(s, small_keys())) {
    probe(h, v, k, "heap", ""); probe(p, v, k, "dynamic packet", ""); probe_or(h, v, k, "heap"); probe_or(p, v, k, "packet"); probe_dart_key(h, v, k, "heap"); probe_dart_key(p, v, k, "packet");
  }
  mc::nontrivial();
}
MC_SPACE_X(power, "power-sets", "every subset of 11 (thorough 14) two-byte and one-byte keys, by finalization, probed with all of them", 4, true) {
  static Set const k {"aa", "ab", "a\x80", "b\xff", std::string("a\0", 2), std::string("\0\0", 2), "\xff\xff", "a", "\x80", std::string("\0", 1), "aab", "", "aba", "ab\xff"};
  Set s; int n = mc::thorough() ? 14 : 11;
  for (int i = 0; i < n; ++i) if (choose(2)) s.push_back(k[i]);
  check_set<dart::heap, dart::buffer, dart::packet>(s, kFinalize, k, false);
}
MC_SPACE_X(longs, "long-keys", "every set of up to 2 (thorough 3) of 26 keys of length 253..65535, made by 4 paths, probed with members, neighbours and all keys of close length", 2, true) {
  int n = choose(mc::thorough() ? 4 : 3), from = 0; Set s;
  for (int i = 0; i < n; ++i) { int left = (int) long_keys().size() - from; if (left <= 0) mc::prune(); int k = from + choose(left); s.push_back(long_keys()[k]); from = k + 1; }
  int path = choose(kPathCount);
  Set base; for (auto& k : long_keys()) if (k.size() < 400) base.push_back(k);
  base.push_back("a");
  check_set<dart::unsafe_heap, dart::unsafe_buffer, dart::unsafe_packet>(s, path, probes_for(s, base), false);
}
// Keys of one length that share everything but one position.
MC_SPACE_X(onebyte, "single-byte-differences", "objects of 9 keys of length 1..6 that differ in one byte only, at every position, over 9 byte values, each removed in turn", 2, true) {
  static unsigned char const bytes[] = {0, 1, 'a', 'b', 0x7f, 0x80, 0x81, 0xfe, 0xff};
  int len = 1 + choose(6), at = choose(len), drop = choose(10), path = choose(4);
  Set all, s; for (int i = 0; i < 9; ++i) { std::string k = rep('m', len); k[at] = bytes[i]; all.push_back(k); if (i != drop) s.push_back(k); }
  check_set<dart::heap, dart::buffer, dart::packet>(s, path, probes_for(s, all), false);
}
MC_SPACE_X(bytes, "all-bytes", "an object holding every one-byte key but one (256 variants + full), and every two-byte key with a fixed other byte", 1, true) {
  int drop = choose(257), mode = choose(3);
  Set all, s; for (int i = 0; i < 256; ++i) { std::string k(1, char(i)); if (mode == 1) k = "x" + k; if (mode == 2) k += "x"; all.push_back(k); if (i != drop) s.push_back(k); }
  check_set<dart::heap, dart::buffer, dart::packet>(s, choose(mc::thorough() ? 4 : 1), all, false);
}
MC_SPACE_X(sizes, "object-sizes", "objects of every size 0..120 (thorough 1000) with decimal keys in 3 spacings, by 4 paths, probing every member and the gaps", 2, true) {
  int n = choose(mc::thorough() ? 1001 : 121), mul = choose(3), path = choose(4);
  Set s, p; for (int i = 0; i < n; ++i) s.push_back(std::to_string(i * (1 + mul * 3)));
  for (int i = -1; i <= n * (1 + mul * 3); i += (n > 300 ? 7 : 1)) p.push_back(std::to_string(i));
  check_set<dart::heap, dart::buffer, dart::packet>(s, path, p, false);
}
// Nested finalized objects share the lookup code but not the base address.
MC_SPACE(nested, "nested-objects", "every set of up to 2 keys in an object nested at depth 1..3 behind fields of every layout") {
  int n = choose(3), from = 0; Set s;
  for (int i = 0; i < n; ++i) { int left = (int) small_keys().size() - from; if (left <= 0) mc::prune(); int k = from + choose(left); s.push_back(small_keys()[k]); from = k + 1; }
  int depth = 1 + choose(3); Val lay = layout_values()[choose(mc::thorough() ? 17 : 6)];
  Val v = Val::obj(); for (size_t i = 0; i < s.size(); ++i) v.o[s[i]] = value_for(i);
  Val outer = v; for (int i = 0; i < depth; ++i) outer = Val::obj({{"f", lay}, {"nest", outer}});
  MC_NOTE("object " + dump(outer));
  auto b = build<dart::heap>(outer).finalize();
  for (int i = 0; i < depth; ++i) b = b["nest"];
  for (auto& k : probes_for(s, small_keys())) probe(b, v, k, "nested buffer", "finalize");
  mc::nontrivial();
}

}
