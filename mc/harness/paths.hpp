// Every way the library produces a finalized object from a value.
#pragma once
#include "../model.hpp"
#include <cstdio>
namespace paths {
using namespace mdl;

// The shortest decimal text of a double.
inline int dec(double d, char* b) { for (int n = 1; n <= 17; ++n) { snprintf(b, 64, "%.*g", n, d); if (strtod(b, nullptr) == d) return n; } return 18; }
// Texts whose conversion is exact in any sane parser: at most 15 digits and a small exponent.
inline bool easy(double d) { char b[64]; return std::isfinite(d) && dec(d, b) <= 15 && (d == 0 || (fabs(d) < 1e20 && fabs(d) > 1e-6)); }
// Independent JSON writer (finite numbers only).
inline void json_str(std::string const& s, std::string& o) {
  o += '"'; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char) c; }
  o += '"';
}
inline void json(Val const& v, std::string& o) {
  char b[64];
  switch (v.k) {
    case Val::Null: o += "null"; break;
    case Val::Bool: o += v.b ? "true" : "false"; break;
    case Val::Int: snprintf(b, sizeof b, "%lld", (long long) v.i); o += b; break;
    case Val::Dec: dec(v.d, b); o += b; if (!strpbrk(b, ".e")) o += ".0"; break;
    case Val::Str: json_str(v.s, o); break;
    case Val::Arr: { o += '['; bool f = true; for (auto& e : v.a) { if (!f) o += ','; f = false; json(e, o); } o += ']'; break; }
    default: { o += '{'; bool f = true; for (auto& e : v.o) { if (!f) o += ','; f = false; json_str(e.first, o); o += ':'; json(e.second, o); } o += '}'; }
  }
}
inline bool ascii(std::string const& s) { for (unsigned char c : s) if (c >= 0x80) return false; return true; }
inline bool jsonable(Val const& v) {
  switch (v.k) { case Val::Dec: return easy(v.d); case Val::Str: return ascii(v.s);
    case Val::Arr: for (auto& e : v.a) if (!jsonable(e)) return false; return true;
    case Val::Obj: for (auto& e : v.o) if (!ascii(e.first) || !jsonable(e.second)) return false; return true; default: return true; }
}

enum { kPaths = 28 };
inline char const* name(int p) {
  static char const* n[] = {"heap.finalize()", "buffer{heap}", "packet.finalize()", "heap.lower()", "inject of every field into the empty object", "projection out of a larger object", "extraction of a nested object", "extraction of an array element",
    "JSON parsed to a buffer", "JSON parsed to a finalized packet", "JSON parsed to the dynamic form, finalized", "dup_bytes() and import", "unsafe counter, switched", "skinny counter, switched", "span of pairs into a buffer", "typed object, finalized",
    "definalized and finalized again", "half of the fields merged into the other half", "built in reverse order", "built with overwritten fields", "bytes shared and imported", "buffer from a dynamic packet", "members removed from a larger object", "nested fields given as finalized values", "projection asking for 2 absent keys too", "projection asking for 7 absent keys too", "inject replacing every field", "inject replacing half of the fields of a finalized packet"};
  return n[p];
}
inline dart::heap reversed(Val const& v) { dart::heap r = dart::heap::make_object(); for (auto it = v.o.rbegin(); it != v.o.rend(); ++it) r.add_field(sv(it->first), it->second.k == Val::Obj ? reversed(it->second) : build<dart::heap>(it->second)); return r; }

// Returns false when the path cannot express the value.
inline bool produce(int path, Val const& v, dart::buffer& out) {
  switch (path) {
    case 0: out = build<dart::heap>(v).finalize(); return true;
    case 1: out = dart::buffer(build<dart::heap>(v)); return true;
    case 2: { auto p = build<dart::packet>(v); p.finalize(); out = dart::buffer(p); return true; }
    case 3: { auto h = build<dart::heap>(v); out = h.lower(); return true; }
    case 4: { dart::buffer b = dart::heap::make_object().finalize(); for (auto it = v.o.rbegin(); it != v.o.rend(); ++it) { std::vector<dart::heap> kv {dart::heap::make_string(sv(it->first)), build<dart::heap>(it->second)}; b = b.inject(gsl::span<dart::heap const>(kv.data(), kv.size())); } out = b; return true; }
    case 5: {
      Val big = v; int i = 0; for (auto& x : {"", "a0", "m", "zzz", "k0000", "zzzzzzzzzzzz"}) if (!v.o.count(x)) big.o[x] = layout_values()[(i++ * 5 + 1) % 17];
      std::vector<std::string> ks; for (auto& e : v.o) ks.push_back(e.first); out = build<dart::heap>(big).finalize().project(gsl::span<std::string const>(ks.data(), ks.size())); return true; }
    case 6: { auto b = build<dart::heap>(Val::obj({{"n", Val::str("pad")}, {"w", v}, {"x", Val::boolean(true)}})).finalize(); out = b["w"]; return true; }
    case 7: { auto b = build<dart::heap>(Val::obj({{"w", Val::arr({Val::boolean(true), v, Val::integer(1)})}})).finalize(); dart::buffer a = b["w"]; out = a[1]; return true; }
    case 8: case 9: case 10: { if (!jsonable(v)) return false; std::string s; json(v, s); if (path == 8) out = dart::buffer::from_json(s); else { auto p = dart::packet::from_json(s, path == 9); MC_CHECK(p.is_finalized() == (path == 9), "form of a parsed packet", "from_json gives the wrong form"); if (path == 10) p.finalize(); out = dart::buffer(p); } return true; }
    case 11: { auto b = build<dart::heap>(v).finalize(); out = dart::buffer(b.dup_bytes()); return true; }
    case 12: { auto b = build<dart::unsafe_heap>(v).finalize(); out = dart::unsafe_buffer::transmogrify<std::shared_ptr>(b); return true; }
    case 13: { auto b = build<dart::basic_heap<dart::skinny_ptr>>(v).finalize(); out = dart::basic_buffer<dart::skinny_ptr>::transmogrify<std::shared_ptr>(b); return true; }
    case 14: { std::vector<dart::heap> kv; for (auto it = v.o.rbegin(); it != v.o.rend(); ++it) { kv.push_back(dart::heap::make_string(sv(it->first))); kv.push_back(build<dart::heap>(it->second)); } out = dart::buffer::make_object(gsl::span<dart::heap const>(kv.data(), kv.size())); return true; }
    case 15: { dart::packet::object o {build<dart::packet>(v)}; auto f = std::move(o).finalize(); out = dart::buffer(dart::packet(f)); return true; }
    case 16: { auto b = build<dart::heap>(v).finalize(); auto h = b.definalize(); auto b2 = h.finalize(); out = b2.lift().lower(); return true; }
    case 17: { Val a = Val::obj(), b = Val::obj(); int i = 0; for (auto& e : v.o) (i++ % 2 ? a : b).o[e.first] = e.second; auto fa = build<dart::heap>(a).finalize(); std::vector<dart::heap> kv; for (auto& e : b.o) { kv.push_back(dart::heap::make_string(sv(e.first))); kv.push_back(build<dart::heap>(e.second)); } out = fa.inject(gsl::span<dart::heap const>(kv.data(), kv.size())); return true; }
    case 18: out = reversed(v).finalize(); return true;
    case 19: { dart::heap h = dart::heap::make_object(); for (auto& e : v.o) h.add_field(sv(e.first), std::string(30, 'o')); for (auto& e : v.o) h.set(sv(e.first), build<dart::heap>(e.second)); out = h.finalize(); return true; }
    case 20: { auto b = build<dart::heap>(v).finalize(); std::shared_ptr<gsl::byte const> s; b.share_bytes(s); out = dart::buffer(s); return true; }
    case 21: { auto p = build<dart::packet>(v); out = dart::buffer(p); return true; }
    case 22: { Val big = v; std::vector<std::string> extra; for (auto& x : {"", "b0", "mm", "zzzz"}) if (!v.o.count(x)) { big.o[x] = Val::arr({Val::str(x)}); extra.push_back(x); } auto h = build<dart::heap>(big); for (auto& x : extra) h.remove_field(sv(x)); out = h.finalize(); return true; }
    case 24: case 25: {
      Val big = v; int i = 0; for (auto& x : {"", "a0", "m"}) if (!v.o.count(x)) big.o[x] = layout_values()[(i++ * 3 + 2) % 17];
      static char const* absent[] = {"-n", "n-", "0n", "n0n0", "nn", "~", "n"}; std::vector<std::string> ks; for (auto& e : v.o) ks.push_back(e.first); for (int n = 0; n < (path == 24 ? 2 : 7); ++n) if (!big.o.count(absent[n])) ks.insert(ks.begin() + n % (ks.size() + 1), absent[n]);
      out = build<dart::heap>(big).finalize().project(gsl::span<std::string const>(ks.data(), ks.size())); return true; }
    case 26: case 27: {
      Val was = v; int i = 0, j = 0; std::vector<dart::heap> kv; for (auto& e : was.o) if (path == 26 || j++ % 2) { kv.push_back(dart::heap::make_string(sv(e.first))); kv.push_back(build<dart::heap>(e.second)); e.second = layout_values()[(i++ * 7 + 4) % 17]; }
      gsl::span<dart::heap const> span(kv.data(), kv.size()); if (path == 26) out = build<dart::heap>(was).finalize().inject(span); else { auto p = build<dart::packet>(was); p.finalize(); out = dart::buffer(p.inject(span)); } return true; }
    default: { dart::packet p = dart::packet::make_object(); for (auto& e : v.o) { dart::buffer w = build<dart::heap>(Val::obj({{"w", e.second}})).finalize(); p.add_field(sv(e.first), dart::packet(w["w"])); } p.finalize(); out = dart::buffer(p); return true; }
  }
}
}
