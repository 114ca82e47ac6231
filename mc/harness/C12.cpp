// C12: JSON in.
#include "jsonmodel.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {

bool imprecise;
template <class P> void expect_num(P const& p, Val const& want, std::string const& what) { Val got = read(p); if (same(got, want)) return; if (near_same(got, want)) imprecise = true; else mc::fail("wrong value: " + what, what + " is " + dump(got) + ", expected " + dump(want)); }

template <unsigned flags> void judge_(std::string const& text, unsigned ext) {
  MC_NOTE("parse " + mc::show(text, 300)); mc::step();
  Val want; bool zh = false, lone = false; auto st = jm::parse(text, want, ext, &zh, &lone);
  auto sv = dart::shim::string_view(text.data(), text.size());
  // an exact-size copy, so that reading past the end is seen
  std::unique_ptr<char[]> exact(new char[text.size()]); memcpy(exact.get(), text.data(), text.size()); dart::shim::string_view ev(exact.get(), text.size());
  dart::heap h; dart::buffer b; dart::packet pf, pd;
  Err eh = attempt([&] { h = dart::heap::from_json<flags>(ev); }), eb = attempt([&] { b = dart::buffer::from_json<flags>(ev); });
  Err ef = attempt([&] { pf = dart::packet::from_json<flags>(ev, true); }), ed = attempt([&] { pd = dart::packet::from_json<flags>(ev, false); });
  MC_CHECK(eb == ef, "packet and buffer differ", std::string("from_json to a buffer: ") + name(eb) + ", to a finalized packet: " + name(ef)); MC_CHECK(eh == ed, "packet and heap differ", std::string("from_json to the dynamic form: ") + name(eh) + ", to a dynamic packet: " + name(ed));
  if (st == jm::ok && lone && eh != Err::none) { MC_CHECK(eh == Err::parse && eb == Err::parse, "unpaired surrogate", std::string("an unpaired low surrogate is ") + name(eh) + " for one form and " + name(eb) + " for the other"); return; }
  if (st == jm::ok && zh && eh != Err::none && eb != Err::none) mc::fail("zero with an exponent above 308 refused (RapidJSON)", "parsing " + mc::show(text, 300) + " is refused");
  if (st == jm::ok) {
    if (want.k == Val::Obj || want.k == Val::Arr) {
      if (want.k == Val::Obj) for (auto& e : want.o) if (e.first.size() > 65535) { MC_CHECK(eh != Err::none && eb != Err::none, "oversized key accepted", "a key that does not fit is accepted"); return; }
      if (eh != Err::none) mc::fail("valid text rejected (dynamic)", "parsing " + mc::show(text, 300) + " to the dynamic form gives " + name(eh)); expect_num(h, want, "dynamic value"); expect_num(pd, want, "dynamic packet");
    } else MC_CHECK(eh == Err::type, "bare scalar (dynamic)", std::string("a bare scalar gives ") + name(eh));
    if (want.k == Val::Obj) {
      if (eb != Err::none) mc::fail("valid text rejected (finalized)", "parsing " + mc::show(text, 300) + " to the finalized form gives " + name(eb)); expect_num(b, want, "finalized value"); expect_num(pf, want, "finalized packet");
      MC_CHECK(dart::is_valid(b.get_bytes()), "parsed buffer does not validate", "parsing " + mc::show(text, 300) + " gives a buffer that does not validate");
      for (auto& e : want.o) { auto x = b[mdl::sv(e.first)]; expect_num(x, e.second, "looked up field"); }
    } else MC_CHECK(eb == Err::type, "non-object (finalized)", std::string("a text that is no object gives ") + name(eb));
    mc::nontrivial(); mc::state(hash(want));
  } else if (st == jm::toobig) { // beyond the range of a double: refused or infinite, alike in both forms
    if (eh == Err::none) MC_CHECK(eb == Err::none || h.is_array(), "overflow differs", "an overflowing number is accepted by the dynamic form only"); else { MC_CHECK(eh == Err::parse || eh == Err::type, "overflow", std::string("an overflowing number gives ") + name(eh)); MC_CHECK(eb != Err::none, "overflow differs", "an overflowing number is accepted by the finalized form only"); }
  } else {
    auto chk = [&] (Err e, char const* form, bool heap) { if (e == Err::parse) return; if (heap && e == Err::type) { char c = 0; for (char x : text) if (!strchr(" \n\r\t", x)) { c = x; break; } if (c != '{' && c != '[') return; } // a leading scalar is refused before the rest is seen
      mc::fail(std::string("malformed text, ") + form, std::string("malformed text ") + mc::show(text, 300) + " gives " + name(e) + " for the " + form + " form"); };
    chk(eh, "dynamic", true); chk(eb, "finalized", false); mc::state(mc::mix(99, mc::hash_str(text) % 1024));
  }
}
template <unsigned flags> void judge(std::string const& t, unsigned ext) { imprecise = false; judge_<flags>(t, ext); if (imprecise) mc::fail("decimal off in its last places (RapidJSON default precision)", "parsing " + mc::show(t, 300) + " gives a decimal a few units in the last place away from the nearest double"); }
void plain(std::string const& t) { judge<dart::parse_default>(t, 0); }
void permissive(std::string const& t) { judge<dart::parse_permissive>(t, jm::Comments | jm::Nan | jm::Trailing); }

MC_SPACE_X(toks, "token-sequences", "every sequence of up to 6 (thorough 7) of 10 tokens { } [ ] , : \"a\" \"\" 1 null, joined without separators, as a whole document", 3, true) {
  static char const* t[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "1", "null"}; int n = choose(mc::thorough() ? 8 : 7); std::string s; for (int i = 0; i < n; ++i) s += t[choose(10)]; plain(s);
}
MC_SPACE_X(inobj, "token-sequences-in-object", "every sequence of up to 5 (thorough 6) of 12 tokens between { and }", 3, true) {
  static char const* t[] = {"\"a\":", "\"\":", "\"b\"", "1", "2.5", "[", "]", "{", "}", ",", "true", ":"}; int n = choose(mc::thorough() ? 7 : 6); std::string s = "{"; for (int i = 0; i < n; ++i) s += t[choose(12)]; plain(s + "}");
}
MC_SPACE_X(nums, "number-grammar", "every string of 1..6 (thorough 7) characters over 0 1 9 - + . e E as the value of a field", 3, true) {
  static char const c[] = "019-+.eE"; int n = 1 + choose(mc::thorough() ? 7 : 6); std::string s; for (int i = 0; i < n; ++i) s += c[choose(8)]; plain("{\"n\":" + s + "}");
}
std::vector<std::string> const& hard() { static std::vector<std::string> const v {"0", "-0", "-0.0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "9007199254740993", "9007199254740993.0", "0.1", "0.10000000000000000555", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072012e-308", "2.2250738585072014e-308", "1.7976931348623157e308", "1.7976931348623159e308", "1e308", "1e309", "1e400", "-1e400", "1e-400", "1e22", "1e23", "8.5e22", "3.4028234663852886e38", "3.4028235677973366e38", "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124", "1.00000000000000011102230246251565404236316680908203126", "0.000001", "1e0", "1E+2", "1e-2", "32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
  "0.3", "0.30000000000000004", "179769313486231580793e289", "6929495644600919.5", "3.7455744005952583e15", "2.2204460492503131e-16", "100000000000000000000000000000000000000000000000000", "0.00000000000000000000000000000000000000000000000001", "1e00000000000000000001", "1e-00000000000000000001", "0e999999999", "0.0e-999999999",
  "01", "1.", ".5", "+1", "1e", "1e+", "-", "--1", "0x1", "1_0", "NaN", "Infinity", "-Infinity", "1 2", "1,", "١", "1e5.5", "1ee5", "1.5.5", "-01", "00", "1f"}; return v; }
MC_SPACE(hardn, "hard-numbers", "82 boundary and malformed numbers as field, element, nested, signed and doubled, plus 17 digit mantissas x every exponent -330..310") {
  int k = choose(5); if (k < 4) { auto& n = pick(hard()); switch (k) { case 0: plain("{\"a\":" + n + "}"); break; case 1: plain("{\"a\":[" + n + "," + n + "]}"); break; case 2: plain("{\"a\":{\"b\":-" + n + "}}"); break; default: plain("[" + n + ",1]"); } }
  else { static char const* m[] = {"1", "9007199254740993", "1.7976931348623157", "2.2250738585072011", "4.9406564584124654", "8.9884656743115795", "12345678901234567", "6.0221407599999999", "0.00012345678901234567", "99999999999999999999"}; int e = choose(641) - 330; plain("{\"x\":" + std::string(pick(m)) + "e" + std::to_string(e) + "}"); }
}
MC_SPACE_X(strs, "string-grammar", "every string of 0..5 (thorough 6) pieces over 14 pieces: quote, backslash, escape letters, hex digits, control, DEL, UTF-8 and stray bytes, slash, in value and key position", 3, true) {
  static std::string const c[] = {"\"", "\\", "u", "0", "n", "d8", "a", std::string(1, '\x1f'), "\x7f", "\xc3\xa9", "\xff", "/", "\\u00", " "}; int key = choose(2), n = choose(mc::thorough() ? 7 : 6); std::string s; for (int i = 0; i < n; ++i) s += c[choose(14)]; plain(key ? "{\"" + s + "\":1}" : "{\"k\":\"" + s + "\"}");
}
MC_SPACE_X(uni, "unicode-escapes", "\\u with every 4 digits out of 0 d D 8 c f g, followed by 9 continuations (surrogate partners valid and not, plain text, end)", 3, true) {
  static char const hx[] = "0dD8cfg"; std::string u = "\\u"; for (int i = 0; i < 4; ++i) u += hx[choose(7)]; static char const* tail[] = {"", "x", "\\udc00", "\\udfff", "\\ud800", "\\u0041", "\\udc", "\\n", "\\"}; std::string t = tail[choose(9)]; plain("{\"s\":\"" + u + t + "\"}"); plain("{\"" + u + t + "\":null}");
}
MC_SPACE(lits, "literals", "true, false and null with every single edit (deletion, replacement by 12 characters, insertion, case), in value position") {
  static char const* l[] = {"true", "false", "null"}; std::string s = pick(l); int op = choose(4), at = choose((int) s.size()); static char const c[] = "tTfanNulse\"1 "; if (op == 0) s.erase(at, 1); else if (op == 1) s[at] = c[choose(12)]; else if (op == 2) s.insert(at, 1, c[choose(12)]); else s += c[choose(13)]; plain("{\"k\":" + s + "}");
}
std::vector<std::string> const& docs() { static std::vector<std::string> const v {"{}", "{\"a\":1}", "[]", "[1,2]", "{\"a\":{\"b\":[true,null,{\"\":-1.5e2}]},\"c\":\"x\\n\\u00e9\"}", " { \"k\" : [ ] , \"l\" : { } } ", "[[[1]],{\"a\":[{}]}]", "{\"dup\":1,\"dup\":[2],\"\":{\"\":{}}}", "{\"n\":-0.001E+2,\"s\":\"\",\"t\":true,\"f\":false}", "[\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"]"}; return v; }
MC_SPACE(edits, "single-edits", "10 documents with every single character deleted, replaced by or preceded by each of 28 characters, and cut at every position") {
  std::string s = pick(docs()); int op = choose(4); static std::string const c = std::string("{}[],:\"\\ \n\t/*01-+.eEtfnu#'a") + "\x01"; int at = choose((int) s.size());
  if (op == 0) s.erase(at, 1); else if (op == 1) s[at] = c[choose((int) c.size())]; else if (op == 2) s.insert(at, 1, c[choose((int) c.size())]); else s.resize(at); plain(s);
}
MC_SPACE(edits2, "double-edits", "6 short documents with every pair of single character replacements over 13 characters") {
  std::string s = docs()[choose(4)]; if (choose(2)) s = " " + s + " "; static std::string const c = "{}[],:\"\\ 1-ae"; int a = choose((int) s.size()), b = choose((int) s.size()); if (b < a) mc::prune(); s[a] = c[choose(13)]; s[b] = c[choose(13)]; plain(s);
}
// Well-formed documents, enumerated as trees; duplicate keys, all key spellings, whitespace.
void gen(std::string& o, int& budget, int depth, std::string const& w) {
  static char const* leaf[] = {"1", "\"s\"", "null", "0.5"}; int kind = depth ? choose(3) : 0; if (kind == 0) { o += leaf[choose(4)]; return; }
  static char const* keys[] = {"\"\"", "\"a\"", "\"\\u0061\"", "\"b\""}; int n = choose(std::min(budget, 3) + 1); budget -= n; o += kind == 1 ? "[" : "{"; o += w;
  for (int i = 0; i < n; ++i) { if (i) o += "," + w; if (kind == 2) { o += keys[choose(4)]; o += w + ":" + w; } gen(o, budget, depth - 1, w); o += w; } o += kind == 1 ? "]" : "}";
}
MC_SPACE_X(trees, "documents", "every document of at most 4 (thorough 5) nodes below an object root, depth 3, 4 key spellings (2 of the same key), 4 leaves, 2 whitespace styles", 4, true) {
  int budget = mc::thorough() ? 5 : 4; std::string w = choose(2) ? " \n" : ""; std::string s = w + "{" + w; static char const* keys[] = {"\"\"", "\"a\"", "\"\\u0061\"", "\"b\""}; int n = choose(4); budget -= n; for (int i = 0; i < n; ++i) { if (i) s += ","; s += keys[choose(4)]; s += w + ":" + w; gen(s, budget, 2, w); s += w; } plain(s + "}" + w);
}
MC_SPACE(ext, "extensions", "every sequence of up to 5 (thorough 6) of 13 pieces including comments, trailing commas, NaN and Inf, with the permissive flags and (must be refused where not JSON) without") {
  static char const* t[] = {"[", "]", "{", "}", ",", "\"a\":", "1", "/*c*/", "//x\n", "NaN", "-Inf", "Infinity", "/"}; int n = choose(mc::thorough() ? 7 : 6), perm = choose(2); std::string s; for (int i = 0; i < n; ++i) s += t[choose(13)]; if (perm) permissive(s); else if (n <= 4) plain(s); else mc::prune();
}
MC_SPACE(sizes, "sizes", "flat and nested documents of 0..200 (thorough 1000) elements of 9 kinds (the smallest text per element the grammar allows), keys and strings of lengths 0..300 and around 65535") {
  int kind = choose(12), n = choose(mc::thorough() ? 1001 : 201); std::string s;
  if (kind < 7) { static char const* e[] = {"1", "[]", "{}", "\"\"", "null", "1e9", "100000"}; s = "{\"\":["; for (int i = 0; i < n; ++i) { if (i) s += ','; s += e[kind]; } s += "]}"; }
  else if (kind == 7) { s = "{"; for (int i = 0; i < n; ++i) { if (i) s += ','; s += "\"\":" + std::to_string(i % 10); } s += "}"; }
  else if (kind == 8) { s = "{"; for (int i = 0; i < n; ++i) { if (i) s += ','; s += "\"" + std::to_string(i % 100) + "\":1.1"; } s += "}"; }
  else if (kind == 9) { s = "{\"a\":"; int d = n % 100; for (int i = 0; i < d; ++i) s += i % 2 ? "[" : "{\"\":"; s += "1"; for (int i = d; i--;) s += i % 2 ? "]" : "}"; s += "}"; }
  else { static int const l[] = {0, 1, 254, 255, 256, 300, 65534, 65535, 65536, 65537}; if (n >= 10) mc::prune(); std::string x = rep('z', l[n]); s = kind == 10 ? "{\"a\":\"" + x + "\",\"b\":0.1}" : "{\"" + x + "\":0.1}"; }
  plain(s);
}
}
